#!/usr/bin/env python3
"""Writes DESIGN.md from the texts below, properties.jsonl, the evidence of the last run and planted_results.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props={}
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
P={}
P['C01']=("history of 1-12 operations per case (construct/allocate/view/reshape/invalid reshape/negative dimension/reallocate/print) against a sequential model of the descriptor; `beyond_int` cases use views of shapes whose count exceeds 2^31/2^32 without touching the memory; count-equal-modulo-2^32 reshapes must be rejected",
 "exact equality of shape, strides, total, emptiness, data pointer and every element's bits after every step; printed numbers parsed back in order",
 "rank 0-8, up to 4e5 elements (4e18 for views)", "unit tests have ~10 fixed shapes; the arithmetic fails only on zero, negative, or huge products")
P['C02']=("a population of handles and caller-memory views is copied, assigned, moved, re-allocated, written and destroyed at random; the model tracks which handles share which block",
 "element bits (NaN payloads, -0, denormals included) through every handle after every step; canaries around caller memory; ASan (use after free, double free, bad free) and live-heap-byte conservation (`leak_probes`)",
 "up to 12 handles, 30 steps", "lifetime bugs depend on the order in which handles die")
P['C03']=("fills into guarded tensors of many shapes, also several fills with different bounds in one process, and a million draws at a time",
 "Kolmogorov-Smirnov distance against U[lo,hi) with false-alarm probability below 1e-12 per case, lag correlations, range, no stretch of 16 draws occurring twice (generator restarts), element/bit exactness for constant fills, duplicate detection between fills, canaries; the random device is interposed so a run is reproducible",
 "up to 1e5 draws per test", "a distribution cannot be sampled by a fixed expected tensor")
P['C04']=("guarded tensors of rank 1-5, odd sizes and alignments, special magnitudes (1e-40..1e38, signed zeros)",
 "double-precision function with a per-element rounding bound; *independence probes*: the same element recomputed alone, in another position and tensor size must give the same bits",
 "up to 5000 elements", "vectorised kernels fail in tails, alignments or for particular magnitudes")
P['C05']=("logits from 1e-6 to 3e38 in mixed levels per row, single column, equal and one-dominating rows",
 "double softmax with bound, row sum, range, finiteness; shift probe (x+c) and row permutation probe", "up to 64x400", "overflow/underflow only for unusual spreads")
P['C06']=("rank 2-6 inputs, integer and float modes, weights changed between calls by writing through every handle",
 "double matmul with n*eps bound, bit-exact on integers; replacing one sample must leave the other rows' bits", "up to ~130x300x130", "layout/aliasing/caching bugs need several calls or ranks")
P['C07']=("height/width-independent kernel 1-7, stride 1-5, padding 0-4 (occasionally 12), images 1-30, batches up to 9, threads 1-4",
 "direct cross-correlation in double with rounding bound, bit-exact on integers; batch-item replacement probe; canaries", "2.9e4 geometries per quick run", "geometry space is a product the tests sample at 3 points")
P['C08']=("all sign mixes, constant -0/+0 planes, infinities and ±FLT_MAX, ties, padding < kernel (up to 12), overlapping windows",
 "exact max over in-image positions; backward with power-of-two output gradients that encode which window sent its gradient where (so ties may go to any attaining position); total conserved", "images up to 30", "padding value and arg-max bookkeeping errors need negative data or repeated passes")
P['C09']=("planes 1x1 to 30x40, accumulated gradients", "double mean, exact for integer data with power-of-two planes; per-plane independence", "-", "non-square or size-one planes")
P['C10']=("4-D shapes incl. size-1 axes; distinct bit patterns (NaN payloads) per element", "exact permutation, composition both orders, canaries, source unchanged", "up to 2e4 elements", "only non-square/non-equal axes reveal swaps")
P['C11']=("sequences of up to 25 train/eval batches of varying size on one layer; offset/scale extremes",
 "sequential double model of normalisation and running statistics with a condition-number-aware bound; per-feature independence probes", "BN1D and BN2D", "defects appear at step k of a history")
P['C12']=("p in [0,0.95] and down to 1e-6 or up to 0.999, sequences of train/eval forward/backward, mode switches between forward and backward", "every survivor is x/(1-p) to 4 ulp, everything else 0; binomial/serial/pairwise independence tests with <1e-12 false-alarm probability; freshness between passes, no stretch of 1024 decisions repeated; backward decoded from the mask seen in forward", "up to 1e5 elements", "random behaviour and cross-call state")
P['C13']=("13 layer types, value modes, repeated forwards and backwards, accumulated and shared gradients, exact kinks, evaluation-mode rounds (frozen layers), mode switches between forward and backward", "analytic double VJP with derived rounding bound, added to the previous contents", "1.3e8 values per quick run", "sampled gradient checks use one shape, one pass, zero gradients")
P['C14']=("histories of forward/backward with changing batches, poisoned (NaN) parameter gradients, abandoned forwards, evaluation-mode passes", "analytic parameter gradient of the latest batch only; parameter bits unchanged", "-", "stale-state bugs need a second pass")
P['C15']=("histories of 3-14 passes with shape changes (batch up/down, H/W swapped, same element count, other sizes), mode switches, parameter changes", "reference model = fresh layer; ASan; NaN-filled heap makes uninitialised scratch visible", "-", "buffer-reuse bugs need specific shape sequences")
P['C16']=("every layer, poisoned outputs, canaries, bit snapshots of all tensors involved", "bitwise comparison of everything not declared as written; outputs independent of previous contents", "-", "in-place shortcuts return the right value")
P['C17']=("probabilities down to 1e-38, 1..1000 classes, dirty gradient tensors, object reuse over batch shapes, loss between forward and backward, rejected shapes", "double NLL with bound; gradient exactly zero off-label; inputs unchanged", "-", "clamps and stale shapes are invisible on ordinary values")
P['C18']=("no-tie predictions of any sign/magnitude, up to 1.7e7 rows (counter saturation), label encodings one-hot/smoothed/negative/noisy, permutations, rejected shapes", "exact rational count", "-", "encodings/sizes a test has no reason to try")
P['C19']=("1-12 parameters of any shape, up to 60 steps, learning-rate changes, gradients replaced or zero", "double optimizer followed step by step with propagated rounding bound; gradients bit-unchanged", "-", "per-parameter state mix-ups need several parameters and steps")
P['C20']=("as C19 with betas in [0,0.999], epsilon, initial iteration counts, a share of runs beyond 1000 steps", "double Adam with propagated bound", "-", "bias correction errors appear late")
P['C21']=("random freeze/unfreeze schedules on all three optimizers", "frozen bits unchanged, resumed trajectory equals the model with retained state and global t", "-", "schedule-dependent")
P['C22']=("dataset that logs accesses and checks its destinations; sizes/batches incl. non-multiples, batch > size, 1; allocated, empty, wrong-shape destinations; several epochs", "exact sample contents, order, end report, untouched tensors, rewind, rejection", "-", "off-by-one at the tail / second epoch")
P['C23']=("many epochs per loader, several loaders alternating; data sets up to 300000 samples", "distinct/valid/paired per pull; frequency of every sample, of pairs, of positions against Chernoff bounds (<1e-12), every sixteenth of the index range in every stretch of a large permutation; epoch length", "sizes up to 3e5 (pairs: 200)", "coverage of first/last sample is statistical")
P['C24']=("PNG/JPEG files generated from known pixels with an own encoder configuration: every colour type x depth x interlace x filter x palette/tRNS/gAMA/bKGD/sBIT; JPEG grey/RGB/CMYK/YCCK, subsampling, progressive, arithmetic, restart, EXIF", "exact pixels (PNG from the source pixels, JPEG from an independent libjpeg use), in-place reading, dotted/upper paths, non-terminated string views", "images up to 60 px", "the tests read two files")
P['C25']=("truncation at every kind of offset, bit flips with repaired CRCs, swapped chunks, wrong extension, directories, empty files, mismatching destinations", "outcome = exception or pixels equal to the reference decoder's; ASan; heap-byte and open-descriptor conservation per case; reader works afterwards", "-", "error paths are unreachable by valid files")
P['C26']=("every layer by construction API; unknown (-1) batch; default arguments", "documented shape formula, names, sizes and initial values, gradients zero, trainable; forward fills exactly that shape", "-", "-")
P['C27']=("catalogue of invalid layers, tensors and models generated per layer type; also after successful calls", "an exception before anything is written (ASan + canaries), and correct behaviour after a rejection", "-", "missing validation is a silent out-of-bounds access")
P['C28']=("`make_layer` from shuffled attribute dictionaries against direct construction", "type, name, attributes, shapes, parameters, forward and backward (bit equal)", "-", "swapped attributes of equal type are invisible when the values are equal")
P['C29']=("random DAGs (up to 14 operations, plus long chains of ~270) with branches, diamonds, several inputs/outputs, outputs consumed inside, shared data; repeated calls, abandoned forwards, recompiles, parameter changes", "topological double recomputation with propagated bounds; parameter gradients over all paths; inputs/outputs/gradients bit-unchanged", "1.3e4 graphs per quick run", "graph bugs depend on topology and call history")
P['C30']=("same graphs with partly named layers, duplicates of names up to 300 layers apart", "own bookkeeping of layers, names, placeholders, dictionaries; storage sharing observed by writing through each handle; training-mode switch and optimizer step seen by next forward", "-", "name collisions/duplicates depend on topology")
P['C31']=("graphs saved as model / config+state, reloaded, saved again; odd names, tensors above buffer sizes, trained models", "canonical description compared, bit-equal tensors and outputs, in-place load", "-", "field order/length bugs need unusual graphs and names")
P['C32']=("truncation at many offsets of each kind of file, byte/bit damage, wrong kinds, states of other architectures (also with equal element counts), /dev/full, missing directories, write faults by RLIMIT_FSIZE", "throws where required, otherwise result consistent and runnable; ASan, CPU/stall limit, allocation cap (`newcap.cpp` records the largest request)", "9e4 truncations per quick run", "fault points")
P['C33']=("layers with teams of 1-16 under ThreadSanitizer with an OpenMP runtime of our own (threads, barriers and work sharing visible to TSan, random delays), and in an optimised libgomp build; 2-5 independent training jobs on different threads", "no TSan report; results equal to the single-threaded ones (bitwise for element-independent work), and to the reference model", "5e3 parallel regions observed per quick run", "schedules")
P['C34']=("random networks trained for up to 16 steps with random optimizer, loader and evaluation phases, checkpoints; runs whose exact trajectory is numerically chaotic or sits on a kink are recognised by a noise-propagating twin and cut there (counted)", "double-precision twin of the whole network, loss, metrics and optimizer; tolerance = spread of the noisy twins", "5e4 steps per quick run", "interaction of parts")
P['C35']=("nine scenarios (a layer over changing shapes and modes, direct and through the factory, tensors, training, building/copying/rebuilding models, saving/loading, damaged files, images incl. broken ones, rejected layers and models), each repeated on the same objects and with whole life times", "bytes in use (interposed allocator) and entries of /proc/self/fd: growth in two consecutive intervals is a violation, so caches that are filled once are allowed", "2.4e3 scenarios", "a leak has no effect on any value a test looks at")
P['C36']=("graphs of C29/C31 (built, loaded, rebuilt, config file, after training), names with quotes, backslashes, keywords, numbers, punctuation, line breaks", "own DOT parser (graphviz grammar), then a bijection between nodes and layers/data, edges and ports, labels", "up to 40 operations plus long chains", "names and graphs a test would not contain")
P['C37']=("2-5 models over one growing random network; random histories of forward/backward (interleaved), mode switches, optimizer steps, building, recompiling, destroying and saving", "per-layer sequential model of mode, parameters and buffers shared by the models; ByHand evaluation of every model's own sub-network; dictionaries, names, flags compared after every step; foreign layers bit-unchanged", "5e4 passes per quick run", "needs two models and a particular order of calls")
P['C38']=("tables and image trees of known content, valid and damaged (missing, malformed, unknown class, damaged image); for CIFAR-100 two child processes per case with different directory listing orders (readdir interposed)", "exact match between the records written and the samples delivered (each under exactly one index, own label), canaries around the destination, equal numbering in both runs", "2400 trees, 2e4 records per quick run", "there are no tests; listing order is an environment choice")
P['C39']=("the four sample programs run as children: train (random data set, batch, epochs, frequency, seed, listing order), then test with the saved model, then an evaluation of our own", "parser of the training report (epochs, losses, accuracies, saved path), accuracy of the test run = accuracy of the last epoch = own count over the files; well separated iris/MNIST data must be learnt", "96 train/test pairs per quick run under ASan/UBSan", "relates two runs through a file")
P['C40']=("every operation applied to 2-6 inputs (other batch, image size, rank or shape), as models or runtime layers; random interleaving of forward, backward, mode switches, further and misfitting applications", "layers.hpp reference evaluated with the shared parameters and the running statistics as the sequence leaves them; addresses and bits of parameters; exceptions", "20000 families per quick run", "no test applies an operation twice")
P['C41']=("every operation at two sizes, 32 times (models 8, images 16 times) apart along one random axis (batch, features, channels, image, kernel, units, parameters, samples, batch size, operations of chains, diamonds, fans and doubled paths), phase by phase; 32-256 repetitions of one step", "compiler instrumentation counts control flow graph edges (block moves by length), an allocator shim counts bytes: the larger case takes at most 2.5 times its share, later steps at most 1.5 times the earlier ones; counts, not clocks", "16000 pairs per quick run", "unit tests pass whatever time an operation takes: batch normalization backward was cubic in the features")
P['C42']=("invalid calls of every kind placed at random points of an object's history: labels (out of range by one up to infinite, NaN), optimizers over changed parameter maps, loaders (null, batch size <= 0, data sets that throw for some samples), dropout probabilities, backward before forward for every layer and random networks (new or recompiled), empty placeholders and models", "must throw (forwarded unchanged for a data set's exception); ASan/UBSan and canaries; bits of arguments, parameters, buffers; then valid use compared with the references", "3.2e4 cases per quick run", "tests use every component as intended")
P['C43']=("2-6 threads, each with a random program of tensor work, random fills, dropout, sequential and shuffled loaders, building, training, saving and loading networks, reading images (also damaged), descriptions of a shared model, shared read-only tensors, files and data sets, and rejected calls; run at once and one after the other (in both orders), under ThreadSanitizer and as an optimised build", "no TSan report; the results and exception messages of every thread equal those of its program run alone (bitwise, or to 1e-3 after reductions in teams); draws satisfy the distribution checks and differ between threads", "1.4e4 concurrent programs of up to 6 operations per quick run", "every test runs in one thread, and shared state hidden in the library is invisible to it")
P['C44']=("every kind of call (12 kinds of layers with and without a change of shape before, tensors, model building, compiling, passes, files, losses, optimizers, loaders, images, misuse) repeated with its n-th request for memory refused (once, a few times, or all from there on), for every n up to 30 (quick) or 120 (thorough) and sampled beyond; intermediate buffers of more than 2^32 elements with a cap on one request; a process of its own for the parallel matrix product", "interposed operator new/malloc; exception or the normal result; ASan/UBSan, canaries, bits of inputs; heap bytes and descriptors afterwards (growth confirmed by repetition); a backward pass after it; the call repeated with memory gives the result of the undisturbed run", "3.5e4 refused requests per quick run; requests inside shared libraries (C runtime, codecs) are not refused", "tests never run out of memory")
o=[]
w=o.append
w('''# DESIGN: runtime monitoring of deepworks

Every property in `properties.jsonl` is decided by *executing the real code*, built from /repo's working
tree, under generated, hostile workloads while monitors watch. No other technique decides a verdict and no
property had to be listed as not applicable.

## The monitors

* **Sanitizers.** gcc AddressSanitizer plus UndefinedBehaviorSanitizer, fatal; fresh heap memory is filled
  with 0xFF bytes (a NaN in every float), so a read of an uninitialised tensor or scratch buffer shows up in
  the results. ThreadSanitizer for C33. (`vptr`, `alignment`, `null`, float-divide-by-zero are left out: the
  first three are covered by ASan crashes, the last is defined behaviour in IEEE arithmetic.)
* **Reference-model monitors.** At every layer/optimizer/loss/loader/reader/model call boundary the result is
  compared with an independent double-precision (or exact) executable model (`harness/layers.hpp`,
  `optref.hpp`, `net.hpp`, `images.hpp`, `ser.hpp`). Tolerances are rounding bounds derived per output
  element from the magnitudes that enter it (number of terms x eps x sum of absolute values, conditioning of
  batch normalisation, ...), not a global epsilon; integer-valued workloads demand bit equality. The bounds
  hold for any summation order, so a rewritten loop or another blocking stays quiet.
* **Footprint monitors.** Guarded tensors (`GT` in `common.hpp`) carry canaries on both sides and bit
  snapshots; live heap bytes, open descriptors and the largest single allocation are conserved quantities.
* **Trace monitors.** Histories (batch sizes, mode switches, freeze schedules, epochs, handle copies, graph
  recompiles, save/load) are checked online, step by step, against a sequential model.
* **Metamorphic probes** where a bound alone would be loose: replace one sample / feature / row and demand
  that all other bits stay; recompute one element alone; permute; shift.
* **Statistical monitors** (C03, C12, C23, Xavier in C26): thresholds chosen so that the total false-alarm
  probability over all tests of a run is below 1e-9; the standard random device is interposed in the harness,
  so VERIF_SEED fixes the whole run.

Each harness counts what its monitors observed (`coverage.observed` in the evidence file) and every check
names counters that must be non-zero (`require` in `checks_config.py`): a run in which a monitor saw nothing
exits 3 instead of passing.

## How a check runs

`check.py <ID> [quick|thorough]` compiles the library sources listed by /repo/src/CMakeLists.txt together with
the harness (objects cached under `.build` by content hash of source, headers and flags), runs 8 worker
processes (OpenMP team sizes 1-4 alternating) over generated cases, and aggregates. Case i of property P is
derived from hash(P, VERIF_SEED, i), so the number of workers does not matter. A crash, sanitizer report or
unexpected exception is a violation attributed to the case that was running. A worker that makes no progress
within one case for 60 s is stopped and its whole shard repeated with 150 s: only a repeated stall (or one in which
all threads slept throughout, i.e. a deadlock) is a violation. Build failures or empty observations exit 3. `--replay FILE` re-executes one
recorded case (then its shard, when the failure depends on earlier cases).

Harnesses use only the public API plus `ICPULayer::create`, `layer_info`, `placeholder_impl` and `call_impl`;
no kernel is called directly, so refactorings inside the library do not break the build of a check. If the
subset of sources a check links turns out not to link (a helper moved to a new file), everything is linked.

### Standing in for what is missing here

* **ADE.** `src/model/model.cpp`, `graphbuilder.cpp`, `runtime/cpu/cpubackend.cpp` and `serialization.cpp` need
  the ADE graph library, whose submodule is absent; the official build here leaves these files out. To execute
  them, `shim/ade` implements the part of ADE they use (typed graph, metadata, handles, passes, topological
  sort, execution engine) with ADE's documented semantics. Without it the model, its names, serialization and
  end-to-end training (C27, C29-C32, C34-C37, C39) could not be run at all. The order ADE leaves unspecified (e.g. among
  independent nodes) is not relied upon by any oracle. `fix:` commits to these files were also checked by building the
  repository's complete unit test suite (79 tests, with the installed libtorch and the shim).
* **libgomp under TSan.** libgomp synchronises with futexes TSan cannot see (false races), so the `tsan`
  variant links `shim/gomp/gomp.cpp`: a small runtime implementing what gcc emits for parallel regions, loops, barriers,
  critical/single/sections/tasks on pthreads, with real threads per team member and random delays. The `rel` variant
  repeats the comparisons on libgomp with -O2.
* **Standard headers.** Sources are compiled with `-include array -include limits -include cstdint` because some
  rely on transitive includes.

## Known findings and repairs

`known_findings.json` lists one recorded finding (C03: `xavierUniform` uses sqrt(6)/(m+k) instead of sqrt(6/(m+k)); the
one-line repair was tried and makes two tests of the repository's complete suite fail - CPULinearAfterConvolutionModelTest.CPULinearForwardAndBackward
and MNISTModel.TrainLoopSmoke, whose absolute tolerances assume the small weights; they are not among the 26 tests that build here - so it is recorded
rather than repaired) and 24 repairs, each its own `fix:` commit in /repo with the property it belongs to. The C03
oracle accepts only the listed behaviour as known (key `xavier:bound-is-sqrt6-over-sum`); any other range is a violation.

## Limits

* Executions, not proofs: what the generators do not reach is not decided. The evidence files state what was reached.
* Tolerances: a defect whose effect stays within the rounding bound of float arithmetic is not visible by definition.
* ASan does not see overflow inside one allocation; canaries cover the tensors' own edges only.
* Signed zeros and NaN payloads are compared only where the property speaks about exact bits.
* GPU/ADE-engine behaviour outside the shim and the Python/demo programs are not exercised.
* -O1 (asan), -O2 (rel, C33 only) and TSan -O1 builds are observed; the shipped RelWithDebInfo binary is not itself run.

## Per property
''')
for i in sorted(props):
    p=props[i]; a=P[i]
    e=json.load(open(V+'/evidence/%s.json'%i))
    w('### %s %s\n'%(i,p['title']))
    w('*Workload:* %s.  \n*Oracle:* %s.  \n*Bounds:* %s; quick run about %d s.  \n*Beyond the tests:* %s.\n'%(a[0],a[1],a[2] if a[2]!='-' else 'sizes up to a few thousand elements',max(3,round(e['wall_s'])),a[3] if a[3]!='-' else 'the tests look at one fixed configuration each'))
w("""## Planted bugs and what catches them

Every entry of `seeded/` was validated as vcheck does it (clean demo 0, patched demo 1, 26 tests pass) and the check of
its property was run against it.
""")
w('| bug | property | caught by | needs | remark |\n|---|---|---|---|---|')
res=json.load(open(V+'/tools/planted_results.json'))
for i in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/%s/meta.json'%i)); q=res.get(i,{})
    w('| %s | %s | %s | %s | %s |'%(i,m['property'],q.get('check','?') if q.get('exit')==1 else 'not caught' if q else 'not run',m['needs'].replace('|','/'),q.get('first','')))
w("""
Besides, about 70 small mutations (operators, bounds, indices, orders, missing resets in every source file) were tried in
scratch copies. Missed at first and caught after strengthening: activation independence and special values
(C04/C13), optimizer long runs (C20), pooling ties and repeated passes (C08), batch-norm extremes (C11), loader
destinations (C22), image error paths and dotted names (C24, C25), attribute orders (C28), long graphs beyond 128/256 nodes
and recompilation (C29-C31).
""")
open(V+'/DESIGN.md','w').write('\n'.join(o))
