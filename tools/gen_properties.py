#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one call per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

K = "src/runtime/cpu/kernels/kernels.cpp"
L = "src/runtime/cpu/layers/"
NN = "src/expression/nn.cpp"

prop("C01", "Tensor shape, strides, size and reshape are always mutually consistent",
 "For every shape with non-negative dimensions a tensor of that shape reports exactly that shape, row-major strides and an element count equal to the exact product of the dimensions (1 for the empty shape of an allocated tensor), is empty exactly when that count is 0, provides that many independently writable elements when it allocates, and prints its elements in order. Reshape succeeds exactly when the new shape has no negative dimension and the same element count; it then changes only shape and strides and never moves or alters an element. A shape with a negative dimension, or a reshape that changes the element count, is rejected with an exception and leaves the tensor exactly as it was.",
 ["inputs", "histories"], "all shapes (any rank, zero and one dimensions, sizes beyond 32 bits) and all sequences of construct/allocate/reshape calls",
 "The unit tests check nine fixed shapes, one print of four elements and two negative shapes; reshape, zero dimensions, large products and sequences of operations are never exercised.",
 ["src/runtime/tensor.cpp", "include/deepworks/tensor.hpp"],
 [("size and stride computation on construction/allocation", "src/runtime/tensor.cpp (init, calculateStrides)"), ("reshape check", "src/runtime/tensor.cpp (reshape)")],
 ["shape(), strides(), total(), empty(), data(), operator<<"])

prop("C02", "Tensor copies alias, copyTo is a deep exact copy, and storage lives long enough",
 "Copying or assigning a tensor yields a handle to the same elements and metadata, while copying contents into another tensor transfers every element bit-exactly into distinct storage, only when shapes match and the destination is allocated, and otherwise throws leaving the destination untouched. Owned storage stays valid while any handle to it exists and is released exactly once when the last goes away or is reallocated. Tensors created over caller memory read and write that memory in place, touch nothing outside it, and never free it.",
 ["histories", "inputs"], "all interleavings of create, copy, assign, view, allocate, reshape, copy-contents and destroy over a pool of handles",
 "Tests check one assignment, one copy of a fixed shape and two views; lifetimes, leaks and longer histories are not observed at all.",
 ["src/runtime/tensor.cpp", "include/deepworks/tensor.hpp"],
 [("shared descriptor and shared memory pointer", "src/runtime/tensor.cpp (Descriptor, allocate)"), ("content copy", "src/runtime/tensor.cpp (copyTo)")],
 ["data() identity, element bits, live heap bytes"])

prop("C03", "Initializers fill every element with the promised distribution and nothing else",
 "Zero and constant initialisation set every element of the tensor to exactly the requested value; uniform initialisation sets every element to an independent draw that is spread evenly over [lower, upper); and Xavier-uniform initialisation draws evenly from plus/minus sqrt(6 / (m + k)) where m is the leading dimension and k the number of elements per leading index. Each initializer writes exactly the tensor's elements and nothing outside, and the factory forms produce a tensor of the requested shape filled the same way. Successive random fills, and different elements of one fill, are not copies of one another.",
 ["inputs", "configurations"], "all shapes, values and ranges (including negative, tiny, huge and equal bounds)",
 "No test looks at any initializer's values; layers and samples only use them as opaque random data.",
 ["src/initializers.cpp", "src/runtime/tensor.cpp", "src/utils/generator.hpp"],
 [("fill and distribution objects over the shared generator", "src/initializers.cpp")],
 ["tensor elements after the call, canaries around the storage"])

prop("C04", "Activations and Add compute their documented function element by element",
 "For every finite input, ReLU, LeakyReLU, ELU and Sigmoid produce at each position the documented function of the input at that same position (max(0,x); x or alpha*x; x or alpha*(exp(x)-1); 1/(1+exp(-x))), and Add produces the sum of its two inputs at that position, to floating-point accuracy. The result at a position depends on no other position, on the tensor's size, rank, alignment, or on previous calls.",
 ["inputs", "configurations"], "all finite inputs (signed zeros, denormals, large magnitudes), slopes/scales, shapes of any rank and element count",
 "The layer tests cannot even be linked in this build and use one uniform [0,1) tensor, so negative inputs, saturation and odd sizes are never seen.",
 [K, L+"cpurelu.cpp", L+"cpuleakyrelu.cpp", L+"cpuelu.cpp", L+"cpusigmoid.cpp", L+"cpuadd.cpp"],
 [("vectorised element-wise kernels", K)], ["layer forward outputs"])

prop("C05", "Softmax rows are a probability distribution equal to the exact softmax",
 "For every finite 2-D input, each output row equals exp(x_j) / sum_k exp(x_k) of the same input row to floating-point accuracy, with every entry in [0,1] and the row summing to 1. This holds for arbitrarily large positive or negative logits (no overflow, NaN or infinity), is unaffected by adding a constant to a row, and no row influences another.",
 ["inputs"], "all batch sizes, class counts and finite logits up to extreme magnitudes",
 "One uniform [0,1) input is used by the (unlinked) test, and its reference has its own max bug for negative rows.",
 [K, L+"cpusoftmax.cpp"], [("row-max subtraction before exponentiation", K+" (CPUSoftmaxForward)")], ["layer forward output"])

prop("C06", "Linear computes x*W^T + b for any batch and any flattened input rank",
 "For every input of rank two or more, the fully connected layer's output at (i,j) is the dot product of flattened sample i with weight row j plus bias j, to floating-point accuracy (exactly, for integer-valued data within float's exact range). Samples never influence one another, and the layer always uses the current contents of its weight and bias parameters.",
 ["inputs", "histories"], "all batch sizes, feature counts, ranks and values; parameter updates between calls",
 "Fixed small sizes with uniform values, unlinked in this build; no higher-rank inputs and no sizes around vector/blocking boundaries.",
 [K, L+"cpulinear.cpp", NN], [("matrix product and bias add", K+" (CPULinearForward/AddBias)"), ("flattening of trailing dimensions", L+"cpulinear.cpp")], ["layer forward output"])

prop("C07", "Convolution equals the direct cross-correlation for every geometry",
 "For every input size, kernel, zero padding and stride (height and width independent) that yields a non-empty output, each output element equals the bias of its output channel plus the sum over input channels and kernel positions of weight times the input at that offset, with positions outside the image contributing zero, to floating-point accuracy (exactly for integer-valued data). Batch items are independent and the result does not depend on the number of worker threads.",
 ["inputs", "configurations"], "all N,C,H,W, output channels, kernel/padding/stride pairs, including asymmetric ones and leftovers not covered by the stride",
 "Only a few square configurations are tested and those tests do not link here.",
 [K, L+"cpuconvolution.cpp"], [("im2col followed by matrix product per batch item", K+" (CPUConvolutionalForward, im2col)")], ["layer forward output"])

prop("C08", "MaxPooling returns the true window maximum and routes gradients to it",
 "For every input and every window geometry whose padding is smaller than the kernel, each output element is exactly the largest input element among the in-image positions of its window, never a padding value, for any mix of signs. In backward, each output's gradient is added to exactly one in-image position of its window that attains the maximum, so the total gradient is conserved.",
 ["inputs", "configurations"], "all sizes, kernels, paddings, strides, overlapping windows, ties and all-negative inputs",
 "The tests use inputs in [0,1) only and never look at the pooling gradient.",
 [K, L+"cpumaxpooling.cpp"], [("im2col with a padding fill value and per-column maximum with recorded index", K+" (CPUMaxPoolingForward/InputGrad)")], ["layer forward output and accumulated input gradient"])

prop("C09", "Global average pooling averages each channel plane exactly once",
 "For every 4-D input, the output at (n,c) is the mean of all height*width elements of that plane to floating-point accuracy, with no other plane contributing. In backward, every element of the plane receives the output gradient divided by height*width on top of what was already accumulated there.",
 ["inputs"], "all N,C,H,W including 1x1 and non-square planes, all values",
 "A single shape is tested and that test does not link in this build.",
 [K, L+"cpuglobalavgpooling.cpp"], [("row-wise mean over planes", K+" (CPUGlobalAvgPooling*)")], ["layer forward output and input gradient"])

prop("C10", "NCHW/NHWC layout conversions are exact inverse permutations",
 "Converting a 4-D tensor from channel-first to channel-last places the element at (n,c,h,w) at (n,h,w,c) bit-exactly, the opposite conversion does the reverse, and the two compose to the identity in both orders. Every destination element is written exactly once and nothing else is touched.",
 ["inputs"], "all N,C,H,W, including degenerate and prime sizes, and all bit patterns of the elements",
 "No test calls the conversions.",
 [K, "include/deepworks/utils/utils.hpp"], [("index arithmetic of the two loops", K+" (NCHW2NHWC, NHWC2NCHW)")], ["converted tensors"])

prop("C11", "Batch normalisation uses batch statistics in training and running ones in eval",
 "In training mode each feature (1-D) or channel (2-D) is normalised by that batch's own mean and biased variance plus eps, scaled by gamma and shifted by beta, and the running mean and variance become alpha*old + (1-alpha)*batch; in evaluation mode the running statistics are used instead and are not changed. This holds at every step of any sequence of training and evaluation batches, and features or channels never influence one another.",
 ["inputs", "histories", "configurations"], "all batch/feature/channel/plane sizes, eps, alpha, gamma, beta and any interleaving of training and evaluation passes",
 "Tests run a single step of one small uniform batch and are not linked here; running statistics over several steps are never checked.",
 [K, L+"cpubatchnorm1d.cpp", L+"cpubatchnorm2d.cpp"], [("statistics, normalisation and running update", K+" (CPUBatchNorm1DForward)"), ("mode taken from the trainable flag of gamma/beta", L+"cpubatchnorm1d.cpp, "+L+"cpubatchnorm2d.cpp")],
 ["forward outputs and running_mean/running_var buffers after every step"])

prop("C12", "Dropout zeroes with probability p, rescales survivors, and is identity in eval",
 "In training mode every element is independently either zeroed, with probability p, or multiplied by 1/(1-p), with a fresh choice on every forward pass; in evaluation mode the output equals the input exactly. Backward applies the very same choice and factor of the latest forward pass to the output gradient (identity if that pass ran in evaluation mode, whatever the mode is now), adding to what was accumulated.",
 ["inputs", "histories", "configurations"], "all p in [0,1), shapes, values, and interleavings of training and evaluation passes",
 "The only test compares one forward pass against its own mask; the distribution, rescaling of gradients and freshness are never checked.",
 [K, L+"cpudropout.cpp", NN], [("uniform mask compared with p, inverse scaling", K+" (CPUDropoutForward/InputGrad)")], ["forward outputs, accumulated input gradients"])

prop("C13", "Every layer's backward adds the exact vector-Jacobian product to its inputs",
 "For every layer type, in training and in evaluation mode, and every input and output gradient, backward adds to each input's gradient exactly the product of the output gradient with the derivative of the function that layer's latest forward pass evaluated, at the inputs of that pass, to floating-point accuracy (in evaluation mode Dropout is the identity and batch normalisation a fixed affine map given by its running statistics; at a kink, the derivative of the branch that forward applies to that input; 0 for ReLU at zero). What was already accumulated in the input gradient is preserved, and an input used by several consumers (or twice by one) receives the sum of the contributions.",
 ["inputs", "configurations", "histories"], "all layer types, geometries, sizes, values and prior contents of the gradient buffers",
 "Existing tests check only parameter gradients of a handful of networks and do not link here; no test inspects an input gradient with prior contents.",
 [K, L], [("per-layer input gradient kernels accumulate with +=", K)], ["input gradient tensors after backward"])

prop("C14", "Parameter gradients are those of the latest batch, independent of history",
 "After each backward pass the gradients of weight, bias, gamma and beta equal the derivative of the output-gradient-weighted sum of outputs with respect to that parameter for the latest forward batch, to floating-point accuracy. They do not depend on gradients left from earlier passes, and the pass changes no parameter value.",
 ["inputs", "histories", "configurations"], "Linear, Convolution and both batch normalisations, all geometries, sizes, values and sequences of passes",
 "Tests compare a few networks once and do not link here; repeated passes and stale gradients are not covered.",
 [K, L+"cpulinear.cpp", L+"cpuconvolution.cpp", L+"cpubatchnorm1d.cpp", L+"cpubatchnorm2d.cpp"], [("gradient kernels overwrite the parameter's gradient tensor", K)], ["parameter gradient tensors after backward"])

prop("C15", "A layer reused over any history behaves like a fresh layer, memory-safely",
 "Whatever batches a layer has processed before (smaller, larger, different spatial size, training or evaluation, with or without backward), its next forward and backward pass give the same results as a newly created layer with the same parameters and buffers would. No such history makes it read or write outside the tensors involved or use stale intermediate results.",
 ["histories", "inputs"], "all sequences of forward/backward calls with changing batch and image sizes and mode switches, for every layer type",
 "No test calls a layer with two different shapes; memory errors are invisible without sanitizers.",
 [L, K], [("cached work buffers re-allocated when the shape changes", L+"cpuconvolution.cpp, cpumaxpooling.cpp, cpubatchnorm1d.cpp, cpubatchnorm2d.cpp")], ["outputs/gradients vs. a fresh instance, ASan reports"])

prop("C16", "Forward and backward write only their declared results",
 "A forward pass changes nothing but the output tensors (and, where documented, running statistics in training mode and the dropout mask): inputs, parameters and parameter gradients keep their exact bits, and every output element is overwritten regardless of what it held before. A backward pass changes nothing but input gradients and parameter gradients: inputs, outputs, output gradients, parameter values and buffers keep their exact bits; neither touches memory outside the tensors.",
 ["inputs", "configurations", "histories"], "all layer types, shapes (including views into larger buffers at any alignment), values and prior contents",
 "Tests only look at the results they expect; side effects on other tensors go unnoticed.",
 [K, L], [("const maps over inputs and explicit output maps", K)], ["bit snapshots of all tensors and canaries around them"])

prop("C17", "Cross-entropy loss and its gradient are the exact mean negative log-likelihood",
 "For every batch of class probabilities (positive at the labels) and valid integer labels the loss is the mean over the batch of -log(p[label]) to floating-point accuracy, and its gradient is -1/(batch*p[label]) at each sample's label and exactly 0 everywhere else, whatever the gradient tensor held before. Inputs of the wrong rank or mismatching shapes are rejected with an exception, and one loss object gives the same answers as a fresh one for any sequence of batch shapes.",
 ["inputs", "histories"], "all batch sizes, class counts, labels (first, last, repeated), probabilities from tiny to 1, and call sequences",
 "Tests use a few fixed small cases with one shape per object.",
 ["src/loss.cpp", K], [("gather of label positions in the flattened matrix", K+" (MatchTargetTo1dMatrix, CPUNLLLoss)"), ("gradient scatter", "src/loss.cpp (backward)")], ["returned loss, gradient tensor"])

prop("C18", "Accuracy is exactly the fraction of rows whose arg-max matches the label",
 "For every prediction matrix without ties, index-label accuracy and one-hot accuracy equal the exact number of rows whose largest entry is at the labelled column, divided by the number of rows; both agree when labels are re-encoded (a label row names the column of its largest entry, so smoothed labels count as well). Permuting rows never changes the result, it lies in [0,1], and mismatching shapes or ranks are rejected with an exception.",
 ["inputs"], "all row/column counts, values of any sign and magnitude, label encodings",
 "One fixed example per function is tested.",
 ["src/metrics.cpp"], [("per-row arg-max comparison", "src/metrics.cpp")], ["returned accuracy"])

prop("C19", "SGD and momentum SGD follow their update rule on every step and parameter",
 "On each step plain SGD changes every trainable parameter w to w - lr*g, and momentum SGD updates a per-parameter velocity v to gamma*v + lr*g starting from zero and changes w to w - v, with the learning rate in force at that step and to floating-point accuracy. This holds for any number of parameters of any shape over any number of steps with changing gradients, and steps never modify the gradients.",
 ["histories", "inputs", "configurations"], "all parameter sets, shapes, gradient sequences, learning-rate changes and hyper-parameters",
 "Tests take a single step (or a few) on fixed shapes against torch with one constant rate.",
 ["src/optimizer.cpp", "include/deepworks/optimizer.hpp"], [("vectorised update over each parameter", "src/optimizer.cpp")], ["parameter values after every step"])

prop("C20", "Adam follows the bias-corrected update on every step and parameter",
 "On its t-th step (counting from the configured initial iteration count) Adam changes every trainable parameter w to w - lr*mhat/(sqrt(vhat)+epsilon), where m and v are the exponential averages of the gradients and squared gradients started at zero and mhat, vhat their bias corrections for t, to floating-point accuracy. This holds for any number of parameters of any shape, over long runs, with learning-rate changes and any betas, and gradients are never modified.",
 ["histories", "inputs", "configurations"], "all parameter sets, gradient sequences (including zero, tiny and huge gradients), betas, epsilons, learning rates and step counts",
 "Tests take few steps on fixed shapes with default hyper-parameters.",
 ["src/optimizer.cpp", "include/deepworks/optimizer.hpp"], [("moment updates and bias correction with the step counter", "src/optimizer.cpp (Adam::step)")], ["parameter values after every step"])

prop("C21", "Frozen parameters are never modified and resume exactly when unfrozen",
 "An optimizer step leaves every parameter marked non-trainable, and any optimizer state belonging to it, bit-for-bit unchanged, while all other parameters are updated as usual. When a parameter becomes trainable again its updates continue from its own retained velocity or moments; Adam's bias correction keeps counting all steps of the optimizer.",
 ["histories", "configurations"], "all optimizers, all freeze/unfreeze schedules over all parameter subsets",
 "No test ever freezes a parameter.",
 ["src/optimizer.cpp", "src/model/parameter.cpp"], [("trainable flag checked in every step", "src/optimizer.cpp"), ("flag storage", "src/model/parameter.cpp")], ["parameter values after every step"])

prop("C22", "Sequential data loading delivers each sample once per epoch, in order",
 "Without shuffling, successive pulls of an epoch deliver samples 0,1,2,... in order, each at its own place in the batch and together with its own label, floor(size/batch) full batches in all, after which one pull reports the end of the epoch, leaves already allocated batch tensors' contents untouched and rewinds, for every epoch. Empty destination tensors are allocated with the batch shape and reused ones must have it (otherwise an exception); no sample is ever split or truncated.",
 ["inputs", "histories", "configurations"], "all dataset sizes, batch sizes, sample/label shapes and numbers of epochs",
 "The data loader has no test of its own; sample networks use it with one configuration.",
 ["src/dataloader.cpp", "include/deepworks/dataloader.hpp"], [("position counter and per-sample views into the batch", "src/dataloader.cpp (pull, reset)")], ["delivered batches, dataset access log"])

prop("C23", "Shuffled loading draws distinct valid samples paired with their labels",
 "With shuffling, every pull delivers pairwise distinct samples of the dataset, each with its own label and in full, the epoch still consists of exactly floor(size/batch) batches before the end is reported, and the loader then starts over. Over repeated pulls every sample of the dataset (first and last included) keeps being drawn, with no sample and no pair of samples systematically preferred or excluded.",
 ["inputs", "histories", "configurations"], "all dataset sizes, batch sizes (up to the whole dataset) and numbers of epochs, all generator states",
 "No test checks the shuffled loader.",
 ["src/dataloader.cpp", "src/utils/generator.hpp"], [("rejection sampling of unique indices", "src/dataloader.cpp (randomIndices)")], ["delivered batches, dataset access log"])

prop("C24", "Reading a valid PNG or JPEG yields exactly the decoder's 8-bit pixels",
 "For every valid PNG or JPEG file the reader returns a height x width x channels tensor whose values are exactly the 8-bit samples of the decoded image in row-major, channel-last order: for PNG the stored sample values (palette images expanded to RGB, or RGBA when the palette has transparency, sub-byte grey scaled to 8 bits, 16-bit samples reduced to their high byte), for JPEG the reference decoder's output. Reading into an already allocated tensor of equal element count fills it in place with the same values, and the format is chosen by the file extension.",
 ["inputs", "configurations"], "all image sizes, colour types, bit depths, interlacing, JPEG qualities and samplings, path lengths and path string representations",
 "Four committed images (8-bit RGB, RGBA and JPEG) are the only ones ever read.",
 ["src/io/image_reader.cpp", "include/deepworks/image_reader.hpp"], [("libpng/libjpeg scanline decoding and copy", "src/io/image_reader.cpp")], ["returned tensor vs. the known pixel source"])

prop("C25", "Unreadable, damaged or mismatching images are reported, never crash or leak",
 "Reading a missing file, a file of another format, a truncated or corrupted image, an unsupported extension, or an image whose element count differs from the destination tensor either succeeds with a full decoder result or throws an exception. It never terminates the process, reads or writes outside its buffers, leaks memory or leaves a file open, and the reader keeps working afterwards; a size mismatch or missing file always throws and leaves the destination unchanged.",
 ["inputs", "fault_sequences"], "all byte-level damage (truncation at any length, bit flips, garbage, swapped extensions) to images of every supported kind",
 "Two size-mismatch cases are tested; no damaged or missing file is ever read, and leaks or over-reads would be invisible.",
 ["src/io/image_reader.cpp"], [("exception-based cleanup around libpng/libjpeg error handling", "src/io/image_reader.cpp")], ["exceptions, process survival, ASan reports, live heap bytes, open descriptors"])

prop("C26", "Every layer declares the right output shape and correctly sized parameters",
 "For every layer type and valid input shape the declared output shape is the one its forward pass fills (window layers: floor((size + 2*padding - kernel)/stride) + 1 per axis, batch and channel dimensions propagated, unknown batch preserved), and it creates exactly its documented parameters and buffers with the documented shapes and initial values: zero bias and beta, unit gamma, zero running statistics, Xavier weights. Gradients start at zero with the parameter's shape and parameters start trainable.",
 ["inputs", "configurations"], "all layer types, attributes and input shapes",
 "Shapes are only checked implicitly in a few (unlinked) network tests; parameters' initial values are never checked.",
 [NN, "include/deepworks/base_op.hpp", "src/model/parameter.cpp"], [("outShape and init of each operation", NN)], ["declared placeholder shapes, parameters, buffers"])

prop("C27", "Invalid layers and mismatching tensors are rejected with an exception",
 "Building a layer with an input of unsupported rank, non-positive kernel, stride or size, negative padding, a kernel larger than the padded input, mismatching Add operands, a missing or wrongly typed attribute, the wrong number of inputs or an unknown type throws an exception when it is built or, at the latest, when it is first run. A model with a declared input that is not connected, listed twice, produced by an operation or also listed as an output, with an output listed twice, or with an output that depends on an undeclared input is rejected, and running a model that was not compiled, with the wrong number of tensors or with tensors of another shape than declared also throws; in no case is memory accessed out of bounds or the process terminated.",
 ["inputs", "configurations"], "all invalid combinations of layer type, attributes, ranks, shapes and tensor counts",
 "Only unknown layer names looked up in a model are tested for rejection; out-of-bounds accesses on bad ranks are invisible to tests.",
 [NN, "include/deepworks/base_op.hpp", "include/deepworks/layer_info.hpp", L, "src/runtime/cpu/cpubackend.cpp"], [("assertions in outShape/validate", NN+", "+L)], ["exceptions thrown, ASan/UBSan reports"])

prop("C28", "Creating a layer by type name and attributes equals constructing it directly",
 "For every supported layer type, building it from its type name, instance name, attribute dictionary and inputs gives a layer with the same type, name, attributes, output shape, parameters, buffers and (given equal parameter values) the same forward and backward behaviour as direct construction. Attributes are matched by name regardless of order, and no attribute is swapped, dropped or defaulted.",
 ["inputs", "configurations"], "all layer types and attribute values, including asymmetric ones",
 "The factory is only used through model loading, which the linked tests never reach.",
 [NN, "include/deepworks/base_op.hpp", "include/deepworks/layer_info.hpp"], [("dispatch table and typed attribute extraction", NN+" (make_layer)")], ["layer attributes, shapes, outputs"])

prop("C29", "A model computes exactly the composition of its layers over any graph",
 "For every acyclic network built from the layers (chains, branches, diamonds, shared inputs, several inputs and distinct outputs in any order), a compiled model's forward pass gives each output the value obtained by applying the layers one by one, and its backward pass gives every parameter the gradient obtained by the chain rule over all paths. Results depend only on the arguments of the current call and the parameters, not on earlier calls, and inputs, outputs and output gradients passed in to backward are not modified.",
 ["programs", "inputs", "histories"], "all acyclic layer graphs, argument orders, values and sequences of forward/backward calls",
 "Model code is not even linked into the test binary here; upstream tests cover three fixed architectures.",
 ["src/model/model.cpp", "src/model/graphbuilder.cpp", "src/runtime/cpu/cpubackend.cpp"], [("expression unrolling into a graph", "src/model/graphbuilder.cpp"), ("topologically ordered execution with gradient buffers", "src/runtime/cpu/cpubackend.cpp")], ["model outputs, parameter gradients"])

prop("C30", "A model's layers, names, parameters and state describe the network exactly",
 "Every model lists each of its layers exactly once in an order where producers precede consumers, with the right type, name and connected placeholders; unnamed layers get unique names from their type and position (another number if that name is taken), duplicate names and unknown lookups are rejected. The parameter and state dictionaries contain exactly the layers' parameters (and buffers) under layer-dot-parameter keys and share storage with them, so that writing through any of them, switching training mode, or an optimizer step is seen by all, including the next forward pass.",
 ["programs", "histories"], "all acyclic layer graphs with any naming, all sequences of mode switches and writes",
 "One chain of four layers is checked by an unlinked test; sharing and branched graphs are not.",
 ["src/model/model.cpp", "src/model/graphbuilder.cpp", "src/model/layer.cpp", "src/model/parameter.cpp"], [("layer collection and name generation", "src/model/model.cpp (Impl, initNodeId, checkNamesAreUnique)")], ["layers(), getLayer(), params(), state(), inputs(), outputs()"])

prop("C31", "Saving and loading a model or its state reproduces it exactly",
 "A model saved and loaded has the same layers, names, attributes, inputs and outputs in the same order, and bit-identical parameters and buffers, and therefore produces bit-identical outputs for the same inputs; saving it again preserves the same information. State saved from one model and loaded into another with the same layers makes all their tensors bit-identical in place, and configuration files rebuild the same architecture.",
 ["programs", "inputs"], "all model graphs, layer attributes, names and parameter bit patterns (including NaN payloads, infinities, denormals)",
 "One linear layer's state dictionary is round-tripped by a test that does not link here; whole-model save/load is untested.",
 ["src/serialization.cpp", "src/model/model.cpp"], [("binary writer/reader for config and state", "src/serialization.cpp"), ("rebuilding from configuration", "src/model/model.cpp (Build)")], ["loaded model vs. original"])

prop("C32", "Damaged model files and failed writes are reported and never corrupt memory",
 "Loading a missing, truncated, or bit-damaged model, configuration or state file, or one of the wrong kind or for a different architecture, either throws an exception or yields a model/state consistent with the bytes read; truncation anywhere, wrong kind, entries the model does not have and shape mismatches always throw. Loading never crashes, hangs or over-reads, and reading state or configuration never allocates much more than the file holds, and saving to a location that cannot be written (missing directory, full device) throws instead of silently losing data.",
 ["inputs", "fault_sequences", "crash_points"], "all truncation points (a save interrupted at any byte), all single- and multi-byte corruptions, all unwritable targets",
 "Two wrong-kind cases are tested (unlinked here); no damaged file or failed write is ever tried.",
 ["src/serialization.cpp", "src/model/model.cpp", "include/deepworks/layer_info.hpp"], [("kind tag, name and shape checks while reading", "src/serialization.cpp")], ["exceptions, process survival, ASan/UBSan reports"])

prop("C33", "Parallel execution is race-free and gives the same results for any thread count",
 "For every layer, forward and backward passes executed with any number of worker threads and any scheduling contain no data race and produce the same results as single-threaded execution (bit-identical for element-independent work, to floating-point accuracy for reductions). Independent layers and models with separate tensors can be driven from different threads at the same time with the same outcome as sequentially.",
 ["schedules", "inputs"], "all thread counts, work distributions and interleavings of the parallel loops, all batch sizes relative to the thread count",
 "Tests never vary the number of threads and cannot observe races.",
 [K, L+"cpuadd.cpp", L+"cpuconvolution.cpp"], [("parallel loops over disjoint batch items/elements with per-iteration scratch", K+" (#pragma omp parallel for)")], ["TSan reports, outputs under perturbed schedules"])

prop("C34", "Training end to end follows the mathematically exact trajectory",
 "Training a network built from the library's layers with its loss, optimizers, data loader and training loop (forward, loss, loss gradient, backward, step, over several epochs with evaluation phases in between) yields at every step the loss, parameters and running statistics of an independent high-precision implementation of the same network, within accumulated rounding. Evaluation phases and metric computations in between do not influence training.",
 ["programs", "histories"], "networks of all layer types, all optimizers, batch sizes and data sets, with interleaved evaluation",
 "The network tests that train (a few fixed topologies against libtorch) do not link in this build and never interleave evaluation.",
 ["src/model/model.cpp", "src/runtime/cpu/cpubackend.cpp", "src/optimizer.cpp", "src/loss.cpp", "src/dataloader.cpp", K], [("the composition of all of the above", "samples/*/main.cpp show the loop")], ["loss values, parameters, buffers after each step"])

prop("C35", "Steady work does not grow memory and dropped objects give everything back",
 "Repeating the same work on the same objects (layer passes over changing batch sizes and modes, tensor operations, training and evaluation steps, data loading, saving and loading, reading images, rejected or damaged inputs) leaves heap use and open descriptors unchanged in the steady state, and destroying tensors, layers, models, optimizers and loaders returns all memory and descriptors they took, also after operations that ended in an exception.",
 ["histories", "inputs"], "all sequences of operations, object life times and error paths",
 "Tests run every operation a few times and exit; nothing observes memory that is never returned.",
 ["src/runtime/tensor.cpp", "src/model/model.cpp", "src/runtime/cpu/cpubackend.cpp", "src/serialization.cpp", "src/io/image_reader.cpp", "src/dataloader.cpp", K], [("shared tensor memory", "src/runtime/tensor.cpp"), ("per-layer runtime objects created when a model is compiled", "src/runtime/cpu/cpubackend.cpp"), ("file handles and decoder state on error paths", "src/io/image_reader.cpp")], ["bytes in use reported by the allocator, entries of /proc/self/fd"])

prop("C36", "The DOT export draws exactly the model",
 "For every model, however it was obtained (built, loaded, rebuilt from its configuration), save_dot writes a well-formed DOT digraph with exactly one node per layer, showing its name and type, one node per piece of data, showing its shape, and one edge per connection, directed as data flows and labelled with its port number; layer names may be any text without NUL characters (other than the names Placeholder_N that the export itself uses).",
 ["programs"], "all model graphs and layer names",
 "The export has no test.",
 ["src/serialization.cpp", "src/model/model.cpp"], [("save_dot and its quoting", "src/serialization.cpp (save_dot)"), ("configuration of the graph", "src/model/model.cpp (cfg)")], ["the file parsed by an independent DOT parser vs. the network as built"])

prop("C37", "Models that share layers agree on them and are otherwise independent",
 "Several models built over the same placeholders share exactly the layers they have in common: names (a layer keeps the name it was given or first got), parameters, gradients, buffers and training mode are the same objects in all of them, each model lists exactly its own layers, dictionary entries and configuration, and a mode switch, an optimizer step or a training pass of one is seen by the others for the shared layers and changes nothing of any other layer. Each model's forward and backward passes compute its own network however passes of the models interleave, and building, extending, recompiling, saving or destroying one does not disturb the others; layers whose names clash are rejected.",
 ["programs", "histories"], "all networks, all choices of inputs and outputs per model, all interleavings of building, running, training, saving and destroying the models",
 "No test builds two models over one network.",
 ["src/model/model.cpp", "src/model/graphbuilder.cpp", "src/model/layer.cpp", "src/runtime/cpu/cpubackend.cpp", "src/expression/nn.cpp"], [("shared layer description", "include/deepworks/layer_info.hpp"), ("name generation", "src/model/model.cpp (initNodeId)"), ("per-model runtime layers and memory", "src/runtime/cpu/cpubackend.cpp")], ["outputs, gradients, buffers, dictionaries and flags of all models after each step"])

prop("C38", "The sample data sets deliver every record of their files, scaled and labelled",
 "Each data set of the sample programs has exactly one sample per record of its files (rows of the iris table, images of the MNIST, CIFAR-10 and CIFAR-100 directory trees), and delivers it unchanged: iris measurements as written, image pixels divided by 255, colour images channel by channel, with the label of its own species, digit or class (iris: setosa 0, versicolor 1, virginica 2; MNIST: the directory's number; CIFAR-10: the alphabetical index of its ten classes; CIFAR-100: a number from 0 to classes-1, distinct per class, equal for the training and the test tree and independent of the order in which the file system lists the directories). A missing file or directory, a malformed iris row, an unknown species or CIFAR-10 class and an unreadable or wrongly sized image are reported by an exception; nothing is written outside the destination.",
 ["inputs", "configurations"], "all tables and directory trees, valid or damaged, and all orders in which directories are listed",
 "The samples have no tests; the order of directory entries is fixed on any one machine.",
 ["samples/iris/utility.cpp", "samples/mnist/utility.cpp", "samples/cifar10/utility.cpp", "samples/cifar100/utility.cpp"], [("CSV parsing and label table", "samples/iris/utility.cpp"), ("directory scan and labels", "samples/*/utility.cpp"), ("HWC to CHW and scaling", "samples/cifar10/utility.cpp, samples/cifar100/utility.cpp")], ["size(), shape(), pull() of every data set vs. the records written", "labels of separate runs under different directory listing orders (readdir interposed)"])

prop("C39", "A sample's saved model scores in a test run what its training run reported",
 "For every data set, batch size, number of epochs and reporting frequency, a training run of a sample program reports every epoch in order with a finite running loss at the requested frequency, the mean loss and the validation accuracy, learns well separated classes, and saves its model; a later test run of the program with that model reports the accuracy that the last epoch reported, which is the fraction of test records (in full batches) whose most probable class is their own.",
 ["inputs", "histories", "schedules"], "all data sets and command lines of the four programs, all initial weights",
 "The samples have no tests, and the property relates two runs of a program through a file.",
 ["samples/iris/main.cpp", "samples/mnist/main.cpp", "samples/cifar10/main.cpp", "samples/cifar100/main.cpp", "src/serialization.cpp", "src/model/model.cpp"], [("training and validation loops", "samples/*/main.cpp"), ("saving and loading", "src/serialization.cpp"), ("evaluation mode", "src/model/model.cpp (train)")], ["standard output of training and test runs", "own evaluation of the saved model over the files"])

prop("C40", "One operation applied to several inputs shares its parameters safely",
 "An operation object may be applied to any number of inputs: all applications have the same name, parameters, gradients, buffers and mode, and each one computes the operation on its own input, whatever other batch size, image size or (without parameters) shape the others have and however their forward and backward passes interleave. Applying it to an input that its parameters do not fit, or building one model that contains it twice, is rejected by an exception that leaves the parameters and the other applications as they were.",
 ["programs", "histories"], "all operations, all families of input shapes, all interleavings of passes, mode switches and further applications",
 "No test applies an operation twice.",
 ["src/expression/nn.cpp", "include/deepworks/base_op.hpp", "src/model/model.cpp", "src/runtime/cpu/layers/cpudropout.cpp"], [("parameters created on first use", "src/expression/nn.cpp (init)"), ("shared description", "include/deepworks/base_op.hpp (m_info)"), ("per-application runtime state", "src/runtime/cpu/layers")], ["outputs, gradients, running statistics of every application vs. reference", "addresses and bits of parameters", "exceptions"])
prop("C41", "Work and memory grow in proportion to the data and not over time",
 "The work and the memory that any operation takes (layers forward and backward, losses, metrics, optimizers, loader, tensors, images, building, running, saving and loading a model) grow at most in proportion to its data, along every axis: batch, features, channels, image size, kernel, parameters, operations of a model. (Only a shuffled batch may look at the whole data set.) Repeating the same step (training steps, epochs, recompilation) takes the same work and memory however often it has been repeated.",
 ["inputs", "histories"], "all operations, all axes along which their data can grow, all histories of repeated steps",
 "Unit tests use tiny tensors, and pass whatever time an operation takes.",
 ["src/runtime/cpu/kernels/kernels.cpp", "src/optimizer.cpp", "src/dataloader.cpp", "src/model/model.cpp", "src/model/graphbuilder.cpp", "src/serialization.cpp", "src/runtime/tensor.cpp", "src/io/image_reader.cpp"], [("kernels", "src/runtime/cpu/kernels/kernels.cpp"), ("one pass over a model", "src/model/model.cpp (forward, backward), src/model/graphbuilder.cpp"), ("buffers kept between steps", "src/dataloader.cpp, src/optimizer.cpp")], ["control flow graph edges executed, bytes moved", "bytes requested from the allocator"])

prop("C42", "Misuse of the training components is reported, never undefined",
 "A label outside the range of classes (or NaN) given to the loss, an optimizer step over a trainable parameter that has a gradient of another shape or that was added or replaced by one of another shape since a momentum or Adam optimizer was made, a data loader without data set or with a non-positive batch size, a dropout probability outside [0,1), a backward pass through convolution, pooling or batch normalisation before any forward pass (also after recompiling) or with gradients of another batch size than the last one had, and the use of an empty placeholder or model each throw an exception, and what a data set throws reaches the caller of the loader. Nothing outside the tensors is read or written, and predictions, labels, inputs, the offending parameter, and layer parameters and buffers keep their bits. Once corrected, the same objects work as if the rejected call had not been made (a loader delivers the same batch again; after a rejected optimizer step the others' parameters may have moved).",
 ["inputs", "histories", "fault_sequences"], "all invalid labels, parameters, batch sizes, probabilities and failing samples, and all positions of the invalid call in the object's history",
 "Tests use every component as intended.",
 ["src/loss.cpp", "src/runtime/cpu/kernels/kernels.cpp", "src/optimizer.cpp", "src/dataloader.cpp", "src/expression/nn.cpp", "src/runtime/cpu/layers/", "src/model/model.cpp", "src/expression/placeholder.cpp"], [("label check", "src/runtime/cpu/kernels/kernels.cpp (MatchTargetTo1dMatrix)"), ("forward before backward", "src/runtime/cpu/layers/cpuconvolution.cpp, cpumaxpooling.cpp, cpubatchnorm1d.cpp, cpubatchnorm2d.cpp"), ("shape checks of a step", "src/optimizer.cpp")], ["exceptions, ASan/UBSan reports, canaries, bits of all arguments", "results of the next valid use vs. reference"])

prop("C43", "Independent objects can be used from several threads at the same time",
 "Different threads may at the same time create tensors, draw random numbers (initializers, new layers, dropout, shuffled loaders), build, train, save and load models, read images and data sets and run into errors, each with objects of its own: there is no data race, every thread gets the results and error messages that it gets alone, and what it draws is as valid and random as alone and unrelated to what the others draw. Objects that no thread changes (tensors, labels, a model's description and state, stateless data sets, files) may be shared by all of them.",
 ["schedules", "histories", "inputs"], "all programs of the threads, numbers of threads and interleavings",
 "Every test runs in one thread.",
 ["src/utils/generator.hpp", "src/initializers.cpp", "src/dataloader.cpp", "src/runtime/tensor.cpp", "src/model/", "src/serialization.cpp", "src/io/image_reader.cpp"], [("random number generator", "src/utils/generator.hpp"), ("reference counted tensors and models", "src/runtime/tensor.cpp, src/model/model.cpp"), ("decoder and error state", "src/io/image_reader.cpp")], ["ThreadSanitizer reports", "results, messages and draws of every thread vs. a run of its program alone"])
prop("C44", "Running out of memory is reported and leaves everything usable",
 "If any single request for memory, or all of them from some point on, is refused while the library works (tensors, layers forward and backward, building, compiling, running, saving and loading models, losses, optimizers, loaders, images, rejecting misuse), the call either throws a std::exception or returns its normal result; it never crashes, terminates the process, returns a wrong result, writes outside the tensors it was given, modifies its inputs, or leaks memory or descriptors. Nothing else is harmed: a tensor whose allocation or reshape failed stays as it was, layers and models stay valid (a backward pass after the failed forward throws or stays within bounds), a loader does not lose a batch, and the same call gives its normal result once there is memory. Intermediate buffers too large for the memory are reported the same way.",
 ["fault_sequences", "inputs", "histories"], "all operations, all positions of the refused requests in them and all earlier histories of the objects",
 "Tests never run out of memory.",
 ["src/runtime/tensor.cpp", "src/runtime/cpu/layers/", "src/runtime/cpu/kernels/kernels.cpp", "src/model/model.cpp", "src/serialization.cpp", "src/optimizer.cpp", "src/dataloader.cpp", "src/io/image_reader.cpp", "src/utils/assert.cpp"], [("order of allocation and update", "src/runtime/tensor.cpp (allocate, reshape)"), ("buffers that belong together", "src/runtime/cpu/layers/cpumaxpooling.cpp, cpubatchnorm2d.cpp"), ("exceptions of parallel regions", "src/runtime/cpu/kernels/kernels.cpp (parallelFor)"), ("resources on the error path", "src/io/image_reader.cpp")], ["the n-th request for memory is refused (operator new, malloc)", "exceptions, results, canaries, bits of inputs; heap bytes and descriptors after it; the repeated call"])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
