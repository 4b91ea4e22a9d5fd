"""What each check builds and runs."""
BASEH = [r"/tensor\.cpp$", r"/initializers\.cpp$", r"/assert\.cpp$"]
LAYH = BASEH + [r"/layers/", r"/kernels/", r"/expression/", r"/model/layer_info\.cpp$", r"/model/parameter\.cpp$", r"/model/layer\.cpp$"]
R = ("one generated case per evaluation, drawn from VERIF_SEED; distinct_nontrivial counts distinct case "
     "descriptions (layer/shape/geometry/value mode/history); every case ends in at least one oracle comparison")
def C(src, **kw):
    d = {"src": [src, "main.cpp"], "rule": kw.pop("rule", R)}
    d.update(kw)
    return d
CHECKS = {
    "C01": C("c01.cpp", hints=BASEH, require=["metadata_observations", "rejections", "reshapes", "beyond_int", "prints"]),
    "C02": C("c02.cpp", hints=BASEH, require=["checked_states", "copies", "rejected_copies", "leak_probes"]),
    "C03": C("c03.cpp", hints=BASEH, require=["distribution_tests", "exact_elements", "random_fills", "recurrence_tests"]),
}
CHECKS.update({
    "C04": C("c04.cpp", hints=LAYH, require=["values_compared", "independence_probes"]),
    "C05": C("c05.cpp", hints=LAYH, require=["rows_checked", "shift_probes"]),
    "C06": C("c06.cpp", hints=LAYH, require=["values_compared", "exact_outputs", "independence_probes", "weight_changes"]),
    "C07": C("c07.cpp", hints=LAYH, require=["values_compared", "exact_outputs", "asymmetric_geometries", "padded_geometries"]),
    "C09": C("c09.cpp", hints=LAYH, require=["forward_calls", "backward_calls", "exact_outputs"]),
    "C10": C("c10.cpp", hints=BASEH + [r"/kernels/"], require=["elements_compared"]),
})
CHECKS.update({
    "C08": C("c08.cpp", hints=LAYH, require=["values_compared", "windows_decoded", "padded_geometries", "backward_calls", "conservation_checks"]),
    "C11": C("c11.cpp", hints=LAYH, require=["train_steps", "eval_steps", "independence_probes", "mode_switches"]),
    "C12": C("c12.cpp", hints=LAYH, require=["train_forwards", "eval_forwards", "train_backwards", "eval_backwards", "freshness_tests", "independence_tests", "recurrence_tests", "switched_before_backward"]),
})
CHECKS.update({
    "C13": C("c13.cpp", hints=LAYH, require=["backward_calls", "shared_inputs", "double_accumulations", "evaluation_rounds", "switched_before_backward"] + ["layer_" + x for x in "Linear ReLU LeakyReLU ELU Sigmoid Softmax BatchNorm1D BatchNorm2D MaxPooling Convolution GlobalAvgPooling Dropout Add".split()]),
    "C14": C("c14.cpp", hints=LAYH, require=["param_grads_checked", "batch_changes", "abandoned_forwards"]),
    "C15": C("c15.cpp", hints=LAYH, require=["forward_calls", "backward_calls", "mode_switches", "shape_changes"]),
    "C16": C("c16.cpp", hints=LAYH, require=["footprint_checks", "passes"]),
})
OPTH = BASEH + [r"/optimizer\.cpp$", r"/model/parameter\.cpp$"]
CHECKS.update({
    "C17": C("c17.cpp", hints=BASEH + [r"/loss\.cpp$", r"/kernels/"], require=["losses", "gradients", "rejections", "object_reuses"]),
    "C18": C("c18.cpp", hints=BASEH + [r"/metrics\.cpp$"], require=["accuracies", "permutations", "rejections", "encoded_labels"]),
    "C19": C("c19.cpp", hints=OPTH, require=["steps", "param_updates", "lr_changes"]),
    "C20": C("c20.cpp", hints=OPTH, require=["steps", "param_updates", "lr_changes"]),
    "C21": C("c21.cpp", hints=OPTH, require=["steps", "param_updates", "frozen_checks", "freeze_changes"]),
})
CHECKS.update({
    "C22": C("c22.cpp", hints=BASEH + [r"/dataloader\.cpp$"], require=["pulls", "samples_checked", "epochs_ended", "rejections"]),
    "C23": C("c23.cpp", hints=BASEH + [r"/dataloader\.cpp$"], require=["pulls", "samples_checked", "epochs_ended", "sample_frequencies", "pair_frequencies", "stretch_tests"]),
})
IMGH = BASEH + [r"/image_reader\.cpp$"]
CHECKS.update({
    "C24": C("c24.cpp", hints=IMGH, require=["png", "jpeg", "pixels", "in_place", "path_views"]),
    "C25": C("c25.cpp", hints=IMGH, require=["missing", "truncated", "flipped", "mismatch", "swapped", "leak_checks", "reads_after", "exceptions"]),
})
CHECKS["C25"]["src"].append("newcap.cpp")
CHECKS.update({
    "C26": C("c26.cpp", hints=LAYH, require=["shapes", "unknown_batch", "parameters", "xavier_weights", "forward_fills", "default_arguments", "storage_checks"]),
    "C28": C("c28.cpp", hints=LAYH, require=["layers_made", "attributes_compared", "forward_compared", "backward_compared"]),
})
CHECKS.update({
    "C27": C("c27.cpp", model=True, require=["invalid_rank", "invalid_units", "invalid_kernel", "invalid_stride", "invalid_padding", "invalid_oversized", "invalid_missing", "invalid_mistyped", "invalid_inputs", "invalid_operands", "invalid_type", "mismatching_calls", "calls_after_rejection", "invalid_models"] + ["invalid_model_" + x for x in "undeclared-input unconnected-input same-name input-twice output-twice produced-input input-as-output only-input".split()]),
})
CHECKS.update({
    "C29": C("c29.cpp", model=True, require=["models", "multi_output", "multi_input", "shared_data", "consumed_outputs", "forward_calls_model", "backward_calls_model", "model_param_grads", "recompiles", "abandoned_forwards", "param_changes"]),
})
CHECKS.update({
    "C30": C("c30.cpp", model=True, require=["models", "layers_checked", "dictionaries", "duplicate_names", "unknown_lookups", "mode_switches", "state_writes", "optimizer_steps", "forwards", "lookalike_names", "clashes_avoided", "single_switches"]),
})
CHECKS.update({
    "C31": C("c31.cpp", model=True, require=["models", "saves", "configs_compared", "states_compared", "outputs_compared", "odd_names", "large_tensors", "trained"]),
})
CHECKS.update({
    "C32": C("c32.cpp", model=True, require=["truncations", "damages", "wrong_kinds", "other_architectures", "fitting_states", "unwritable", "write_faults", "missing_files", "loads_after", "loads_rejected", "accepted_ran"]),
})
CHECKS["C32"]["src"].append("newcap.cpp")
CHECKS.update({
    "C33": C("c33.cpp", model=True, variants=["tsan", "rel"], omp=[1], require=["team_comparisons", "concurrent_runs", "tsan_regions", "tsan_team_threads", "layer_Convolution", "layer_Add", "layer_Linear"],
             assumptions=["data races are judged by ThreadSanitizer on an OpenMP runtime of our own (shim/gomp), which spawns a real thread per team member and adds random delays; results are also compared under libgomp (variant rel)"]),
})
CHECKS.update({
    "C34": C("c34.cpp", model=True, require=["train_steps", "steps_SGD", "steps_SGDMomentum", "steps_Adam", "evaluations", "evaluations_mid_epoch", "monitored_steps", "accuracies", "checkpoints", "completed", "state_entries"]),
})
CHECKS.update({
    "C35": C("c35.cpp", model=True, omp=[2], require=["steady_states", "lifetimes"] + ["scenario_" + x for x in "layer tensor training building saving damaged image rejected".split()]),
})
CHECKS.update({
    "C36": C("c36.cpp", model=True, require=["models", "exports", "nodes", "edges", "odd_names", "long_networks", "from_built", "from_loaded", "from_rebuilt", "from_config-file", "from_trained"]),
})
CHECKS.update({
    "C37": C("c37.cpp", model=True, require="models sharing_models descriptions forwards backwards gradients interleavings mixed_modes mode_switches optimizer_steps extensions named_later models_destroyed recompiles saves clashing_names".split()),
})
SAMPLES = ["iris", "mnist", "cifar10", "cifar100"]
CHECKS.update({
    "C38": C("c38.cpp", hints=BASEH + [r"/image_reader\.cpp$", r"/dataloader\.cpp$"], cxx=["-I@REPO@"], require=["records", "iris_sets", "mnist_sets", "cifar10_sets", "cifar100_sets", "damaged_sets", "damaged_images", "class_numberings"]),
})
CHECKS["C38"]["src"] += ["sample_%s.cpp" % s for s in SAMPLES]
CHECKS.update({
    "C39": C("c39.cpp", model=True, cxx=["-I@REPO@"], require=["epochs", "train_test_pairs", "independent_evaluations", "learnt"] + ["%s_runs" % s for s in SAMPLES]),
})
CHECKS["C39"]["src"] += ["sample_%s.cpp" % s for s in SAMPLES] + ["prog_%s.cpp" % s for s in SAMPLES]
CHECKS.update({
    "C40": C("c40.cpp", model=True, require="applications models misfits_rejected one_model_rejected forwards backwards gradients dropouts interleavings mode_switches later_applications".split()),
})
CHECKS.update({
    "C41": C("c41.cpp", model=True, variants=["cov"], omp=[1], require=["phases", "histories", "losses", "optimizers", "loaders", "tensors", "images", "models", "trainings", "layer_Linear", "layer_Convolution", "layer_BatchNorm2D"]),
})
CHECKS.update({
    "C42": C("c42.cpp", model=True, require="bad_labels_forward bad_labels_backward valid_losses optimizer_rejections optimizer_added optimizer_replaced-larger optimizer_steps_after loader_null loader_batch loader_errors loader_batches dropout_invalid dropout_valid metric_mismatches early_rejected early_passes_after stale_Convolution stale_MaxPooling stale_BatchNorm1D stale_BatchNorm2D stale_rejected stale_passes_after early_recompiled early_models_after empty_placeholders empty_model_arguments empty_models".split()),
})
CHECKS.update({
    "C43": C("c43.cpp", model=True, variants=["tsan", "rel"], omp=[1], require="concurrent_scripts operations random_fills dropouts batches shuffled_batches networks train_steps models_saved shared_reads images rejections results_compared draw_comparisons".split(),
             assumptions=["data races are judged by ThreadSanitizer; codec libraries (libpng, libjpeg) are not instrumented"]),
})
CHECKS.update({
    "C44": C("c44.cpp", model=True, omp=[1, 2], libs=["-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc posix_memalign aligned_alloc".split())], require="attempts refused_requests reported repeated leak_checks layers probes oversized oversized_reported cold_calls model_recompile".split() + ["scenario_" + x for x in "apply-Linear apply-Convolution apply-BatchNorm1D apply-BatchNorm2D apply-Dropout apply-ELU tensor model-describe model-construct model-compile model-forward model-training model-rebuild model-queries loss optimizer loader image file-save file-load file-save-state file-load-state file-save-cfg file-load-cfg file-save-dot layer-Convolution layer-MaxPooling layer-BatchNorm2D".split()]),
})
CHECKS["C44"]["src"].append("oom.cpp")
