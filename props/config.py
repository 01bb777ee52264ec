# Per-property configuration: harness source, case counts per tier and build variant, non-triviality rule.
FUZZ_SECONDS = 120
def q(asan, fast, t_asan=None, t_fast=None):
    return {"quick": {"asan": asan, "fast": fast}, "thorough": {"asan": t_asan or asan * 10, "fast": t_fast or fast * 10}}
CONFIG = {
 "C01": dict(src="c01_addressing.cpp", lib=False, cases=q(60000, 150000),
    rule="random shape (1-wide, skinny, > 65536 elements, zero-sized included), element type, fill path and read path; non-trivial: at least two axes longer than 1, or an empty matrix"),
 "C02": dict(src="c02_values.cpp", lib=False, cases=q(40000, 60000),
    rule="random histories of 1-20 (40) operations over a pool of matrices of four element types against a reference model, all matrices compared after every step; non-trivial: at least three steps including a copy, conversion or move"),
 "C03": dict(src="c03_views.cpp", lib=False, cases=q(120000, 400000),
    rule="random parent, block (nested up to 4 deep, slices, empty blocks), reads and writes, and block requests biased around and far outside the bounds; non-trivial: a non-empty proper block, or a refused request"),
 "C04": dict(src="c04_expressions.cpp", lib=False, parts=8, cases=q(300000, 800000),
    rule="random operator, element types, shapes, operand kinds and expression trees; every expression read by element access, three indices, iteration, construction and assignment, again after named operands changed and freed memory was reused; non-trivial: more than one element, or operands of different shape"),
 "C05": dict(src="c05_assign.cpp", lib=False, parts=4, cases=q(40000, 900000),
    rule="random histories of 1-4 assignments (= += -= *= /=) to a matrix, block or nested block; right-hand sides: scalars, own elements by reference, other matrices/views/temporaries/expressions, and aliasing ones (own overlapping block, transpose, rotation, product, convolution), incl. mismatching shapes; non-trivial: a destination of more than one element or a refused request"),
 "C06": dict(src="c06_products.cpp", lib=False, parts=4, cases=q(250000, 800000),
    rule="random shapes, element types and operand kinds (named, const, temporary, view, const view, lazy expression) for product, dot, transpose, rotation and compositions, including incompatible shapes; non-trivial: inner dimension > 1 with more than one result, both axes > 1, or a refused request"),
 "C07": dict(src="c07_convolve.cpp", lib=False, parts=4, cases=q(300000, 800000),
    rule="random image, filter, stride, element type and operand kind, including filters larger than the image and strides beyond it; non-trivial: filter of more than one element smaller than the image, or a refused request"),
 "C08": dict(src="c08_reductions.cpp", lib=False, parts=4, cases=q(80000, 200000),
    rule="random shape, element type, operand kind, with ties, all-negative data and near-equal pairs; non-trivial: more than one element or a differing pair"),
 "C09": dict(src="c09_kernel_forward.cpp", cases=q(50000, 250000),
    rule="random filter size, channels, filter count, stride, parameters and 1-3 inputs, compared with a naive six-loop reference; mismatched channels and undersized inputs; non-trivial: filter and output of more than one element, or a refused input"),
 "C10": dict(src="c10_kernel_grad.cpp", cases=q(40000, 200000),
    rule="random unit-stride layer, 1-3 inputs and output gradients in any batch slot, gradients compared with a naive reference and with exact differences of the layer's own output; non-trivial: filter and output gradient of more than one element"),
 "C11": dict(src="c11_pool_forward.cpp", cases=q(200000, 1500000),
    rule="random window, stride, kind, batch slots and 1-4 inputs (ties, all-negative, all-positive, partial coverage, gaps, overlaps) compared with a naive reference; inputs smaller than the window; non-trivial: several outputs and a window of more than one element, or a refused input"),
 "C12": dict(src="c12_pool_grad.cpp", cases=q(200000, 1500000),
    rule="random histories of 2-10 forward/backward passes over 1-4 batch slots with changing shapes; output gradients are distinct powers of two so that every gradient can be traced to the element it was sent to; non-trivial: at least two forward passes, several outputs, a window of more than one element"),
 "C13": dict(src="c13_activation.cpp", cases=q(300000, 2500000),
    rule="random function, shape and values from the whole finite double range; value, range, monotonicity, derivative and backward pass against closed forms; mutated names; non-trivial: more than one element, or a name"),
 "C14": dict(src="c14_connected.cpp", cases=q(120000, 800000),
    rule="random histories of first input, further inputs of the same element count in any shape, inputs of a wrong count and backward passes against a reference; non-trivial: more than one input element"),
 "C15": dict(src="c15_softmax.cpp", cases=q(250000, 2000000),
    rule="random label count, orientation and scores (ties, +-800, 1e300) against the definition, shift invariance, order, gradient for random labels; wrong sizes and labels; non-trivial: more than one score or a refused request"),
 "C16": dict(src="c16_batch.cpp", cases=q(120000, 700000),
    rule="random histories of 2-16 backward passes into slots (re-used, skipped), batch applications, batch size changes and forward passes on a convolution or fully connected layer against a model of pending gradients; non-trivial: at least two backward passes and one non-empty application"),
 "C17": dict(src="c17_inference.cpp", cases=q(25000, 250000),
    rule="random stacks of 1-8 layers (all kinds), input element types and label sets; 1-6 forward passes in random slots, some repeated, compared with applying the layers one by one and with the reference layers; losses for known and unknown labels; non-trivial: more than two layers"),
 "C18": dict(src="c18_backprop.cpp", cases=q(16000, 150000),
    rule="random stacks, inputs, labels, slots; the parameter change of 1-3 successive single-sample updates compared with reference gradients and with finite differences of the library's own forward pass; non-trivial: more than two layers, no activation/pooling kink within rounding"),
 "C19": dict(src="c19_training.cpp", cases=q(1500, 12000),
    rule="random stack, 0-30 samples, batch size, thread count, epochs, learning rate, one or two training runs on the same model; every sample's use, resets, success counts and final parameters compared with sequential reference SGD; non-trivial: more than one sample, no activation/pooling kink within rounding"),
 "C20": dict(src="c20_threads.cpp", cases={"quick": {"tsan": 5000, "fast": 20000}, "thorough": {"tsan": 30000, "fast": 150000}}, fuzz=False, workers=6,
    rule="random stacks with schedule-perturbing pass-through layers (yields, short sleeps) between the real ones and in the data source, fresh or warmed-up models, 2-8 threads; happens-before race detection (ThreadSanitizer) on every run, results compared with one thread; non-trivial: more than one sample per batch", technique_note="ThreadSanitizer as monitor",
    assumptions=["interleavings are those the OS scheduler and the injected delays produce; ThreadSanitizer finds races by happens-before, not only those that strike"]),
 "C28": dict(src="c28_init.cpp", cases=q(60000, 400000),
    rule="random layer sizes and stacks, each freshly initialised, the C library's rand() replaced by uniform or (half of the cases) adversarial sequences - all minimal, all maximal, alternating, nearest to zero weight; shapes, norm and finiteness of parameters, activations, gradients and one update; non-trivial: more than one parameter / more than two layers", assumptions=["initial parameters are drawn with rand(); if the library used another generator, its own draws would be used"]),
 "C27": dict(src="c27_dim.cpp", lib=False, cases=q(600000, 3000000),
    rule="random 2- and 3-component shapes built by every constructor, then compared/added/stepped; non-trivial: the two shapes differ in at least one component or stepping covers more than one position"),
 "C21": dict(src="c21_matrix_text.cpp", lib=False, cases=q(80000, 400000),
    rule="random sequences of 1-5 matrices of 11 element types and any shape (empty included) written to one stream and read back into receivers of any prior content; every prefix of a text; numbers, shapes and characters damaged; arbitrary text; non-trivial: more than one element, an empty matrix in a sequence, or damaged text"),
 "C22": dict(src="c22_layer_text.cpp", cases=q(30000, 250000),
    rule="1-4 random layers of all kinds (fresh, trained, never used) written to one stream and restored into receivers of any other configuration and history; text, parameters, and 1-4 forward/backward/update steps of original and restored layer compared; non-trivial: the receiver was configured differently or the layer has parameters"),
 "C23": dict(src="c23_model_file.cpp", cases=q(9000, 90000),
    rule="random stacks of 0-6 layers of all kinds, six label types and odd labels, used or never used, saved over missing or longer files and loaded into a fresh model; file, labels, layers, parameters and outputs compared; histories of train/save/load/train further; non-trivial: more than one layer"),
 "C24": dict(src="c24_damage.cpp", cases=q(5000, 25000),
    rule="files of random models cut at (all of, or a sample with every line end and the last 40) their prefixes; headers, keywords, settings, shapes, stored numbers and numeric labels damaged; edited and arbitrary text; saves with the disk full after n bytes (file size limit) and to unwritable paths; non-trivial: every damaged file or failed save", assumptions=["write failures are injected with RLIMIT_FSIZE, /dev/full, missing directories and directories"]),
 "C25": dict(src="c25_reader.cpp", cases=q(20000, 200000),
    rule="random image/label files (0-300 images, 1x1 to 30x30, any bytes), histories of 1-30 sequential, random, to-the-end and out-of-range reads; both files cut anywhere; sparse files of up to 8 GB; non-trivial: several images read, or a file cut short"),
 "C26": dict(src="c26_print.cpp", lib=False, cases=q(200000, 1500000), fuzz=False,
    rule="random matrices, views and expressions of seven element types (extreme integers, rounding reals) printed to streams with random precision and format, the text parsed back cell by cell, standard output captured; random images (grey, colour, constant, out-of-range) rendered, cells parsed and levels compared pairwise; non-trivial: more than one element"),
 "C29": dict(src="c29_program.cpp", cases={"quick": {"tsan": 240, "fast": 1200}, "thorough": {"tsan": 2400, "fast": 12000}}, fuzz=False, workers=6, has_gen=True,
    rule="the program (src/main.cpp) run on random dataset files (2-130, or thousands of training images; 1-60 test images of 12x12 to 20x20), with and without a model name, under ThreadSanitizer and without; reported accuracy recomputed from the model file it saved; the data source it trains on compared with the file; non-trivial: a saved model and several test images", technique_note="ThreadSanitizer as monitor",
    assumptions=["random initialisation is seeded by the clock, so runs differ", "DATA_DIR is a scratch directory"]),
 "C30": dict(src="c30_failures.cpp", cases={"quick": {"tsan": 2000, "asan": 1500, "fast": 10000}, "thorough": {"tsan": 30000, "asan": 30000, "fast": 150000}}, fuzz=False, workers=6,
    rule="random stacks, 1-80 samples of which none, one or several cannot be processed (unknown label, image of another shape, data source throwing a std or non-std exception) from a random epoch on; batch sizes, 1-12 threads; exception, parameters, later prediction and later training compared with sequential reference SGD; non-trivial: a failure, no activation/pooling kink within rounding", technique_note="ThreadSanitizer as monitor",
    assumptions=["interleavings are those the OS scheduler and the data source's delays produce"]),
 "C31": dict(src="c31_build.cpp", cases=q(12000, 60000),
    rule="random histories of 1-60 steps over 1-4 models (three input/label type pairs): adding layers of all kinds, setting labels, editing one layer's parameters, saving and loading, going on building; after each step every model's layers, kinds, names, identity, parameters and labels compared with a list, every layer's behaviour probed when added, loaded and at the end; non-trivial: more than one layer added"),
 "C32": dict(src="c32_dataset.cpp", cases=q(3000, 12000), fuzz=False,
    rule="small image/label file pairs with one fault (wrong magic number in either, different counts, header cut short, file missing, exchanged or a directory) or none, opened in a child process; non-trivial: a fault", assumptions=["a failed assertion that stops the program counts as a refusal, as in the project's own build, which keeps assertions"]),
 "C33": dict(src="c33_fields.cpp", lib=False, cases=q(100000, 500000),
    rule="1-8 labelled values of seven types (extremes included) and bare keywords written and read back in order, some skipped or looked at; lines with a wrong or cut label, a missing, mistyped or overflowing value or further text; non-trivial: more than one field or line, or a damaged one"),
 "C34": dict(src="c34_independent.cpp", technique="property-based testing: generated concurrent histories, differential against the same work done alone, with shrinking; ThreadSanitizer as monitor", cases={"quick": {"tsan": 6000, "fast": 30000}, "thorough": {"tsan": 60000, "fast": 300000}}, fuzz=False, workers=6,
    rule="2-6 threads, each with work of its own (matrix operations, a layer, a model with files, a dataset reader, labelled fields, refused requests included) run 1-4 times over, released together; or reading the same two matrices; ThreadSanitizer on every run, every result compared bit by bit with the same work done alone; non-trivial: every case", technique_note="ThreadSanitizer as monitor",
    assumptions=["interleavings are those the OS scheduler produces; ThreadSanitizer finds races by happens-before, not only those that strike", "training loops, which print their progress on standard output, and random initial parameters are outside"]),
 "C35": dict(src="c35_resources.cpp", technique="property-based testing: generated repeated histories, resource counts compared between repetitions (metamorphic), with shrinking", cases=q(6000, 40000), fuzz=False,
    rule="1-3 pieces of work (matrix operations, a layer, a model with files, a reader, labelled fields, training with 1-5 threads, failures included) repeated from scratch; or 12-26 identical rounds with one model, layer, matrix or reader; bytes and blocks obtained with operator new, open files, directory entries and running threads compared before and after; non-trivial: more than one layer or operation, or any repeated work",
    assumptions=["memory is counted at operator new/delete; the first run (round 6 for a kept object) may fill caches, later identical ones may not take more"]),
}
