#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
MM='include/cnn_from_scratch/Matrix/MatrixMath.h'; SMH='include/cnn_from_scratch/Matrix/SimpleMatrix.h'; SMT='src/SimpleMatrix.tpp'
SVH='include/cnn_from_scratch/Matrix/SubMatrixView.h'; SVT='src/SubMatrixView.tpp'; IT='include/cnn_from_scratch/Matrix/MatrixIterator.h'
DIM='include/cnn_from_scratch/Matrix/dim.h'; MD='src/ModelDescription.tpp'; MDH='include/cnn_from_scratch/ModelDescription.h'
SER='include/cnn_from_scratch/Serialization.h'
L=lambda n:'src/Layers/%s.cpp'%n
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every way of addressing a matrix element agrees, for every shape",
 "A matrix of shape (rows, columns, channels) maps each position to one value, and every way of reading or writing it - three indices, a shape-typed index, the flat column-major position, iteration together with the position the iterator reports - refers to the same element, each element being visited exactly once and in storage order. Entry lists are taken row by row within each channel, raw vector assignment is taken in flat storage order, and a list of the wrong length is rejected with the size-mismatch exception leaving the matrix unchanged. Matrices with a zero dimension hold no elements and iterate zero times.",
 ["inputs"],"every element type used (bytes, ints, float, double), every shape including 1-wide, zero-sized and > 65536 elements, every position and every access path",
 "The tests look at a few cube-ish shapes up to 5x5x2 (mostly square) with int/float; a transposed stride, a dropped channel or a width-dependent truncation is invisible there.",
 [SMH,SMT,IT,DIM],[("getIndex / operator() / operator[]",SMT),("MatrixIterator / DimIterator stepping",IT),("setEntries, operator=(vector)",SMT)],
 [("dim_, values_","shape and column-major storage",SMH)])
p("C02","Matrices are values: copy, move, convert, reshape and resize histories",
 "Under any sequence of copying, moving, element-type conversion, assignment, reshaping, resizing and writing, every live matrix holds exactly the value an abstract model predicts: copies never share storage, conversion casts each element, the source of a move becomes empty while the target has the old value. Reshape keeps the storage order and is refused (with the transform exception, without effect) when the element count would change; resize keeps the storage-order prefix and zero-fills what is new.",
 ["histories","inputs"],"every sequence of these operations over a pool of matrices of several element types and shapes",
 "Existing tests do one copy, one move or one conversion of one fixed 3x3x2 matrix; no test calls reshape or resize, and none checks that objects stay independent over a history.",
 [SMH,SMT,DIM],[("constructors and assignment operators",SMT),("reshape / resize",SMT),("Dim move constructor zeroing its source",DIM)])
p("C03","A view is exactly its block of the parent matrix",
 "A sub-matrix view, slice or nested view of any in-range block reads and writes exactly the elements of that block of the parent - writes through it are seen in the parent and nothing outside the block changes - and copying a block gives the same values as viewing it. Requesting a block that is not wholly inside the parent (or inside the enclosing view), including negative starts, is refused with the size exception, and bounds-checked access refuses every index outside the view. Assigning a differently shaped matrix to a view is refused without effect.",
 ["inputs","histories"],"every parent shape, block start and size (valid or not), nesting depth, element type, constness, and sequence of view writes",
 "The tests use four hand-picked in-range views; nested views, slices, checked access and every rejection path are never run.",
 [SVH,SVT,SMT,IT],[("SubMatrixView constructors' bounds check",SVH),("start_ offset in operator()",SVT),("at()",SVT),("checkSize on assignment",MM)])
p("C04","Lazy element-wise expressions equal per-element scalar arithmetic",
 "Any expression built from matrices, views, temporaries and scalars with + - * / and the comparisons, with scalars on either side, and with the element-wise functions (absolute value, exponential, user-supplied function), denotes at each position the ordinary scalar expression on the elements there, in the common element type of the operands. The expression stays valid after temporaries it was built from are gone, reflects operand values at evaluation time, and leaves its operands unchanged. Combining operands of different shape is refused with the size exception.",
 ["programs","inputs"],"every expression shape (operand kinds: named, temporary, const, view, sub-expression, scalar left/right), element type mix, matrix shape and values",
 "Tests evaluate seven fixed expressions on 2x2 and 3x3 floats; comparisons, scalar-on-the-left operators, exp/abs/apply and mismatch rejection are untested.",
 [MM],[("ElementWiseMatrixOperationResult, ScalarOperationResult, UnaryOperationResult",MM),("MatrixStorageType keeps temporaries by value",MM),("checkSize",MM)])
p("C05","Assignments and in-place updates use the right-hand side's old values",
 "Plain and compound assignment (= += -= *= /=) to a matrix or view of a scalar, matrix, view or expression produces, at each position, the operation applied to the destination's old value and the right-hand side as it was before the statement, even when the right-hand side refers to the destination (its own transpose, a sub-block of itself, an overlapping view, one of its own elements). Elements outside the destination are untouched. Shape mismatches are refused with the size exception and change nothing.",
 ["inputs","histories"],"every destination kind, operator, right-hand-side kind incl. aliasing ones, shape and values",
 "Tests cover += and -= with non-aliasing operands on one 3x3 matrix; *= and /= and every self-referencing right-hand side are never executed.",
 [MM,SMT,SVT],[("compound assignment operators",MM),("SimpleMatrix::operator=(matrix-like)",SMT),("SubMatrixView::operator=",SVT)])
p("C06","Matrix product, dot product, transpose and rotation are mathematically exact",
 "The product of an (n,k,c) and a (k,m,c) operand has shape (n,m,c) and each entry is the sum over k of row times column, channel by channel; the dot product of two equally long vectors of any orientation is the sum of products in their common type; transposition swaps the first two indices of every channel; rotation by one to three quarter turns permutes elements as that rotation does (half turns for any rectangle, quarter turns only for squares). Results are the same for named, temporary, view and expression operands. Incompatible shapes are refused with the library's size (or, for rotation, transform) exception.",
 ["inputs","programs"],"all compatible and incompatible shape pairs, channel counts, element types, operand kinds and values",
 "Tests multiply two single-channel products and transpose two matrices; multi-channel products, dot, rotate, and temporaries are never checked.",
 [MM],[("matrixMultiply / GeneralMatrixOperationResult",MM),("dot",MM),("transpose",MM),("rotate",MM)])
p("C07","Convolution is the valid strided cross-correlation",
 "Convolving an image with a filter and a stride yields ceil((image-filter+1)/stride) positions per axis, each being the sum over the filter of filter value times the image value at that offset from position*stride, for any image, filter and stride of any aspect ratio. It never reads outside either operand, and a filter larger than the image is refused with the size exception.",
 ["inputs"],"every image/filter shape, independent x/y strides, operand kinds, values",
 "No test calls convolution directly; the kernel tests reach it with 4x4 images, 3x3 filters, stride 1 only.",
 [MM],[("convolve",MM)])
p("C08","Reductions and equality agree with their definitions on all matrix kinds",
 "Sum, mean, minimum, maximum, index of the minimum and maximum (first in storage order, as a position and as a flat index) and Euclidean norm of a matrix, view or expression equal those of the listed elements, for signed, unsigned and floating element types whenever the result is representable in the element type (an integer mean is truncated towards zero). Exact equality holds if and only if shapes and all elements agree; tolerance equality holds if and only if shapes agree and every element differs by at most the tolerance; NaN equals nothing.",
 ["inputs"],"every shape, element type, operand kind and value pattern incl. ties, negatives and single differing element anywhere",
 "Reductions have no direct tests; equality is used by tests only in the positive direction.",
 [MM,SMT],[("sum, mean, max, min, minIndex, maxIndex, l2Norm, matrixEqual",MM),("SimpleMatrix::minIndex/maxIndex",SMT)])
p("C09","Convolution layer output matches its definition for every configuration",
 "For any filter size, channel count, number of filters, stride, weights, biases and input at least as large as the filter, output channel f is the sum over input channels of the valid cross-correlation with filter f's slice for that channel, plus bias f, and the predicted output shape is the actual one. An input with the wrong number of channels or smaller than the filter is refused with the layer exception. The layer's parameters are unchanged.",
 ["inputs","configurations"],"all filter/input aspect ratios, channel and filter counts, strides, parameter and input values",
 "Three 4x4 examples with 3x3 filters; never both several channels and several filters, never non-square, never rejection.",
 ["src/Layers/Kernel.cpp","include/cnn_from_scratch/Layers/Kernel.h",MM],[("Kernel::propagateForward, outputSize, checkSize",L("Kernel"))])
p("C10","Convolution layer gradients are the exact derivatives",
 "For any unit-stride convolution layer, input (square or not) and output gradient, the returned weight, bias and input gradients are the exact partial derivatives of the inner product of that gradient with the layer's output; they do not depend on earlier calls and do not change the parameters. The first layer may skip the input gradient by returning an empty matrix.",
 ["inputs","configurations","histories"],"all layer configurations, inputs, output gradients and call histories",
 "One single-channel single-filter square example for weights and input; the bias gradient test asserts nothing.",
 ["src/Layers/Kernel.cpp",MM],[("Kernel::getdLdW/getdLdX/getdLdB, padInput, rotate<2>",L("Kernel"))])
p("C11","Pooling selects or averages exactly each window",
 "For any window, stride, pooling kind and input at least as large as the window, the output has floor((input-window)/stride)+1 positions per axis and the same channels, and each value is the maximum, minimum or arithmetic mean of its window of the input. Results do not depend on the batch slot or on earlier inputs, and an input smaller than the window is refused with an exception.",
 ["inputs","configurations","histories"],"all window/stride/input aspect ratios, kinds, channel counts, batch slots, call orders",
 "Three 4x4 inputs with 2x2 windows; never non-square windows, unequal strides, partial coverage or multiple slots.",
 ["src/Layers/Pooling.cpp"],[("Pooling::propagateForward/outputSize",L("Pooling"))],[("affected_indices_","winning positions per batch slot","include/cnn_from_scratch/Layers/Pooling.h")])
p("C12","Pooling routes gradients to the elements that produced each output",
 "Backpropagation through pooling adds each output gradient to exactly one input element attaining its window's maximum or minimum (or spreads it equally over the window for averaging), summing where windows overlap and giving zero elsewhere. Each batch slot uses the winners of the last input forwarded in that slot, whatever was forwarded or backpropagated in other slots or earlier.",
 ["inputs","histories","configurations"],"all interleavings of forward and backward over batch slots, shapes changing between calls, ties, overlapping windows",
 "No test runs pooling backward at all.",
 ["src/Layers/Pooling.cpp"],[("affected_indices_ per batch slot; Pooling::getdLdX",L("Pooling"))])
p("C13","Activation layers compute their function and its true derivative",
 "ReLU, leaky ReLU (slope 0.1), sigmoid, tanh and linear layers apply their function to every element for all real inputs including extreme ones (finite, in range, monotone), and backpropagation multiplies the incoming gradient element-wise by the derivative of that function at the layer's input. Names and enumerators convert back and forth and unknown names are refused.",
 ["inputs","configurations"],"all five functions, all finite doubles, all shapes",
 "Tests sample 25 values in [-1,1] and never call the backward pass.",
 ["src/Layers/Activation.cpp","include/cnn_from_scratch/Layers/Activation.h"],[("activation and gradient function tables",L("Activation")),("Activation::propagateBackward",L("Activation"))])
p("C14","Fully connected layer computes W*flatten(x)+b and its exact gradients",
 "For any number of outputs and any input shape, the layer's output is weights times the input flattened in storage order plus biases, as a column; weight, bias and input gradients are the exact derivatives, the input gradient having the shape of the input. The layer sizes itself on its first input and from then on refuses inputs with a different element count with the layer exception without changing its parameters.",
 ["inputs","histories","configurations"],"all input shapes, output counts, parameter values, sequences of inputs of right and wrong size",
 "No test touches the fully connected layer.",
 ["src/Layers/ConnectedLayer.cpp"],[("ConnectedLayer::checkSize/propagateForward/getdLd*",L("ConnectedLayer"))],[("initialized_, input_dim_","first-input capture","include/cnn_from_scratch/Layers/ConnectedLayer.h")])
p("C15","Softmax is a stable probability distribution with gradient p - onehot",
 "For any finite score vector of the expected length, row or column, the softmax output is finite, non-negative, sums to one, equals exp(x_i)/sum exp(x_j), is unchanged by adding a constant to all scores, and preserves the scores' order, even for scores of magnitude 1e300. Its gradient for a true label is the output minus one at that label. Wrong-sized inputs, out-of-range labels, and asking for a gradient before any label was given are refused with an exception.",
 ["inputs"],"all label counts, orientations, finite scores including huge and tied ones, all labels",
 "No test touches softmax.",
 ["src/Layers/Softmax.cpp"],[("max subtraction in softMax",L("Softmax")),("checkSize, assignTrueLabel",L("Softmax"))])
p("C16","A batch update applies the mean of exactly that batch's gradients",
 "Applying a batch with learning rate r changes every weight and bias by minus r times the mean of the gradients backpropagated since the previous application, each sample counted once whatever slots were used and in whatever order, and re-using a slot replaces its contribution. Slots not used in this batch contribute nothing - neither stale gradients of an earlier batch nor an error - and a batch with no samples changes nothing. Setting the batch size discards gradients not yet applied. Parameters change at no other time.",
 ["histories","inputs"],"all histories of setting the batch size, backpropagating into slots, and applying, with full, partial and empty batches",
 "No test ever applies a batch.",
 ["src/Layers/Kernel.cpp","src/Layers/ConnectedLayer.cpp"],[("applyBatch / setBatchSize",L("Kernel")),("applyBatch / setBatchSize",L("ConnectedLayer"))],[("weight_gradients_, bias_gradients_","per-slot gradients","include/cnn_from_scratch/Layers/Kernel.h")])
p("C17","Inference is the composition of the layers and is free of side effects",
 "For any stack of layers and input, the model's forward pass equals applying the layers in the order added, the recorded per-layer inputs are those intermediate values, the predicted index is the first maximum of the output and the confidence is its value. Once the model has seen one input, repeating a forward pass - with any inputs in between, in any batch slot - gives bit-identical results and leaves parameters and the caller's input unchanged. The loss assigned for a label is max(0, -log2(p+1e-5)) of the probability given to that label, and an unknown label is refused.",
 ["programs","inputs","histories"],"all layer stacks, input types and shapes, label sets, sequences of forward passes",
 "Tests never run a model of more than one layer and never call the forward pass of a model.",
 [MD,MDH],[("forwardPropagation, lossFcn, assignLoss",MD)])
p("C18","Model backpropagation yields the true gradient of the loss",
 "For any stack of layers ending in softmax, any input and label, one backward pass followed by applying the batch moves every parameter by minus the learning rate times the partial derivative of the natural-log cross-entropy loss with respect to that parameter, as measured independently (finite differences or a reference implementation), up to single-precision rounding of the recorded activations.",
 ["programs","inputs"],"all layer stacks (incl. every activation and pooling kind, non-square images), inputs, labels",
 "Tests check only one kernel gradient in isolation; nothing checks that the layers' gradients compose.",
 [MD]+[L(n) for n in ("Kernel","Pooling","Activation","ConnectedLayer","Softmax")],[("backwardsPropagation and the layers' propagateBackward",MD)])
p("C19","Training is mini-batch SGD over every sample once per epoch, in order",
 "For any data source, batch size, thread count and number of epochs, each epoch consumes every available sample exactly once, groups them into consecutive batches (the last possibly smaller), updates once per batch with the mean gradient of that batch's samples, resets the source after each epoch, and ends with the parameters of sequential reference SGD up to rounding. The epoch result is the number of samples the model classified correctly at the time they were processed.",
 ["configurations","inputs","histories"],"all dataset sizes relative to batch size (smaller, multiple, remainder), thread counts (more or fewer than samples), epochs, models",
 "No test trains anything.",
 [MD,L("Kernel"),L("ConnectedLayer")],[("runEpoch work split and batch loop",MD),("train",MD),("applyBatch",L("Kernel"))])
p("C20","Multi-threaded training and inference are free of data races",
 "Training with any number of threads under any interleaving - including the very first batch on a model that has never seen an input - uses each sample with its own label, gives the same parameters and success count as one thread up to summation rounding, and contains no data race, deadlock or crash. Concurrent forward passes in distinct batch slots are likewise race-free and give the same results as sequential ones.",
 ["schedules","configurations"],"all interleavings of worker threads, thread counts, batch sizes, models fresh or warmed-up",
 "Data races need particular interleavings; no test starts a thread.",
 [MD,L("Softmax"),L("ConnectedLayer"),L("Pooling")],[("per-slot state in layers; data mutex",MD),("ConnectedLayer lazy initialisation",L("ConnectedLayer")),("true label hand-over to the output layer",MD)])
p("C21","A matrix written as text reads back as the same matrix",
 "Serialising any matrix of a numeric type (finite values, any shape including empty) and deserialising it reproduces the shape exactly, integers exactly and reals to within the six decimals stored, consumes exactly its own text so that consecutive objects in one stream all read back, and reports success. Text that is truncated, non-numeric where a number is needed (or negative for an unsigned type), has other text after the numbers of a row, or has negative or absurd dimensions is reported as failure (or by an exception) without touching memory out of bounds.",
 ["inputs"],"all shapes, value magnitudes, element types, sequences of matrices in one stream, all truncation points",
 "No test serialises anything.",
 [SMT,SER],[("SimpleMatrix::serialize / deserialize",SMT),("clearLine",SER)])
p("C22","A layer restored from text behaves like the layer that was written",
 "For every kind of layer and configuration, restoring a layer from its serialised text - whatever configuration the receiving layer had before - makes forward passes, gradients and updates of the restored layer match the original's up to the six decimals stored, restores convolution stride, pooling kind, window and stride, and activation function, and re-serialises to the same text. Consecutive layers in one stream all restore. (The output layer's size is that of the label list, not part of its text.)",
 ["inputs","configurations","histories"],"all layer kinds, configurations, parameter values, prior states of the receiver, and use (inference, training) after restoring",
 "No test serialises a layer.",
 [L("Kernel"),L("Pooling"),L("Activation"),L("ConnectedLayer"),SER],[("serialize/deserialize of each layer",L("Kernel")),("place / expect",SER)])
p("C23","A saved model loads back as an equivalent model",
 "Saving any model built with the layer-adding interface and loading the file into a fresh model reproduces the layer sequence, kinds, settings, labels (including labels containing spaces) and parameters to the six decimals stored, so predictions agree to that precision; saving the loaded model again produces an identical file. The loaded model can be trained further and then behaves as the original trained with the same data; models that never saw an input can be saved and loaded too.",
 ["programs","inputs","histories"],"all layer stacks, label sets and types, save/load/train histories",
 "No test saves or loads a model.",
 [MD]+[L(n) for n in ("Kernel","Pooling","Activation","ConnectedLayer","Softmax")],[("saveModel / loadModel",MD)])
p("C24","Damaged model files and I/O failures are reported, never misread",
 "Loading a file that is missing, truncated at any point before its last label line is complete, or has a section header, keyword or number that no longer parses, or a window or stride below one, or declared dimensions that contradict the stored matrices, or fewer or more labels than announced, is reported by a false result or an exception; whatever the bytes, loading never accesses memory out of bounds or loops forever. Saving returns false when the path cannot be written or writing fails part-way.",
 ["crash_points","fault_sequences","inputs"],"all prefixes of all model files (every crash point of a save), random corruptions of them, arbitrary bytes, unwritable destinations",
 "No test loads a model; crash points of a save cannot be enumerated by examples.",
 [MD,SER,SMT],[("loadModel, saveModel status",MD),("expect",SER),("deserialize failure propagation",SMT)])
p("C25","The dataset reader returns exactly the images and labels in the files",
 "For any well-formed image/label file pair, the reader reports the file's image count, and each image read sequentially or by index in any order has the file's height and width, pixel (row, col) equal to (byte-128)/255 of that pixel in row-by-row order, and the matching label byte, with the running index advancing by one. Reading past the last image is refused with an exception after which valid indices still work, and if the files are shorter than announced the missing images are refused rather than invented.",
 ["inputs","histories","fault_sequences"],"all image sizes, counts, contents, sequences of sequential/random/out-of-range reads, all truncation lengths",
 "The repository has no test for the reader.",
 ["src/MNISTReader.cpp","include/cnn_from_scratch/MNISTReader.h"],[("getImage / nextImage / read",'src/MNISTReader.cpp')],[("current_index_, stream positions","read cursor","include/cnn_from_scratch/MNISTReader.h")])
p("C26","Printing shows every value in its place and leaves streams as found",
 "Printing a matrix to any output stream writes, row by row and channel after channel, every element's sign and magnitude (reals with two decimals) in its place, to that stream only, and leaves the stream's precision and number format as it found them. Rendering an image emits one cell per pixel, row by row, whose grey level (or colour level) is in 0..255 and grows with the pixel value (levels saturate at 255 for integers, and at 0 in colour images), for every image including constant ones. The progress bar fills in proportion to the work done and leaves the format of standard output as it found it.",
 ["inputs"],"all shapes, values, element types and target streams",
 "No test prints anything.",
 [SMH,"include/cnn_from_scratch/imageUtil.h","include/cnn_from_scratch/LoadingBar.h"],[("operator<< for matrices",SMH),("printImage*","include/cnn_from_scratch/imageUtil.h"),("loadingBar","include/cnn_from_scratch/LoadingBar.h")])
p("C27","Shape arithmetic and index stepping are exact",
 "Two- and three-component shapes compare equal exactly when all their components are equal, add and subtract component-wise, report the product of components as size, map an index to its flat position with the first component fastest, and print as a parenthesised list. Stepping an index through a shape enumerates every position exactly once in that order and then reaches the one-past-the-end position.",
 ["inputs"],"all shapes and indices of two and three components, however constructed or copied or moved",
 "Tests use shapes only as arguments; equality, size, stepping of two-component shapes are never checked.",
 [DIM],[("Dim<N> operators, DimIterator",DIM)])
p("C28","Freshly initialised layers have finite, normalised parameters",
 "Every newly constructed convolution layer, and every fully connected layer on its first input, has weights and biases of the documented shapes, all finite, each group with Euclidean norm one, and a model can immediately run forward and backward with them without producing non-finite values.",
 ["configurations"],"all layer sizes, every random initialisation",
 "Tests always overwrite the random weights, and initialisation is seeded by the clock.",
 [L("Kernel"),L("ConnectedLayer")],[("random initialisation and l2Norm normalisation",L("Kernel"))])
p("C29","The training program reports and saves what it actually computed",
 "Given any well-formed training and test files (images of at least 12x12 pixels, labels 0 to 9), the training program runs to completion without data races, trains on the training file, reports for the test file the accuracy that the final model really achieves on it, and - when given a name - writes a model file which loads back to a model with those predictions; the sample images it shows are test images with their true label and the model's prediction, whatever random numbers it draws.",
 ["inputs","schedules","configurations"],"all dataset sizes and contents, thread interleavings",
 "The program needs dataset files that are not in the repository, so no test runs it.",
 ["src/main.cpp",MD,"src/MNISTReader.cpp"],[("validate, MNistGenerator, main","src/main.cpp")])
p("C30","Training ends with the error of a sample it cannot process, leaving the model usable",
 "When a sample cannot be processed - its label is not one of the model's, its image does not fit the layers, or the data source throws any object - training ends in the caller with an exception of that batch (the very object the source threw, if it was the only failure), whatever the thread count: the program is neither terminated nor stuck, and training never goes on past the failure. The parameters are then those after the complete batches before the failing one, no part of which is applied; predictions agree with these parameters, and training again behaves as if started from them.",
 ["fault_sequences","schedules","histories"],"all positions and kinds of unusable samples, one or several at a time, batch sizes, thread counts, epochs",
 "No test trains anything, and the failure happens inside worker threads.",
 [MD,"src/Layers/Kernel.cpp","src/Layers/ConnectedLayer.cpp"],[("runEpoch worker threads",MD),("train",MD),("setBatchSize / applyBatch",L("Kernel")),("setBatchSize / applyBatch",L("ConnectedLayer"))])
p("C31","A model consists of exactly the layers added to it, as configured",
 "Adding a convolution, pooling, activation or fully connected layer appends exactly one layer, which is the one returned and which behaves as configured (filter size, count and unit stride; window, stride and kind; function; number of outputs), named Kernel_k, Pooling_k, Activation_k or FullyConnected_k with k counting that kind within this model from 1; setting the output labels stores them and, for softmax, appends an output layer named SoftmaxOutput for that many labels. Nothing already in this or another model changes, and no two layers share parameters. A model loaded from a file has the same layers under the same names, and layers added to it later continue the counts.",
 ["programs","histories"],"all sequences of layer additions, parameter edits, saves and loads over several models",
 "Tests build no model.",
 [MD,MDH,"src/Layers/Kernel.cpp","src/Layers/Pooling.cpp","src/Layers/Activation.cpp","src/Layers/ConnectedLayer.cpp"],[("addKernel, addPooling, addConnectedLayer, addActivation, setOutputLabels",MD),("loadModel",MD)])
p("C32","Files that are not a matching image/label pair are refused",
 "Opening a pair of dataset files of which one is missing, is a directory, ends within its header, or does not start with its magic number (2051 for images, 2049 for labels; so exchanged files too), or which announce different numbers of images and labels, is refused - by an exception or by stopping the program - and never goes on to deliver images. A matching pair is accepted. The files are never changed.",
 ["inputs","fault_sequences"],"all magic numbers, counts, header lengths, file exchanges and missing files",
 "The repository has no test for the reader.",
 ["src/MNISTReader.cpp","include/cnn_from_scratch/MNISTReader.h"],[("MNISTReader constructor","src/MNISTReader.cpp"),("read","src/MNISTReader.cpp")])
p("C33","Labelled fields read back as written and refuse anything else",
 "A number placed under a label in a stream and then expected under that label is returned unchanged (integers of any size exactly, reals to the stream's precision), with exactly that line consumed; so is a bare keyword. Expecting another label, a label cut short, a value that is missing, does not parse, is out of the type's range (negative ones for unsigned types included) or is followed by other text on the line throws. Looking at the next line leaves the stream as it was, skipping or finishing a line consumes exactly its rest and line end, and finishing reports whether only blanks were left.",
 ["inputs","histories"],"all labels, numeric types and values, orders of fields, damages of a line",
 "No test reads or writes a field.",
 [SER],[("place / expect / readLine / clearLine / finishLine",SER)])
p("C34","Independent objects can be used from different threads",
 "Matrices, layers, models, dataset readers and labelled-field streams that share nothing can be used from different threads at the same time, and the same matrix can be read (elements, views, expressions, text) by any number of threads: no data race, and every result, file, text and exception message is exactly what the same work gives when it runs alone. (The training loop's progress on standard output and random initial parameters are excluded.)",
 ["schedules","histories"],"all combinations of work on independent objects, numbers of threads, interleavings",
 "No test starts a thread; hidden shared state only shows when two objects are in use at once.",
 ["include/cnn_from_scratch/Matrix/MatrixMath.h","include/cnn_from_scratch/Matrix/SimpleMatrix.h",SMT,SER,MD,"src/MNISTReader.cpp","src/Layers/Kernel.cpp","src/Layers/Pooling.cpp","src/Layers/Activation.cpp","src/Layers/ConnectedLayer.cpp","src/Layers/Softmax.cpp"],[("operations keep their state in their operands and results","include/cnn_from_scratch/Matrix/MatrixMath.h"),("layers keep their state in the object","src/Layers/Kernel.cpp"),("MNISTReader::nextImage","src/MNISTReader.cpp")])
p("C35","Work gives back the memory, files and threads it took",
 "Once the objects of a piece of work are gone - matrix operations, layers, models saved and loaded, dataset readers, training with any number of threads, also when requests are refused, files are damaged or training fails - no memory remains allocated, no file is left open or lying about, and no thread keeps running. Repeating the same work with the same model, layer, matrix or reader does not make it occupy more memory with every round.",
 ["histories","configurations"],"all pieces of work and numbers of repetitions",
 "A leak shows in no test's result; growth needs many rounds.",
 [MD,SMT,"src/MNISTReader.cpp","include/cnn_from_scratch/MNISTReader.h","src/Layers/Kernel.cpp","src/Layers/Pooling.cpp","src/Layers/ConnectedLayer.cpp"],[("runEpoch, saveModel, loadModel",MD),("per-slot state",L("Pooling")),("MNISTReader streams","src/MNISTReader.cpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
