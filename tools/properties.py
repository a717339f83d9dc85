#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, L = "include/cnn_from_scratch/Matrix/", "src/Layers/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), note=note))
prop("C01", "A matrix stores each element independently, in one storage order",
     "A matrix of a given size holds exactly one element per coordinate; writing one coordinate through any access form changes that element only and every access form (coordinates, size triple, flat index) reads back the value written. The flat order has the first coordinate fastest, then the second, then the layer. Filling from a list assigns layer by layer, row by row, accepts only lists of exactly the right length, and a matrix constructed without values is zero or the given initial value everywhere.",
     ["inputs", "configurations"], "every matrix size, coordinate, element value and list length",
     "The tests read a few hand-picked entries of small matrices; a wrong stride for non-square or multi-layer shapes, or two coordinates sharing a cell, shows only at shapes and coordinates they do not sample.",
     [M + "SimpleMatrix.h", "src/SimpleMatrix.tpp", M + "MatrixBase.h"], [("flat index of a coordinate", M + "MatrixBase.h"), ("element access and list assignment", "src/SimpleMatrix.tpp")], ["element reads through each access form", "exceptions on wrong list length"],
     "Sizes are case-split, element values are solver variables.")
prop("C02", "Iteration visits every element exactly once, in storage order",
     "Walking a matrix, a sub-matrix view or a lazily evaluated expression from begin to end visits every coordinate of it exactly once, first coordinate fastest, yields the value of that coordinate, and then stops; an object with a zero dimension is visited not at all, and an iterator placed on any coordinate continues from there. Standard algorithms over these ranges therefore see every element, and writing through a mutable iterator changes exactly the element it stands on.",
     ["inputs", "configurations"], "every shape including empty ones, every sub-region, every element value",
     "Tests iterate one or two shapes; off-by-one errors at the end of a row, layer or view depend on the shape and offset.",
     [M + "MatrixIterator.h", M + "dim.h", M + "SubMatrixView.h"], [("iterator increment and end", M + "MatrixIterator.h"), ("coordinate increment", M + "dim.h")], ["sequence of visited values and coordinates"],
     "The number of steps is bounded by the bounded shapes.")
prop("C03", "Views show and modify exactly the region they name, never beyond",
     "A sub-matrix view (region, row, column, layer or slice, also of another view) reads and writes exactly the elements of its region in the underlying matrix and nothing else. Creating a view is rejected exactly when the requested region does not lie completely inside the matrix, checked access is rejected exactly when the index lies outside the view, and assigning a differently sized matrix to a view is rejected and changes nothing.",
     ["inputs", "configurations"], "every start, size and index over all integers (including negative and overflowing ones), every region and value",
     "Only a handful of regions are tried in tests; negative, overflowing or touching-the-edge requests and nested views are not, and out-of-range writes need not fail visibly.",
     [M + "SubMatrixView.h", "src/SubMatrixView.tpp", "src/SimpleMatrix.tpp"], [("region check on construction", "src/SubMatrixView.tpp"), ("translation of view to matrix coordinates", M + "SubMatrixView.h")], ["elements inside and outside the region after reads and writes", "exceptions"],
     "Acceptance is decided with all six region components symbolic over 32-bit integers.")
prop("C04", "Element-wise operations compute the scalar operation at every coordinate",
     "Adding, subtracting, multiplying, dividing or comparing two equally sized matrices, views or expressions, or one with a scalar on either side, gives at every coordinate the scalar operation applied to the operands' elements there, in the precision of their element type; the in-place forms give the same result and change only the left side. Absolute value, exponential and applying a given function act on each element, operands that are temporaries stay valid until the result is evaluated, and operands of different sizes are rejected.",
     ["inputs", "programs"], "every shape, operand value and kind, operator, and nesting of operators",
     "Tests use fixed numbers; swapped operands, a wrong operator for one combination of lvalue/temporary/view, or a dangling operand shows only for particular combinations.",
     [M + "MatrixMath.h"], [("lazy operator results", M + "MatrixMath.h"), ("size checks", M + "MatrixMath.h")], ["elements of evaluated results", "exceptions on mismatch"],
     "Floating point as real numbers; divisors non-zero.")
prop("C05", "Matrices are values: copies are equal and independent",
     "Copying, moving, converting or assigning a matrix from another matrix, view or expression gives a matrix with the source's size and elements, whatever the destination held before; later changes to one do not affect the other. Self-assignment and assigning an expression that reads the destination give the value the expression had before the assignment.",
     ["inputs", "histories"], "every pair of source and destination shapes, element types, values, and order of copies and later writes",
     "Tests copy between few shapes; stale sizes, shared storage or reading already overwritten elements depend on the pair of shapes and on aliasing.",
     [M + "SimpleMatrix.h", "src/SimpleMatrix.tpp"], [("constructors and assignment operators", "src/SimpleMatrix.tpp")], ["sizes and elements of both matrices after each step"],
     "Memory safety of every access is checked on the way.")
prop("C06", "The matrix product is the mathematical one, layer by layer",
     "The product of two matrices whose inner dimensions and layer counts agree has, in each layer, the row count of the left and the column count of the right, and each element is the sum over the inner index of left times right. Operands may be matrices, views, transposes or temporaries with the same result, and operands whose sizes do not agree are rejected. Values keep the precision of the element type.",
     ["inputs", "programs"], "every operand shape, value and operand kind",
     "Tests multiply a few fixed matrices; wrong inner bounds or layer mixing on non-square or layered operands stays invisible.",
     [M + "MatrixMath.h"], [("matrix product", M + "MatrixMath.h")], ["size and elements of the product", "exceptions on mismatch"],
     "Polynomial identities over reals.")
prop("C07", "Transposing and rotating permute the elements as defined",
     "Transposing exchanges the first two coordinates in every layer and twice is the identity. Rotating by k quarter turns moves every element to its rotated position in every layer (half turns for every shape, odd quarter turns for square ones, anything else rejected), so that four quarter turns, or two half turns, give back the original.",
     ["inputs", "programs"], "every shape, value, number of turns, and operand kind including temporaries",
     "Tests rotate one or two matrices; wrong offsets on other sizes, layers or operand kinds are not seen.",
     [M + "MatrixMath.h"], [("transpose and rotate results", M + "MatrixMath.h")], ["elements of the result", "exceptions"],
     "Element values are symbolic, hence the result is a permutation for all values.")
prop("C08", "Convolution slides the filter over every position it fits, at the stride",
     "Convolving a matrix with a filter at a given stride gives one output per position at which the filter fits completely, and each output is the sum of the products of the filter with the elements under it. A filter larger than the matrix is rejected, and no element outside the matrix is ever read. Values keep the precision of the element type.",
     ["inputs", "configurations"], "every matrix size, filter size, stride in each direction, value and operand kind",
     "Tests cover a few size and stride combinations; the output size and last positions depend on divisibility.",
     [M + "MatrixMath.h"], [("convolution and its output size", M + "MatrixMath.h")], ["output size and elements", "exceptions", "memory accesses"],
     "Every access is bounds-checked by the engine.")
prop("C09", "Reductions and comparisons agree with their definitions",
     "Sum, mean, minimum, maximum, their positions, dot product and Euclidean norm of a matrix, view or expression equal their mathematical definitions in the element type; the position of an extremum is the first one in storage order. Dot products are accepted only for two single-layer vectors of equal length, and two matrices compare equal (or close within a tolerance) exactly when their sizes agree and every pair of elements does.",
     ["inputs"], "every shape, ordering, tie, sign and element type",
     "Tests use one fixed matrix each; first or last position, negative values, ties and integer element types are not sampled.",
     [M + "MatrixMath.h", "src/SimpleMatrix.tpp"], [("reductions", M + "MatrixMath.h")], ["returned values and positions", "exceptions"],
     "All orderings and ties of up to six elements.")
prop("C10", "Resizing and reshaping keep elements in storage order",
     "Resizing gives the requested size, keeps the leading elements in storage order and makes new ones zero. Reshaping keeps every element in storage order under the new size, and is rejected, changing nothing, exactly when the number of elements would differ or a size is negative.",
     ["inputs", "configurations"], "every pair of old and new shape and every value",
     "Tests reshape one or two matrices; mismatched storage after other size pairs, or partial effects of a rejected call, are not covered.",
     ["src/SimpleMatrix.tpp"], [("resize and reshape", "src/SimpleMatrix.tpp")], ["size and elements afterwards", "exceptions"],
     "All pairs of shapes within the bound.")
prop("C11", "A convolution layer computes its filters' responses plus biases",
     "For every accepted input the output of a convolution layer has one layer per filter, and each element is the filter's bias plus the sum over all channels of filter weight times the input element under it, at the layer's stride. Inputs whose channel count differs or which are smaller than the filter are refused, and applying the layer changes none of its parameters. Values keep the precision of the element type.",
     ["inputs", "configurations"], "every input size, filter size, channel and filter count, stride, weight, bias and input value",
     "Tests run a few fixed layers; mixing up channels and filters cancels out when there is only one of either.",
     [L + "Kernel.cpp", "include/cnn_from_scratch/Layers/Kernel.h"], [("forward propagation and size check", L + "Kernel.cpp")], ["layer output", "refused inputs"],
     "Polynomial identities in weights, biases and inputs.")
prop("C12", "A convolution layer's gradients are the derivatives of its output",
     "Given the gradient at its output, a convolution layer's gradients for weights, biases and input are the exact derivatives of its forward computation, at any stride, for any number of channels and filters and non-square shapes. The backward pass returns the input gradient of the size of the input, and accumulates the parameter gradients of that data point only. Values keep the precision of the element type.",
     ["inputs", "configurations"], "every input, filter shape, stride, channel and filter count, parameter and gradient value",
     "Tests compare one example; index errors between rotated filters, channels and filters vanish for one channel or square shapes.",
     [L + "Kernel.cpp"], [("gradient functions and backward propagation", L + "Kernel.cpp")], ["returned gradients", "parameters after an update"],
     "Strides are case-split, values are solver variables.")
prop("C13", "Pooling yields the extremum or mean of every complete window",
     "A pooling layer outputs, per channel, one value for every window that fits completely at the configured stride: the maximum, minimum or mean of the elements of that window. Inputs smaller than the window are refused and no element outside the input is read. Values keep the precision of the element type.",
     ["inputs", "configurations"], "every input size, window size, stride, kind and value",
     "Tests cover a few sizes that divide evenly; overlaps, gaps, remainders, negative values and channels are not sampled.",
     [L + "Pooling.cpp", "include/cnn_from_scratch/Layers/Pooling.h"], [("window scan and output size", L + "Pooling.cpp")], ["layer output", "refused inputs"],
     "All orderings of the window elements.")
prop("C14", "Pooling routes each gradient to the inputs that produced the output",
     "The input gradient of a pooling layer is the derivative of its output: each output gradient is added to the element that was the extremum of its window (or spread evenly for means), windows that overlap add up, all other elements get zero. Every data point of a batch uses the extrema of its own input, whatever was processed in between. Values keep the precision of the element type.",
     ["inputs", "histories", "configurations"], "every input, gradient, window, stride, kind and order in which batch slots are used",
     "Tests propagate one input; overlapping windows, several channels and interleaved batch slots are not sampled.",
     [L + "Pooling.cpp"], [("remembered positions per batch slot", L + "Pooling.cpp")], ["returned input gradient"],
     "Unique extrema assumed for max/min.")
prop("C15", "A fully connected layer computes weights times input plus biases",
     "A fully connected layer outputs, for each output unit, its bias plus the weighted sum of all input elements taken in storage order, whatever the shape of the input. After its first use it accepts only inputs with the same number of elements, and refuses others. Values keep the precision of the element type.",
     ["inputs", "configurations"], "every input shape and value, output count, weight and bias",
     "Tests use flat inputs with fixed numbers; flattening order and volume inputs are not distinguished.",
     [L + "ConnectedLayer.cpp"], [("forward propagation and size check", L + "ConnectedLayer.cpp")], ["layer output", "refused inputs"],
     "Polynomial identities.")
prop("C16", "A fully connected layer's gradients are the derivatives of its output",
     "Given the gradient at its output, a fully connected layer's gradients for weights, biases and input are the exact derivatives of its forward computation, and the returned input gradient has the shape of the input. The backward pass accumulates the parameter gradients of that data point only. Values keep the precision of the element type.",
     ["inputs", "configurations"], "every input shape, parameter, output count and gradient value",
     "Tests compare one example; transposition or flattening errors need non-square and volume shapes.",
     [L + "ConnectedLayer.cpp"], [("gradient functions and backward propagation", L + "ConnectedLayer.cpp")], ["returned gradient", "parameters after an update"],
     "Polynomial identities.")
prop("C17", "Activations are the named functions, with their exact derivatives",
     "Each activation layer applies the named function (rectifier, sigmoid, identity, hyperbolic tangent, rectifier with slope 0.1 for negative values) to every element, keeping the shape. Back propagation multiplies the incoming gradient by the function's derivative at the layer's input, and for every finite input output and derivative are finite and within the function's range. Values keep the precision of the element type.",
     ["inputs"], "every activation, shape and input value, including huge ones, away from kinks for derivatives",
     "Tests evaluate one point per function; wrong derivative arguments, sign handling or overflow for large inputs need other points.",
     [L + "Activation.cpp", "include/cnn_from_scratch/Layers/Activation.h"], [("function and gradient tables", L + "Activation.cpp")], ["layer output and returned gradient"],
     "exp and tanh axiomatised; finiteness decided for all IEEE doubles.")
prop("C18", "Softmax always yields a probability distribution",
     "For every vector of scores the output layer gives probabilities between zero and one that sum to one, are proportional to the exponentials of the scores, keep the order of the scores and do not change when a constant is added to all of them. Probabilities keep the precision of the scores. No finite scores, however large, produce an undefined value, and inputs of the wrong size are refused.",
     ["inputs"], "every score vector, including scores of any magnitude",
     "Tests use small scores; overflow to infinity or NaN needs extreme magnitudes.",
     [L + "Softmax.cpp", "include/cnn_from_scratch/Layers/Softmax.h"], [("normalised exponentials", L + "Softmax.cpp")], ["layer output", "refused inputs"],
     "exp axiomatised over reals; finiteness for IEEE doubles with sound lemmas.")
prop("C19", "The output layer's gradient is that of cross entropy, per data point",
     "The gradient the output layer passes back is the probability of each class minus one for the true class, so it sums to zero and raises only the true class's score. In a batch every data point uses its own true label, a gradient without a label assigned in this batch is refused, and so is a label outside the classes. Values keep the precision of the element type.",
     ["inputs", "histories"], "every score vector, label, and order of assigning labels to batch slots",
     "Tests use one label and one data point; labels mixed up between batch slots show only with several.",
     [L + "Softmax.cpp"], [("true label per batch slot", L + "Softmax.cpp")], ["returned gradient", "exceptions"],
     "Up to three classes and slots.")
prop("C20", "An update applies the mean gradient of its batch exactly once",
     "Applying a batch moves every weight and bias by minus the learning rate times the mean gradient of the data points processed since the previous update, whichever batch slots they used and in whichever order. A partly filled batch is averaged over the points it has, an empty one changes nothing, and no gradient takes part in two updates. Setting the batch size starts a new batch and drops gradients not yet applied. Values keep the precision of the element type.",
     ["inputs", "histories"], "every batch size, subset and order of filled slots, gradient, parameter and learning rate, over consecutive updates",
     "Tests apply at most one full batch; stale or repeated gradients need a second or partial batch.",
     [L + "Kernel.cpp", L + "ConnectedLayer.cpp", "include/cnn_from_scratch/Layers/ModelLayer.h"], [("per-slot gradients and update", L + "Kernel.cpp"), ("per-slot gradients and update", L + "ConnectedLayer.cpp")], ["parameters after each update"],
     "Up to three slots and three consecutive updates.")
prop("C21", "A model applies its layers in order and predicts the likeliest label",
     "The output of a model is the composition of its layers in the order they were added, with every intermediate result reported; the predicted label is one with the largest output and the confidence is that output. Inputs of any element type are converted by value, an input that does not fit some layer is rejected, and classifying does not change later results.",
     ["inputs", "configurations", "histories"], "every model within the bounds, parameter and input value, and sequence of inputs",
     "Tests run one fixed pipeline; ordering, ties, conversions and state left behind by earlier inputs are not sampled.",
     ["src/ModelDescription.tpp"], [("forward propagation", "src/ModelDescription.tpp")], ["reported intermediate results, label and confidence", "exceptions"],
     "Models of up to four layers.")
prop("C22", "The loss is that of the true label, finite and monotone",
     "The loss of a result depends only on the probability given to the true label, is never negative, undefined or infinite, even for probability zero, and is smaller the larger that probability is. The true label and its position are recorded, and a label the model does not know is rejected.",
     ["inputs"], "every probability vector, set of labels and given label",
     "Tests check one or two values; probabilities zero and one and unknown labels are not sampled.",
     ["src/ModelDescription.tpp"], [("cross entropy and label lookup", "src/ModelDescription.tpp")], ["reported loss and label index", "exceptions"],
     "IEEE floats with sound lemmas for the logarithm.")
prop("C23", "An epoch uses every data point exactly once, on any number of threads",
     "For every data set size, batch size and number of threads, an epoch processes every data point exactly once, never asks an exhausted source for more, terminates, and reports the number of correct predictions. Training runs the requested number of epochs, prints the accuracy of each, and rewinds the data after each.",
     ["schedules", "inputs", "configurations"], "every data set size, batch size, thread count and interleaving of the worker threads",
     "No test runs an epoch; lost or duplicated points depend on the remainder of the last batch and on the schedule.",
     ["src/ModelDescription.tpp"], [("worker threads sharing the data source", "src/ModelDescription.tpp")], ["requests to the data source", "returned count"],
     "All interleavings at synchronisation points, with race detection.")
prop("C24", "Training results do not depend on threads or their interleaving",
     "Training with several threads has no data race and leaves the model with the same parameters, up to rounding, as processing the same batches one data point after another on one thread. This includes the very first batch, in which layers still learn their input size.",
     ["schedules", "inputs"], "every interleaving of the worker threads, data set size, batch size, and (for the dense model) every input and parameter",
     "No test trains with threads, and a passing run says nothing about other schedules.",
     ["src/ModelDescription.tpp", L + "ConnectedLayer.cpp", L + "Softmax.cpp", L + "Pooling.cpp"], [("batch slots private to a data point", "src/ModelDescription.tpp"), ("one-time initialisation", L + "ConnectedLayer.cpp")], ["parameters after training", "data races"],
     "All interleavings of up to two threads (three in the thorough tier).")
prop("C25", "Every layer and matrix survives writing and reading",
     "Writing any layer or matrix as text and reading it back gives one with the same configuration and the same parameters up to the printed precision, which then behaves the same forward and backward. Reading consumes exactly the text of that object, so several written one after another are read back in order.",
     ["inputs", "configurations"], "every kind and size of layer, configuration value, and parameter value",
     "Tests write one or two layers; dropped fields (stride, kind) or leftover text need other configurations and sequences.",
     ["include/cnn_from_scratch/Serialization.h", L + "Kernel.cpp", L + "Pooling.cpp", L + "ConnectedLayer.cpp", L + "Activation.cpp", "src/SimpleMatrix.tpp"], [("serialize and deserialize of each layer", "src/Layers")], ["layer read back: parameters and results"],
     "Number formatting is a stand-in: a number reads back within its printed precision.")
prop("C26", "A saved model loads back as the same classifier",
     "Saving a model and loading the file into an empty model gives the same layers, parameters up to printed precision, labels and predictions, and saving that one again gives an equivalent file. Saving reports failure when the file cannot be created or not everything could be written.",
     ["inputs", "configurations", "fault_sequences"], "every combination of layers, labels and parameters within the bounds, and a full disk after any number of bytes",
     "No test saves and loads a model; missing pieces show only for models that use them, and write errors only on a failing disk.",
     ["src/ModelDescription.tpp"], [("saveModel and loadModel", "src/ModelDescription.tpp")], ["loaded model's results and labels", "return value of saving"],
     "Files are in-memory stand-ins with a byte budget.")
prop("C27", "Damaged model files are refused or load safely, and never crash",
     "Loading a missing, truncated or corrupted model file either reports failure or yields a model that is consistent and can be used safely; it never crashes, hangs, allocates absurd amounts or accesses memory out of bounds. A file cut off anywhere before its end is not reported as loaded, nor is one with an unknown or misspelt name, or with text where a number is expected; the same goes for the text of a single layer or matrix, where a negative size is refused as well.",
     ["inputs", "fault_sequences"], "every cut position, every replacement of bytes, arbitrary short layer texts and size fields",
     "No test loads a damaged file, and there are far too many damages to sample.",
     ["include/cnn_from_scratch/Serialization.h", "src/ModelDescription.tpp", L + "Kernel.cpp", L + "Pooling.cpp", L + "ConnectedLayer.cpp"], [("checks while reading", "include/cnn_from_scratch/Serialization.h")], ["return value or exception of loading", "use of a loaded model", "memory accesses"],
     "Bytes of the file are solver variables.")
prop("C28", "The data-set reader returns the images and labels of the files",
     "The data-set reader returns image k of the image file, pixel for pixel in its place, with label k of the label file, in file order or for any requested index, for any mix of the two; it reports the number of images and the end of the data. Files with a wrong header or cut off before their end are reported as errors instead of returning other data.",
     ["inputs", "histories", "fault_sequences"], "every file content, sequence of sequential and random accesses, header byte and cut position",
     "No test reads a data set; transposed pixels, shifted labels or truncated files are not detected by anything.",
     ["src/MNISTReader.cpp", "include/cnn_from_scratch/MNISTReader.h"], [("header parsing and record access", "src/MNISTReader.cpp")], ["returned images and labels", "exceptions"],
     "File bytes are solver variables.")
prop("C29", "Size arithmetic: component-wise, with a one-to-one flat index",
     "Sums, differences, equality, copies and moves of sizes act component by component. The flat index of a coordinate is unique within the size and smaller than its element count, and stepping through coordinates moves to the next flat index.",
     ["inputs"], "every component value in a wide range, every coordinate",
     "Tests compare a few constants; one wrong component or a collision between coordinates is visible only for other values.",
     [M + "dim.h"], [("component operations and iteration", M + "dim.h")], ["components, equality and indices"],
     "Components are solver variables, no case split.")
prop("C30", "Initial parameters are bounded and not degenerate for any random draw",
     "Whatever the random generator returns, the initial weights and the initial biases of a layer lie between minus one and one and have Euclidean norm one. In particular they are never undefined, infinite or all zero.",
     ["inputs"], "every sequence of random draws",
     "Tests see one random sequence.",
     [L + "Kernel.cpp", L + "ConnectedLayer.cpp"], [("random initialisation and normalisation", L + "Kernel.cpp")], ["parameters of a new layer"],
     "Random draws are solver variables.")
prop("C31", "Training moves every parameter down the gradient of the loss",
     "Processing labelled data points and applying the batch changes each weight and bias of every layer by minus the learning rate times the mean derivative of the cross-entropy loss with respect to it, following the chain rule through convolution, activation, average pooling and fully connected layers. This holds for any depth and mix of these layers.",
     ["inputs", "configurations"], "every input, parameter, label and learning rate, and every stack of layers within the bounds",
     "Tests check single layers with fixed numbers; a gradient handed to the wrong layer, computed from the wrong stored value or at already changed parameters needs a stack of layers.",
     ["src/ModelDescription.tpp", L + "Kernel.cpp", L + "ConnectedLayer.cpp", L + "Activation.cpp", L + "Pooling.cpp", L + "Softmax.cpp"], [("backward pass over the layers", "src/ModelDescription.tpp")], ["parameters after an update"],
     "Reference chain rule over the stored intermediate results.")
prop("C32", "The program trains on every image once per pass, with its own label",
     "The training data source of the program delivers every image of the data set exactly once per pass, in file order, each with the label stored for it, and reports the number of images as its size and when they are used up. Rewinding it starts a new pass with the first image, so every epoch sees the same data.",
     ["inputs", "histories", "configurations"], "every file content, number of images and sequence of reads and rewinds",
     "No test touches the program; a pass that skips the first image or shifts labels still trains.",
     ["src/main.cpp", "src/MNISTReader.cpp"], [("MNistGenerator", "src/main.cpp"), ("sequential and random access", "src/MNISTReader.cpp")], ["data points delivered", "size and end of data"],
     "The program's source is compiled into the harness; the data files are in-memory stand-ins.")
prop("C33", "Validation reports the share of correct predictions, on any threads",
     "Validating a model evaluates every image of the validation set exactly once, each compared with its own label, and reports the share predicted correctly, for any number of threads. Worker threads do not interfere with one another, and for every random draw only existing images are sampled, each shown with its own pixels, label, prediction and confidence. A printed result shows its label index and confidence and, when the true label is known, the loss and that label.",
     ["inputs", "schedules", "configurations"], "every interleaving of the worker threads, random draw, number of images and threads, file content",
     "No test validates a model; races between workers and samples outside the set need particular schedules and draws.",
     ["src/main.cpp", "src/MNISTReader.cpp"], [("validate", "src/main.cpp")], ["printed accuracy and counts", "data races", "images requested"],
     "All interleavings at synchronisation points, with race detection; random draws are solver variables.")
prop("C34", "Printed images, matrices, sizes and progress show what they stand for",
     "A printed image has one line per row and one cell per pixel, whose gray level (or three colour components) is a byte proportional to the pixel's value, from the darkest to the brightest; flat images and values below zero are no exception. Printed matrices and sizes show every component in its place with its sign, leave the format of later output alone, and a progress bar has constant width and shows the finished share.",
     ["inputs", "configurations"], "every pixel or element value, image and matrix shape, step and total of the progress",
     "No test looks at printed output; wrong cells appear only for flat, negative or layered data.",
     ["include/cnn_from_scratch/imageUtil.h", M + "SimpleMatrix.h", M + "dim.h", "include/cnn_from_scratch/LoadingBar.h"], [("printImage", "include/cnn_from_scratch/imageUtil.h"), ("matrix output", M + "SimpleMatrix.h"), ("loadingBar", "include/cnn_from_scratch/LoadingBar.h")], ["text written to the console or stream"],
     "Output is captured; a number printed from a solver variable is a token that stands for it.")
prop("C35", "A model consists of the layers it was given, in order, named by kind",
     "Adding a layer to a model appends exactly one layer of the kind, size, stride and number of filters or outputs asked for, and hands back that very layer; layers already present stay where they are. A layer is named by its kind and its number within the kind, counted from one, also in a loaded model. Output labels are kept in order, and a softmax layer with one output per label follows unless none is wanted.",
     ["inputs", "histories", "configurations"], "every sequence of additions and every size, stride and number of labels",
     "Tests build one model and do not look at its layers; a wrong number, name or stride shows only for some mixes of layers.",
     ["src/ModelDescription.tpp", L + "Kernel.cpp", L + "Pooling.cpp"], [("adding layers", "src/ModelDescription.tpp"), ("setOutputLabels", "src/ModelDescription.tpp")], ["layers and labels of a model", "names", "what a new layer computes"],
     "Sequences of additions are enumerated by case split.")
prop("C36", "Layers, models and matrices do not influence one another",
     "What a layer or a model computes, and how training changes it, depends only on its own parameters, inputs and calls: other layers and models, used before, in between or in another thread, change nothing. Models may be built, used and trained in different threads at the same time; matrices may be read by several threads at once, and different matrices, or different parts of one, written at once.",
     ["inputs", "schedules", "histories", "configurations"], "every interleaving of two threads and every pair of layers or models within the bounds",
     "Tests use one object at a time, in one thread; state shared by mistake (a static buffer, a cached size) needs a second object of the same kind.",
     [L + "Kernel.cpp", L + "Pooling.cpp", L + "ConnectedLayer.cpp", L + "Softmax.cpp", L + "Activation.cpp", "src/ModelDescription.tpp", M + "MatrixMath.h"], [("layers", L + "Pooling.cpp"), ("first use of a fully connected layer", L + "ConnectedLayer.cpp"), ("models", "src/ModelDescription.tpp")], ["outputs, gradients and parameters", "data races"],
     "Compared with the same calls made alone; races are detected by happens-before.")
if __name__ == "__main__":
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P: f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
    checks = [dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
                   technique="symbolic execution of the real code (LLVM IR) with SMT (z3/cvc5), counterexamples replayed natively", level="model_checking",
                   level_note="All paths of the real code within the bounds stated in the evidence file, each assertion and memory access decided by the solver for all values. " + p["note"] + " Trusts the engine and the stand-ins for streams, files, threads and libm; arithmetic is over real numbers unless the evidence says IEEE.") for p in P]
    json.dump(dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=[], notes="No hooks in /repo: harnesses use the public headers."), open(HERE + "/MANIFEST.json", "w"), indent=1)
    for p in P: assert len(p["title"]) <= 80, p["id"]
