"""Property texts."""
VN = "abstract interpretation with gated value numbering and loop summarisation; closed form compared with the specification"
TRUST = "Trusted: clang's AST, the interpreter's model of the language and of the few library calls listed in DESIGN.md, and the written specifications. Arithmetic is over the reals (rounding and overflow are outside the claim). Clauses whose closed forms do not reach the same normal form are compared by valuating the two closed forms; their number is in the evidence."
CORE = ["core/mlpp_vector.cpp", "core/mlpp_vector.h", "core/mlpp_matrix.cpp", "core/mlpp_matrix.h", "core/mlpp_tensor3.cpp", "core/mlpp_tensor3.h"]
P = []
NA = []


def p(id, title, statement, over, quant, why, files, mech, tech=VN, note=TRUST):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note))


def na(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))


p("C01", "Element-wise container arithmetic computes what it names in all forms",
  "Every element-wise operation on vectors, matrices and third order tensors (sum, difference, product, quotient, maximum, minimum, scalar multiple and offset, exp, log, sqrt, sin, cos, abs and the like) yields at every position exactly the named function of the operands' elements there, with the operands' size. The in-place form, the form returning a new object and the form storing into the receiver agree, and operands that are not the destination keep their content.",
  ["inputs"], "all operand sizes >= 1, all element values, all indices", "Tests sample a handful of fixed 1 to 10 element containers and touch fewer than half of the operations; the value at every index for every size is not reachable by samples.",
  CORE, [("in-place / returning / storing variants of each operation", "core/mlpp_vector.cpp, core/mlpp_matrix.cpp, core/mlpp_tensor3.cpp")])
p("C02", "Products, reductions and structured constructions match their definitions",
  "Matrix, vector, outer, dot and Hadamard products, transposition, trace, norms, sums and extremes, Gram matrices, covariance, cross product, identity, rotation and diagonal constructions, flattening and tiling of vectors and matrices yield the mathematically defined value at every index, with the defined shape. Operands that are not the destination keep their size and content.",
  ["inputs"], "all operand sizes satisfying the operation's size relation, all element values, all indices", "The result at each index is a sum over a symbolic range; tests check a few 2x2 and 3x3 cases, mostly square, where a row/column mix-up or a wrong bound is invisible.",
  CORE, [("product and reduction loops", "core/mlpp_matrix.cpp mult, outer_product, gram_matrix, cov; core/mlpp_vector.cpp dot, outer_product, cross, sum_elements")])
p("C03", "Container accessors and structural edits touch exactly the addressed elements",
  "Reading and writing elements, rows, slices, diagonals and whole contents, and inserting, removing, swapping, resizing, filling and converting, read or write exactly the addressed elements at their row-major (slice-major for tensors) positions. Every other element keeps its value and relative order, and the size changes exactly as the operation names.",
  ["inputs", "histories"], "all sizes, all valid indices, all contents, from every container state", "Frame conditions (nothing else changed) for every index and size cannot be sampled; the tests only look at the touched cells of tiny containers.",
  CORE, [("index computation and element shifting", "row_get/row_set/row_add/row_remove, z_slice_*, element_get/element_set, resize, insert, remove")])
p("C04", "Container operations never touch memory outside their elements",
  "For any operands, including empty, null and mismatched ones, no operation of the vector, matrix and tensor containers (other than the iterative decompositions, image conversion and random noise) reads or writes an element outside the storage of the container it addresses or through a missing storage pointer. After every operation the storage length equals the container's reported element count.",
  ["inputs", "histories"], "every size >= 0 and every index argument, from every state satisfying storage length = reported count", "Out of bounds accesses are silent in the tests' build and occur at sizes, such as non-square shapes or negative indices, that they do not use.",
  CORE, [("pointer loads and stores with index guards", "all loops over ptr()/ptrw() in the three containers"), ("storage length = product of sizes", "resize, row_add, z_slice_add, set_from_*")],
  tech="abstract interpretation: bounds obligations per memory access discharged from guards and loop ranges")
p("C05", "Invalid container operands are rejected, without effect",
  "Operands whose sizes do not fit the operation, out-of-range indices and missing operands are reported and rejected, while operands that fit are accepted. A rejected call leaves every container involved, including the receiver, with the size and content it had.",
  ["inputs"], "all combinations of operand sizes and index values, null operands in every position", "Rejection happens on the inputs the tests never pass; partial modification before a rejection is visible only in a state comparison on those inputs.",
  CORE, [("ERR_FAIL_* guards preceding any effect", "all operations taking another container or an index")],
  tech="abstract interpretation: reachability conditions of rejection exits compared with the stated requirements, state compared at each rejection")
p("C06", "Container storage is released exactly once and never used afterwards",
  "Every block of element storage that a vector, matrix or tensor obtains is held by exactly one container until it is released, and is released exactly once: on growing or shrinking to nothing, on reset, on replacing the content, or when the container is destroyed. No operation loses a block it still owes, releases one twice, shares one between two containers, or reads or writes one after its release.",
  ["inputs", "histories"], "every operation, constructor and destructor of the three containers, every receiver and operand size, every index", "A lost block shows in no result and a stale one often still holds its values; the tests' build has no leak or use-after-free detection and empties no container.",
  CORE, [("release of storage", "reset, resize, remove, row_remove, z_slice_remove, destructors"), ("acquiring storage", "memrealloc in resize, push_back, row_add, z_slice_add, set_from_*")],
  tech="abstract interpretation: ownership typestate per storage block, one obligation per release, access and exit")
ACT = ["core/activation.cpp", "core/activation.h"]
p("A01", "Every activation function yields its defined value in all forms",
  "Each activation (sigmoid, softplus, softsign, ReLU family, GELU, swish, mish, softmax, hyperbolic and inverse hyperbolic functions and the rest) yields its mathematical definition for scalars, and applies it to every element of a vector or matrix (softmax: normalised over the vector or over each matrix row). The result has the input's shape and the input is unchanged.",
  ["inputs"], "all input values in the function's domain, all sizes, all indices", "No test checks any activation value; a test would sample a few points of a handful of functions.",
  ACT, [("forward forms", "*_normr, *_normv, *_normm")])
p("A02", "Every activation derivative is the derivative of its activation",
  "The derivative form of each activation yields the mathematical derivative of the forward definition for scalars, and element by element for vectors and matrices, with the input's shape and the input unchanged. The softmax derivative of a vector is the full Jacobian.",
  ["inputs"], "all input values in the function's domain away from kinks, all sizes, all indices", "No test checks any derivative; agreement of two functions over all reals is not a matter of samples.",
  ACT, [("derivative forms", "*_derivr, *_derivv, *_derivm")])
p("A03", "Selecting an activation by its identifier runs exactly that activation",
  "For every activation identifier, evaluating or looking up the scalar, vector or matrix function by identifier gives the function that the identifier names. The forward function is used unless the derivative is asked for, and the derivative function when it is.",
  ["inputs", "configurations"], "all activation identifiers x {forward, derivative} x {scalar, vector, matrix} x {call, lookup}", "About 370 identifier/mode/form combinations through if-chains and switches; no test exercises the selection.",
  ACT, [("dispatch by enumerator", "run_activation_*, get_activation_function_ptr_*")],
  tech="abstract interpretation: returned function constant or closed form per enumerator compared with the enumerator's name")

CST = ["core/cost.cpp", "core/cost.h"]
p("K01", "Loss functions yield their defined value for vectors and matrices",
  "Every loss yields its definition over all elements: half mean squared error, root mean squared, mean absolute and mean bias error, binary log loss, cross entropy, Huber, hinge (optionally weighted, with the half squared norm of the weights added) and Wasserstein loss, and the dual form of the SVM objective. The matrix form equals the vector form on the same elements and the operands keep their content.",
  ["inputs"], "all predictions and targets of equal size, all parameters", "No test checks a loss value; averaging, sign and index slips show only for particular sizes and values.",
  CST, [("loss reductions", "MLPPCost::*v, *m")])
p("K02", "Loss gradients are the gradients of the losses",
  "The gradient form of every loss yields at each element the derivative of that element's contribution with respect to the prediction (without the averaging factor; root mean squared error applies the chain rule through the square root of the half mean squared error), with the prediction's shape. Vector and matrix forms agree and the operands keep their content.",
  ["inputs"], "all predictions and targets of equal size, all parameters, away from kinks", "No test checks a gradient; a wrong sign or factor only changes how training converges.",
  CST, [("gradient forms", "MLPPCost::*_derivv, *_derivm")])
p("K03", "Selecting a loss by its identifier runs exactly that loss",
  "For every loss identifier, evaluating or looking up the vector or matrix loss or gradient by identifier gives the function that the identifier names.",
  ["inputs", "configurations"], "all loss identifiers x {value, gradient} x {vector, matrix} x {call, lookup}", "64 combinations through switch statements; no test exercises the selection.",
  CST, [("dispatch by enumerator", "run_cost_*, get_cost_function_ptr_*")], tech="abstract interpretation: returned function constant or closed form per enumerator compared with the enumerator's name")
p("K04", "Regularisation penalties, gradients and weight updates are consistent",
  "For each regularisation kind (none, ridge, lasso, elastic net, weight clipping) the penalty, its gradient and the regularised weights are the defined functions of the weights, lambda and alpha, the gradient being the derivative of the penalty. Vector and matrix forms agree and the given weights are unchanged.",
  ["inputs", "configurations"], "all regularisation kinds, all weights, sizes and parameters", "Tests run models with one or two kinds and check no values.",
  ["core/reg.cpp", "core/reg.h"], [("penalty and gradient", "MLPPReg::reg_term*, reg_deriv_term*, reg_weights*")])

LA = ["core/lin_alg.cpp", "core/lin_alg.h"]
p("L01", "Linear algebra helpers compute their defined results",
  "The free-standing linear algebra helpers (sums, differences, element-wise and matrix products and quotients, transposition, Gram and covariance matrices, element-wise functions and powers, scalar multiples and offsets, dot and outer products, norms, distances, projections, extremes, row and vector combinations, zero, one, constant, identity and diagonal constructions) return at every index the mathematically defined value with the defined shape. Their operands keep their size and content.",
  ["inputs"], "all operand sizes satisfying the operation's size relation, all element values, all indices", "Tests use a few small fixed matrices; wrong bounds, row/column mix-ups or in-place changes of an operand are invisible there.",
  LA, [("helper loops", "MLPPLinAlg::*nm, *nv, *v")])
p("L02", "Linear algebra helpers reject operands whose sizes do not fit",
  "A linear algebra helper combining two operands (sum, difference, product, quotient, maximum, dot product, distance, matrix times vector) reports and rejects operands whose sizes do not fit together, and accepts those that do. It never reads outside an operand.",
  ["inputs"], "all combinations of operand sizes", "The tests only pass operands that fit.",
  LA, [("size guards", "ERR_FAIL_COND_V in MLPPLinAlg")],
  tech="abstract interpretation: reachability conditions of rejection exits compared with the stated requirements; bounds obligations per access")

REGR = ["modules/log_reg/log_reg.cpp", "modules/probit_reg/probit_reg.cpp", "modules/c_log_log_reg/c_log_log_reg.cpp", "modules/tanh_reg/tanh_reg.cpp", "modules/svc/svc.cpp", "modules/lin_reg/lin_reg.cpp"]
STEP = "abstract interpretation with gated value numbering from an arbitrary object state, a fixed number of epochs unrolled; closed form compared with the update rule"
p("L03", "Determinants, inverses and factorisations of small matrices are right",
  "For every matrix of up to three rows (determinants and minors: four) the determinant, minors, adjugate, inverse, pseudo inverse, whole powers from zero to three, solution of linear equations, Kronecker product, orthonormalised columns, QR and Cholesky factors are the mathematically defined ones, wherever these exist. The operands keep their content.",
  ["inputs"], "all element values; square sizes 1 to 3 (4 for determinants and minors), tall sizes up to 3 by 2, powers 0 to 3", "Tests evaluate a few fixed matrices, mostly 2 by 2; sign and index slips in the expansion cancel for symmetric or sparse ones.",
  ["core/mlpp_matrix.cpp", "core/lin_alg.cpp"], [("cofactor expansion", "det, detb, cofactor, adjoint, inverse, pinverse, solve and the MLPPLinAlg forms"), ("factorisations", "MLPPLinAlg::gram_schmidt_process, qrd, cholesky, kronecker_product")],
  tech="abstract interpretation with gated value numbering, recursion and loops unfolded for each size; closed form compared with the specification")
p("M01", "Generalised linear models predict the link of the weighted input",
  "Linear, logistic, probit, complementary log-log and tanh regression and the linear support vector classifier predict, for a single sample and for every row of a sample matrix alike, their link function of the weighted sum of the features plus the bias. The refresh of the cached predictions stores exactly that for every training sample, and predicting changes nothing else in the model.",
  ["inputs", "histories"], "every model state (any weights, bias and data of any size), every sample matrix", "Tests print accuracies; they never compare a prediction with the formula, and use two fixed data sets.",
  REGR, [("evaluation and forward pass", "evaluatem/evaluatev/propagatem/propagatev/forward_pass/model_test/model_set_test")])
p("M02", "Classifier training steps follow the gradient of the model's loss",
  "In each epoch, training logistic, probit, complementary log-log or tanh regression or the linear support vector classifier moves weights and bias by the learning rate against the gradient of the loss on the samples of that step (all samples, one drawn sample, or each consecutive mini batch), likelihood training up the likelihood, and then applies the regularisation step to the weights. The configured number of epochs is run, the cached predictions afterwards belong to the trained weights, and data, labels and settings are unchanged.",
  ["inputs", "histories"], "every model state and data set of any size; one and two epochs, one and two mini batches", "A wrong factor, sign or index in one step of one trainer still converges on the tests' easy data, or is not noticed since they only check that training terminates.",
  REGR[:5], [("training loops", "gradient_descent, mle, sgd, mbgd")], tech=STEP)
p("M03", "Linear regression optimisers follow their update rules",
  "Each optimiser of linear regression (gradient descent, stochastic, mini batch, momentum, Nesterov momentum, Adagrad, Adadelta, Adam, Adamax, Nadam), with and without ridge regularisation, updates weights and bias at each step by its defining recurrence on the gradient of that step's samples, with accumulators starting at zero and persisting over batches and epochs. The configured number of epochs is run, the cached predictions belong to the trained weights, and data, targets and settings are unchanged.",
  ["inputs", "histories"], "every model state and data set of any size; one and two epochs, one and two mini batches", "Each optimiser converges on the tests' data even with wrong recurrences (several had such defects); the recurrences themselves are never compared.",
  REGR[5:], [("optimiser loops", "MLPPLinReg::gradient_descent .. nadam")], tech=STEP)
p("M04", "Exponential, softmax and dual SVM models predict and train by their formulas",
  "Exponential regression predicts the sum of coefficient times base to the power of the feature plus the bias, softmax regression the softmax of its class scores, the dual support vector classifier the sign of its kernel expansion plus bias, for a sample and for every row of a sample matrix alike. Each epoch of training moves their parameters (bases, coefficients and biases; multipliers clipped to [0, C]) against the gradient of the loss on the samples of that step and applies the regularisation step, for the configured number of epochs, leaving data, targets and settings unchanged.",
  ["inputs", "histories"], "every model state and data set of any size; one and two epochs, one and two mini batches", "Tests print accuracies on one fixed data set; a wrong factor or index in one step still trains, and the trainers run on random draws.",
  ["modules/exp_reg/exp_reg.cpp", "modules/softmax_reg/softmax_reg.cpp", "modules/dual_svc/dual_svc.cpp"], [("prediction and training", "evaluate*, model_test, model_set_test, forward_pass, gradient_descent, sgd, mbgd")], tech=STEP)

p("M05", "Models built from data are set up and sized for it",
  "Building a regression, classifier, network or layer from its data keeps that data and the settings given, records sample and feature counts where the model keeps them, and leaves freshly drawn weights, one per feature (in matrices one per input and unit), biases one per unit, and room for one prediction per sample. Probit, tanh, softmax and support vector models, the multilayer perceptron, softmax network and layers that are initialised after their data was set end up the same. The simple linear regression is fitted when built.",
  ["inputs", "configurations"], "all data sizes and contents, all settings, any earlier state of the object", "Tests build one model per data set; square data or an oversized buffer hides a swapped dimension.",
  ["modules/lin_reg/lin_reg.cpp", "modules/log_reg/log_reg.cpp", "modules/c_log_log_reg/c_log_log_reg.cpp", "modules/exp_reg/exp_reg.cpp", "modules/probit_reg/probit_reg.cpp", "modules/tanh_reg/tanh_reg.cpp", "modules/svc/svc.cpp", "modules/softmax_reg/softmax_reg.cpp", "modules/softmax_net/softmax_net.cpp", "modules/mlp/mlp.cpp", "modules/auto_encoder/auto_encoder.cpp", "modules/ann/ann.cpp", "modules/mann/mann.cpp", "modules/uni_lin_reg/uni_lin_reg.cpp", "modules/hidden_layer/hidden_layer.cpp", "modules/output_layer/output_layer.cpp", "modules/multi_output_layer/multi_output_layer.cpp"], [("construction", "constructors taking data"), ("initialisation", "initialize")], tech=STEP)

SMALLT = "abstract interpretation with gated value numbering, loops unfolded for each size; closed form compared with the specification"
p("M06", "K-means assigns to the nearest centroid and moves centroids to the mean",
  "After initialisation the centroids are training samples: all drawn at random, or for k-means++ the first drawn and each further one the sample with the largest summed distance to those chosen. Each round of training moves every centroid to the mean of the samples nearest to it and then assigns every sample to its nearest centroid; the score is the summed squared distance of the samples to the centroids they are assigned to. Prediction yields the nearest centroid, for one sample and for every row of any sample matrix alike, and leaves the model unchanged.",
  ["inputs", "histories"], "every model state and content; 1 to 3 samples, 1 to 3 clusters and 1 or 2 dimensions; one and two rounds", "The test prints the clusters of one data set; a sample given to the wrong cluster or a centroid never set passes.",
  ["modules/kmeans/kmeans.cpp"], [("clustering", "MLPPKMeans::initialize, train, score, model_test, model_set_test")], tech=SMALLT)
p("M07", "Nearest neighbours vote for the class of a sample",
  "Classifying a sample yields the class that is most frequent among the k training samples with the smallest Euclidean distance to it, each counted once (the class seen first in the training set among equally frequent ones). Classifying a matrix of samples yields that class for its row, and the model is left unchanged.",
  ["inputs", "histories"], "every model state and content; 1 to 3 training samples, k from 1 to 3, 1 or 2 dimensions", "The test prints the result for one data set and never compares it; missed neighbours or wrong votes pass.",
  ["modules/knn/knn.cpp"], [("search and vote", "MLPPKNN::model_test, model_set_test")], tech=SMALLT)
p("M08", "Linear regression is solved by the normal equations and Newton's step",
  "Solving linear regression in closed form sets the weights to the solution of the normal equations, with the ridge term on the diagonal when ridge regularisation is chosen, and the bias to the mean target minus the weighted mean features. Each Newton epoch moves the weights by the learning rate over the number of samples times the inverse second derivative applied to the gradient and the bias against the mean error, then applies the regularisation step. The cached predictions belong to the new weights; data, targets and settings are unchanged.",
  ["inputs", "histories"], "every model state and content; 1 to 3 samples and 1 or 2 features, with and without ridge; one and two epochs", "Tests train one data set on which wrong steps still converge or are not compared.",
  ["modules/lin_reg/lin_reg.cpp", "core/mlpp_matrix.cpp"], [("solvers", "MLPPLinReg::normal_equation, newton_raphson")], tech=SMALLT)
p("M09", "Gaussian naive Bayes picks the class of highest posterior",
  "Constructing the classifier on labelled samples sets each class's prior to its share of the samples, and its mean and standard deviation to the mean and sample standard deviation of all feature values of its samples. A sample is given the class (the first of equals) with the highest prior times the product over its features of the class's normal density, for one sample, for every row of a sample matrix and for the training samples alike. Classifying changes nothing in the model.",
  ["inputs", "histories"], "classification: every model state, any number of classes, features and samples; construction: all contents and labels with 1 to 3 samples, 1 or 2 features and 1 or 2 classes", "The test prints the classes given to one data set; a classifier that always answers the first class passes.",
  ["modules/gaussian_nb/gaussian_nb.cpp", "core/stat.cpp"], [("estimation and classification", "MLPPGaussianNB constructor, model_test, model_set_test")], tech=SMALLT)
p("N01", "Network predictions and costs are the composition of their layers",
  "A network predicts by passing the sample through its layers in order, each computing its activation of (input times weights plus bias): one hidden layer for the multilayer perceptron, softmax network and auto-encoder, any number for the layered networks and both halves of the generative network; a single sample and the same sample as a row of a matrix get the same prediction. Predicting changes no weight or bias. The layered networks' cost is the selected cost of prediction and target plus the penalty of every hidden layer and of the output layer.",
  ["inputs", "histories"], "every network state and every input size; 0, 1 and 2 hidden layers (generative: 3, 4, 5) of any width; linear, sigmoid and softmax activations (the others differ only in the function verified by K01/K02)", "Tests print scores of trained networks; a dropped bias or a layer fed the wrong input still gives plausible numbers, and whole network kinds are not covered.",
  ["modules/mlp/mlp.cpp", "modules/softmax_net/softmax_net.cpp", "modules/auto_encoder/auto_encoder.cpp", "modules/ann/ann.cpp", "modules/mann/mann.cpp", "modules/wgan/wgan.cpp", "modules/hidden_layer/hidden_layer.cpp", "modules/output_layer/output_layer.cpp", "modules/multi_output_layer/multi_output_layer.cpp"], [("prediction", "evaluate*, model_test, model_set_test, forward_pass, test, cost, model_set_test_generator, model_set_test_discriminator")], tech=STEP)
p("N02", "Network training is backpropagation followed by the optimiser's recurrence",
  "One training step of a network (multilayer perceptron, softmax network, auto-encoder, layered networks with single and multiple outputs) moves every layer's weights and biases by the learning rate times the loss gradient of that step's samples (all, one drawn sample, or each mini batch in turn), where the errors of all layers are taken at the weights that produced the prediction; momentum, Adagrad, Adadelta, Adam, Adamax, Nadam and AMSGrad follow their recurrences per layer, with epoch-scheduled learning rates and regularisation of every layer. The cached prediction is refreshed at the end.",
  ["inputs", "histories"], "every network state and data set of any size; 0, 1 and 2 hidden layers of any width; one and two steps (epochs or mini batches); no and ridge regularisation; Nesterov look-ahead of the layered network excluded", "Tests train on fixed data and print the result; a wrong factor, transposition or layer index still trains.",
  ["modules/mlp/mlp.cpp", "modules/softmax_net/softmax_net.cpp", "modules/auto_encoder/auto_encoder.cpp", "modules/ann/ann.cpp", "modules/mann/mann.cpp"], [("training", "gradient_descent, sgd, mbgd, momentum, adagrad, adadelta, adam, adamax, nadam, amsgrad, train_*, apply_learning_rate_scheduler")], tech=STEP)

MODELS = ["core", "modules"]
p("S01", "Settings read back as set and setting one changes no other",
  "After a model's, layer's or container's setting (data, labels, numeric parameter, kind, switch) is set, reading it returns exactly what was set, and every other setting reads as before. An object handed to a setter keeps its content.",
  ["inputs", "histories"], "every setter with a reader in every class, every object state, every value", "Tests set a few settings on fresh objects and read none back; a setter storing into another field, or only under some condition, goes unnoticed.",
  MODELS, [("setter/reader pairs", "set_X(value) with get_X() or is_X() in core/ and modules/")],
  tech="abstract interpretation of setter then readers from an arbitrary object state; readings compared as closed forms", note=TRUST.replace("the written specifications", "the pairing of setters and readers by name"))
p("S02", "Construction keeps its arguments and leaves nothing indeterminate",
  "Every constructor of every model, layer and container gives each scalar setting and each reference a definite value, and each constructor argument is what reads back afterwards, or what the object goes on to work with, as the setting of that name.",
  ["inputs", "configurations"], "every constructor of every class, all arguments", "An uninitialised field usually happens to be zero in a test process; no test reads the constructor's arguments back.",
  MODELS, [("constructors", "all constructors in core/ and modules/")],
  tech="abstract interpretation of each constructor on storage of indeterminate content; indeterminate values that survive are reported", note=TRUST.replace("the written specifications", "the pairing of arguments and readers by name"))
p("T01", "Statistics yield their defined values and the fitted line is least squares",
  "Mean, sample variance, covariance, standard deviation, correlation, coefficient of determination, regression slope and intercept, range and half range, mean absolute deviation, the Chebyshev bound and the weighted, geometric, harmonic, power, Lehmer, contraharmonic, Heronian, Heinz, Stolarsky, identric and logarithmic means and the root mean square equal their definitions for every sample. The simple linear regression fits the least-squares line through its data and predicts by it.",
  ["inputs"], "all sample sizes and contents (where defined), all parameters", "Tests check one fixed sample per statistic; off-by-one ranges and divisors, or special cases, show only for others.",
  ["core/stat.cpp", "core/stat.h", "modules/uni_lin_reg/uni_lin_reg.cpp"], [("statistics", "MLPPStat::*"), ("least squares line", "MLPPUniLinReg::train, model_test, model_set_test")])
p("T02", "Order statistics, distinct values and outliers of small samples are right",
  "Median, modes (all values of the highest frequency, each once), the distinct values in order of appearance, in-place sorting, insertion into a sorted vector and the elements further from the mean than the threshold in standard deviations are the mathematically defined ones whatever the order of the sample and the ties in it. The sample passed to a statistic keeps its order.",
  ["inputs"], "all contents including ties; samples of 1 to 4 elements (modes, insertion and outliers: up to 3)", "Tests use one fixed sample, without ties or already ordered.",
  ["core/stat.cpp", "core/mlpp_vector.cpp", "core/mlpp_vector.h", "core/data.h", "modules/outlier_finder/outlier_finder.cpp"], [("order statistics", "MLPPStat::median, mode; MLPPVector::sort, ordered_insert; MLPPData::vec_to_setnv"), ("outliers", "MLPPOutlierFinder::model_test")], tech=SMALLT)
p("D02", "Scaling, centring and encoding of data follow their definitions",
  "Feature scaling maps each column linearly so that its minimum becomes 0 and its maximum 1; mean centring subtracts from each row its mean and mean normalisation also divides by the row's sample standard deviation; the one-hot form of class labels holds, per sample, a one in the column of its label and zeros elsewhere. The data passed in are unchanged.",
  ["inputs"], "all matrices of any size and content (where defined), all labels and class counts", "Tests apply each to one fixed data set, if at all.",
  ["core/data.cpp"], [("preparation", "MLPPData::feature_scaling, mean_centering, mean_normalization, one_hot_rep")])
p("X01", "Convolution, pooling and image filters compute their definitions",
  "Convolving a square image with a square kernel yields, for every stride and zero padding, the sum of products of the kernel with the window at each stride position, and convolving a stack of images without padding one such sum over all channels per output filter; 2D and 3D average, minimum and maximum pooling and their global forms reduce each window as named, with as many windows as fit. The Gaussian kernel, the horizontal and vertical derivative images with zero borders, gradient magnitude and orientation and the square discrete cosine transform equal their formulas at every pixel, and the ready-made Prewitt, Sobel, Scharr and Roberts kernels are the standard ones.",
  ["inputs"], "all square images and kernels not larger than them, all strides >= 1, all paddings, all window sizes, all pixel values; stacks: 1 to 3 channels and kernels of side 1 to 3 by images of any size; rectangular images for derivatives", "Tests convolve one fixed image with one stride; errors in stride, padding or border handling show only for other combinations.",
  ["core/convolutions.cpp", "core/transforms.cpp"], [("convolution and pooling", "MLPPConvolutions::convolve_2d, convolve_3d, pool_2d, pool_3d, global_pool_2d, global_pool_3d"), ("filters", "MLPPConvolutions::gaussian_2d, gaussian_filter_2d, dx, dy, grad_magnitude, grad_orientation"), ("transform", "MLPPTransforms::discrete_cosine_transform")])
p("U01", "Weight initialisation, scores and mini-batches follow their definitions",
  "Initial weights of vectors and matrices are independent draws, one per entry, from the distribution the chosen scheme prescribes for the layer's size (default, uniform, and normal and uniform Xavier, He and LeCun), initial biases uniform draws from 0 to 1. Performance is the share of predictions that round to the target (matrices: rows that agree throughout), and true and false positives and negatives, recall, precision, accuracy and F1 equal their definitions. The score of every regression, network, support vector and Gaussian naive Bayes model is that share for its stored predictions against its targets (autoencoder: its inputs; ANN and MANN: predictions computed afresh from the current weights). Mini-batches split the samples of a matrix, in order and each exactly once, into the requested number of equal blocks, the last also taking the remainder, with inputs and outputs in step.",
  ["inputs"], "all sizes, contents and distribution kinds; one to three mini-batches of any size", "Draws are random, so tests compare nothing; scores and batches are printed for one data set.",
  ["core/utilities.cpp"], [("initialisation", "MLPPUtilities::weight_initialization*, bias_initialization*"), ("scores", "MLPPUtilities::performance*, TF_PN, recall, precision, accuracy, f1_score; score() of every model"), ("mini-batches", "MLPPUtilities::create_mini_batches*")])
p("B01", "Scripting registrations name the right functions, arguments and properties",
  "Every method a class exposes to scripts under a name is the method of that name, with argument names standing at the arguments they name (never more names than arguments) and default values equal to those of a direct call. Every exposed property is read and written by the accessors of its own name, with the type it declares, and an enumeration of which any value is exposed is exposed completely and without duplicates.",
  ["programs"], "every registered method, property and constant of every class", "The test build compiles registrations to nothing, so no test can see a wrong one; it shows only in scripts run in the engine.",
  ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp", "core/activation.cpp", "core/cost.cpp", "modules"], [("registration", "_bind_methods of every class")],
  tech="syntax tree query over the type-checked registrations, kept by substituting the compatibility header that erases them", note=TRUST.replace("the written specifications", "the naming conventions of bound methods and properties"))
p("Y01", "Numerical derivatives and approximations are those of the given function",
  "For every function handed in: first, second and third derivatives (plain and along axes) are its forward difference quotients, with a step whose needed power the real type resolves; the gradient, Hessian, third-order tensor and Laplacian collect them; constant to cubic Taylor approximations (plain and of vectors) add one term per order with factor one over the order's factorial. Newton's, Halley's and inverse quadratic root finding and Euler's method take their defining step as often as asked, and exponential growth is C*exp(k*t).",
  ["inputs"], "every function (taken as an uninterpreted function of its argument), point, expansion point and dimension; root finding for up to two steps, any number of Euler steps", "Tests print the approximations of one function; a lost term or a step that vanishes in single precision is not compared with anything.",
  ["core/numerical_analysis.cpp"], [("derivatives and approximations", "MLPPNumericalAnalysis::num_diff*, jacobian, hessian, third_order_tensor*, laplacian, *_approximation*"), ("iterations", "MLPPNumericalAnalysis::newton_raphson_method, halley_method, inv_quadratic_interpolation, eulerian_methodr, growth_method")])
p("D01", "No call divides an integer by zero",
  "Whatever sizes, strides, batch sizes, counts and settings are passed in and whatever the object's state, no public call divides an integer by zero: values that would are rejected with a report before. Real-valued divisions are not meant.",
  ["inputs", "histories"], "every integer division and remainder in the library, all arguments, object states and operand sizes including empty ones", "Tests pass only sensible batch sizes and strides; a zero ends the whole process with an arithmetic trap.",
  MODELS, [("divisions", "batch counts of all mini batch trainers, window counts of convolution and pooling, batch splitting")],
  tech="abstract interpretation with one obligation per integer division, discharged from path conditions", note=TRUST)
p("R01", "Objects used before they are set up report instead of crashing",
  "Every public operation of a model, network, layer or helper object can be called with valid arguments right after construction, after only its data was given, or after initialisation without layers or training. It either works or reports and returns; it never goes through a data set, weight, layer or output layer that is not there yet.",
  ["histories"], "every public operation of every default constructible class x {default constructed; data given; data given and initialised; constructed from data}, all valid arguments and sizes", "Tests construct every object with data and call operations in the intended order.",
  MODELS, [("guards", "ERR_FAIL_COND(!_initialized), ERR_FAIL_COND(!..is_valid()) at the start of training and evaluation operations; default constructors")],
  tech="abstract interpretation from the constructed state with one obligation per dereference", note=TRUST)

# ---------------------------------------------------------------- not applicable
na("Z01", "Training converges and improves the model",
   "With a suitable learning rate, training lowers the cost from epoch to epoch and ends near an optimum of the data it was given, whichever optimiser is chosen.",
   ["inputs", "histories"], "all data sets, learning rates and epoch counts", "Tests train on a few fixed data sets with fixed settings.",
   ["modules"], [("training loops", "every train_* of the models and networks")],
   "Whether an iteration over the reals descends depends on curvature of the data's cost surface against the learning rate, run-time quantities no static argument in reach bounds; each single step is decided by M02, M03, M04 and N02.")
na("Z02", "Matrix decompositions reproduce the matrix",
   "Eigenvalues and vectors and singular values of a matrix, and determinant, inverse and factors of matrices of any size, satisfy their defining equations.",
   ["inputs"], "all matrices for which the decomposition exists", "Tests check a few fixed small matrices.",
   ["core/mlpp_matrix.cpp", "core/lin_alg.cpp"], [("iterative decompositions", "eigen, svd, qrd, chd, inverse, det")],
   "The iterations end on a numerical threshold and recursive cofactor expansion has no closed form over symbolic sizes (small sizes are decided by L03); an invariant linking the partial result with the operand would need a theorem prover's induction over matrices, not a dataflow argument.")
na("Z03", "Rounding does not change what is computed beyond its order",
   "Results stay within a small multiple of the machine precision of the exact ones, without overflow for moderate operands.",
   ["inputs"], "all finite operands", "Tests compare a few results with a tolerance.",
   ["core", "modules"], [("sums and products in single precision", "all reductions")],
   "Error bounds depend on the condition of run-time data; all closed forms here are over the reals, and no interval analysis bounds unbounded sums of unbounded elements.")
na("Z04", "Order statistics of samples of any length",
   "Median, mode and sorting are right for samples of any length, whatever their order and ties.",
   ["inputs"], "all samples", "Tests use one or two samples.",
   ["core/stat.cpp"], [("sorting", "MLPPStat::median, mode; MLPPVector::sort")],
   "The order statistic is defined through a sort done by an introspective sort template and hash maps of counts; a permutation has no closed form in the abstract domain, so beyond the pinned lengths decided by T02 right and wrong code are equally unknown to it.")
na("Z05", "Data files and texts are read as written",
   "Loading a data file yields every row and column of it with inputs and outputs separated, and the text helpers tokenise, count and vectorise texts as named.",
   ["inputs"], "all well formed files and texts", "Tests load a handful of bundled files.",
   ["core/data.cpp"], [("file loading and text processing", "MLPPData")],
   "Depends on the contents of files and strings as processed by the platform's string and file classes, whose semantics are outside the analysed sources; a string domain strong enough to tell a right split from a wrong one is not in reach.")
na("Z06", "Word-based classifiers, principal components and large clusterings are right",
   "Bernoulli and multinomial naive Bayes classify and principal components project by their definitions; nearest neighbours and k-means hold for data sets of any size.",
   ["inputs", "histories"], "all data sets", "Tests print their results.",
   ["modules/bernoulli_nb/bernoulli_nb.cpp", "modules/multinomial_nb/multinomial_nb.cpp", "modules/pca/pca.cpp", "modules/knn/knn.cpp", "modules/kmeans/kmeans.cpp"],
   [("classification", "model_test, model_set_test, evaluate of these classes")],
   "The Bernoulli and multinomial classifiers keep counts per word in vectors of hash maps, which have no model in the abstract domain, and scale them in ways that match no stated rule (recorded in DESIGN.md), principal components rest on an iteration that ends on a numerical threshold, and for sizes not pinned the sets of neighbours and clusters have no closed form (small sizes: M06, M07); settings, construction, dereferences and integer divisions are decided by S01, S02, R01, B01 and D01.")
na("Z07", "Training always terminates",
   "Every training call returns, at the latest after the configured number of epochs.",
   ["inputs", "histories"], "all data sets and settings, including degenerate ones", "A hang shows only for the input that causes it.",
   ["modules"], [("epoch loops left on a condition", "every train_* of the models and networks")],
   "With no epoch limit reached the loops end on the cost of two epochs being equal, a fixpoint over run-time reals; that the configured number of epochs is respected is part of M02, M03, M04 and N02.")
