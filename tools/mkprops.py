#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long text is reviewable)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))
S = "src/ldaplusplus/"; I = "include/ldaplusplus/"; A = "src/applications/"

p("C01", "Inferred word-topic responsibilities are probability distributions",
  "For every document and every valid model, each of the five inference variants (unsupervised, supervised, fast supervised, multinomial supervised, correspondence supervised) returns responsibilities that are non-negative with one row per topic and one column per vocabulary word, and every column sums to one, except that a column may be entirely zero when no topic gives that word any probability. For the correspondence variant the per-word selection weights it returns are likewise non-negative and sum to one.",
  ["inputs", "configurations"], "All documents (also empty ones), all models with positive alpha and non-negative beta (rows need not be normalised), any number of topics, words and classes, any iteration limits and tolerances.",
  "The tests run two or three random matrices of one shape per variant and never check the columns of the result; zero columns, empty documents, one topic and zero iterations are not sampled.",
  [S+"e_step_utils.cpp", I+"utils.hpp", S+"em/UnsupervisedEStep.cpp", S+"em/SupervisedEStep.cpp", S+"em/FastSupervisedEStep.cpp", S+"em/MultinomialSupervisedEStep.cpp", S+"em/CorrespondenceSupervisedEStep.cpp"],
  [("column normalisation guarded against zero", I+"utils.hpp:normalize_cols"), ("phi updates", S+"e_step_utils.cpp")],
  ["return value of doc_e_step"])
p("C02", "Topic weights equal the prior plus the expected topic counts",
  "Whatever the number of iterations run or the reason for stopping, every inference variant returns, for each topic, a weight equal to that topic's prior plus the sum over words of (word count times that word's responsibility for the topic), evaluated on the responsibilities returned with it, as long as no word of the document is impossible under the model. Inference never changes the document nor the model it was given.",
  ["inputs", "configurations"], "All documents, models, variants, iteration limits (also zero) and tolerances.",
  "The tests only look at whether the bound increases on a few random inputs; none relates the two returned quantities.",
  [S+"e_step_utils.cpp", I+"utils.hpp", S+"em/UnsupervisedEStep.cpp", S+"em/SupervisedEStep.cpp", S+"em/FastSupervisedEStep.cpp", S+"em/MultinomialSupervisedEStep.cpp", S+"em/CorrespondenceSupervisedEStep.cpp"],
  [("gamma update", S+"e_step_utils.cpp:compute_gamma"), ("incremental gamma update", S+"e_step_utils.cpp:compute_supervised_phi_gamma"), ("initial phi and gamma", "doc_e_step of every variant")],
  ["return value of doc_e_step"])
p("C03", "Unsupervised inference is the documented coordinate ascent",
  "Unsupervised inference starts from uniform responsibilities and matching topic weights and repeats: responsibility of topic k for word n is proportional to beta[k,n] times exp(digamma(weight of k)), then topic weights are recomputed from the prior and the responsibilities. It stops exactly when the configured number of iterations is reached or when the mean absolute change of the topic weights since the previous iteration (since zero, before the first) is below the configured tolerance, and it announces exactly one progress event per document.",
  ["inputs", "configurations"], "All documents, models, iteration limits and tolerances.",
  "Existing tests check that the reported bound does not decrease for a few random inputs; a wrong update that still happens to ascend, or a wrong stopping rule, passes.",
  [S+"em/UnsupervisedEStep.cpp", S+"em/AbstractEStep.cpp", S+"e_step_utils.cpp"],
  [("iteration and early stop", S+"em/UnsupervisedEStep.cpp:doc_e_step"), ("convergence test", S+"em/AbstractEStep.cpp:converged"), ("phi update", S+"e_step_utils.cpp:compute_unsupervised_phi")],
  ["return value of doc_e_step", "events dispatched"])
p("C04", "Supervised (sLDA) inference performs the documented coordinate updates",
  "Supervised inference visits the words that occur in the document in index order and, for each, runs the configured number of fixed-point updates: responsibility of topic k proportional to beta[k,n] times exp(digamma(weight of k) + (X_n/N)*eta[k,y] - h_k/(X_n * h.phi_n)), where h gathers, per class, exp(eta[k,c]*X_n/N) times the product over the other words of the document; topic weights follow each word's update and words that do not occur are left untouched. It stops exactly at the iteration limit or when the mean absolute change of the topic weights is below the tolerance, and announces exactly one progress event per document.",
  ["inputs", "configurations"], "All documents with at least one word, labels, models with every occurring word possible under some topic, iteration limits, fixed-point limits and tolerances.",
  "Tests sample one random corpus and only watch the reported likelihood.",
  [S+"em/SupervisedEStep.cpp", S+"e_step_utils.cpp", S+"em/AbstractEStep.cpp"],
  [("coordinate updates", S+"e_step_utils.cpp:compute_supervised_phi_gamma"), ("h for the last word", S+"e_step_utils.cpp:compute_h")],
  ["return value of doc_e_step", "arguments of compute_supervised_phi_gamma"])
p("C05", "Fast supervised (fsLDA) inference follows its documented update",
  "Fast supervised inference repeats: responsibility of topic k for word n is proportional to beta[k,n] times exp(digamma(weight of k) + C*(eta[k,y] - sum over classes of softmax(eta' z)[c]*eta[k,c])), with eta scaled by its largest entry when that is positive and z the average responsibility over the document, then recomputes the topic weights. The weight C is constant, or its power by the number of finished epochs when exponential decay is selected; stopping and the single progress event per document follow the same rule as unsupervised inference, and a document without words keeps the uniform responsibilities.",
  ["inputs", "configurations", "histories"], "All documents (also empty), labels, models, weights, decay modes, epochs seen, iteration limits and tolerances.",
  "Tests sample random inputs of one shape and compare bounds; decay, empty documents, non-positive eta and stopping are not pinned down.",
  [S+"em/FastSupervisedEStep.cpp", S+"e_step_utils.cpp", S+"em/AbstractEStep.cpp"],
  [("phi update", S+"e_step_utils.cpp:compute_supervised_approximate_phi"), ("weight", S+"em/FastSupervisedEStep.cpp:get_weight")],
  ["return value of doc_e_step"])
p("C06", "Multinomial and correspondence inference follow their documented updates",
  "Multinomial supervised inference makes the responsibility of topic k for word n proportional to beta[k,n] times exp(digamma(weight of k)) times eta[k,y] to the power of the eta weight; correspondence inference makes it proportional to beta[k,n] exp(digamma(weight of k)) exp(tau_n log eta[k,y]) and then the selection weight tau_n of word n proportional to exp(sum over k of responsibility times log eta[k,y]), starting from uniform selection weights. Both recompute the topic weights afterwards, stop exactly at the iteration limit or when the mean absolute change of the topic weights is below the configured tolerance, and announce one progress event per document.",
  ["inputs", "configurations"], "All documents, labels, models with positive eta entries, eta weights, iteration limits and tolerances.",
  "Tests sample random inputs of one shape and compare bounds only.",
  [S+"em/MultinomialSupervisedEStep.cpp", S+"em/CorrespondenceSupervisedEStep.cpp", S+"e_step_utils.cpp", S+"em/AbstractEStep.cpp"],
  [("updates", S+"e_step_utils.cpp:compute_supervised_multinomial_phi, compute_supervised_correspondence_phi, compute_supervised_correspondence_tau")],
  ["return value of doc_e_step"])
p("C07", "Semi-supervised learning treats labelled and unlabelled documents apart",
  "In semi-supervised mode a document with a negative label is inferred by the unsupervised step and contributes only to the topics, never to the classifier; any other document is inferred by the supervised step and contributes to both. Finishing an epoch reaches both inference steps once, and every event either of them raises is forwarded exactly once while the composite exists and no longer afterwards.",
  ["inputs", "histories"], "All interleavings of labelled and unlabelled documents, all models.",
  "No existing test uses the semi-supervised steps at all.",
  [S+"em/SemiSupervisedEStep.cpp", S+"em/SemiSupervisedMStep.cpp", S+"em/FastSupervisedMStep.cpp", S+"Document.cpp"],
  [("dispatch on the label", S+"em/SemiSupervisedEStep.cpp:doc_e_step, "+S+"em/SemiSupervisedMStep.cpp:doc_m_step"), ("event forwarding", S+"em/SemiSupervisedEStep.cpp")],
  ["return value of doc_e_step", "model after m_step", "events dispatched"])
p("C08", "Topic re-estimation equals the normalised expected word counts",
  "After an epoch over any sequence of documents the new topic-word matrix is, row by row, the accumulated (responsibility times word count) over exactly the documents of that epoch divided by the row's total, so every row with any expected count is a probability distribution, and a topic with none becomes an all-zero row rather than an undefined one. Statistics of finished epochs never leak into the next, and alpha and the classifier parameters are left untouched.",
  ["inputs", "histories"], "All finite sequences of documents and epochs, all responsibilities.",
  "Tests run a single epoch on random data; multi-epoch histories and topics without mass are not covered.",
  [S+"em/UnsupervisedMStep.cpp", I+"em/UnsupervisedMStep.hpp"],
  [("accumulation", S+"em/UnsupervisedMStep.cpp:doc_m_step"), ("normalise and reset", S+"em/UnsupervisedMStep.cpp:m_step")],
  ["model after m_step"], [("b_", "expected word counts of the running epoch", I+"em/UnsupervisedMStep.hpp")])
p("C09", "Multinomial and correspondence re-estimation is exact and per epoch",
  "After an epoch both steps set the topic-word matrix to the row-normalised accumulated responsibilities (times word counts, and times the selection weights for the correspondence variant) and the topic-class matrix to the row-normalised accumulated per-class totals plus the smoothing (mu - 1), where each document counts only for its own class. They report once the expected log probability of the labels of that epoch, and start the next epoch from zero.",
  ["inputs", "histories"], "All finite sequences of labelled documents and epochs, all responsibilities, selection weights and mu.",
  "Tests run one epoch of random data and only check the row sums.",
  [S+"em/MultinomialSupervisedMStep.cpp", S+"em/CorrespondenceSupervisedMStep.cpp", I+"utils.hpp"],
  [("accumulate", "doc_m_step"), ("normalise, report, reset", "m_step")],
  ["model after m_step", "events dispatched"])
p("C10", "Batch classifier training uses each document's own statistics and label",
  "At the end of an epoch the batch supervised steps (fast and second-order) train the classifier on exactly the documents of that epoch: example d pairs the average topic assignment of the d-th document, (topic weight minus prior) normalised by the document length, with that document's label, and for the second-order step with the outer product of its expected topic counts divided by the squared length. The topic-word matrix is re-estimated as in the unsupervised case, nothing of earlier epochs survives even when epochs differ in length, and training stops as soon as the iteration limit is reached or the relative improvement is not above the tolerance.",
  ["inputs", "histories"], "All finite sequences of documents and epochs (growing or shrinking), document lengths, labels.",
  "Tests run fixed-size epochs on random data and check only that something changed.",
  [S+"em/FastSupervisedMStep.cpp", S+"em/SupervisedMStep.cpp", I+"em/FastSupervisedMStep.hpp", I+"em/SupervisedMStep.hpp"],
  [("buffers grown and shrunk", "doc_m_step / m_step"), ("training", "m_step")],
  ["model after m_step", "events dispatched"], [("expected_z_bar_, y_, variance_z_bar_, docs_", "training examples of the epoch", I+"em/SupervisedMStep.hpp")])
p("C11", "Online training updates the model exactly once per mini-batch",
  "The online step leaves the model untouched except when the number of documents seen since the last update reaches the mini-batch size; then it replaces the topic-word matrix by beta_weight times itself plus (1 - beta_weight) times the row-normalised expected counts accumulated so far, moves the classifier by momentum times the previous move minus learning rate times the gradient of the regularised, class-weighted logistic loss of exactly that mini-batch, and reports the resulting log likelihood once. Calling the end-of-epoch step with an incomplete mini-batch changes nothing.",
  ["inputs", "histories"], "All document sequences and epoch boundaries, mini-batch sizes >= 1, weights, momentum, learning rates.",
  "Tests use one mini-batch size and check only that parameters changed.",
  [S+"em/FastOnlineSupervisedMStep.cpp", I+"em/FastOnlineSupervisedMStep.hpp", S+"optimization/MultinomialLogisticRegression.cpp"],
  [("counting and update", S+"em/FastOnlineSupervisedMStep.cpp")],
  ["model after every doc_m_step / m_step", "events dispatched"])
p("C12", "Classifier objectives are the documented losses and their exact gradients",
  "For every data set, label vector, class weights, penalty and parameter matrix the value of the multinomial logistic objective and of its second-order variant is the documented regularised weighted negative log likelihood, and the reported gradient is the exact partial derivative of that value with respect to every entry. Without explicit class weights each class is weighted by (number of examples)/(number of classes times examples of that class).",
  ["inputs"], "All matrices X, variances, labels in range, weights, penalties and parameters of any size (second-order variant: where its expanded normaliser is positive, so that the value is defined); the number of classes of the default weights is the largest label plus one.",
  "Tests compare a finite-difference quotient on a handful of random points with loose tolerance.",
  [S+"optimization/MultinomialLogisticRegression.cpp", S+"optimization/SecondOrderLogisticRegressionApproximation.cpp"],
  [("value and gradient", "both classes"), ("class weights", "constructors")],
  ["return value of value()", "output of gradient()"])
p("C13", "Gradient descent never worsens the objective and reports it faithfully",
  "Along a descent direction the backtracking line search returns the objective value at the point it moved to, which satisfies the sufficient-decrease condition and is therefore never above the starting value; the constant-step search moves by exactly its step times the direction and returns the value there. Gradient descent evaluates the callback with the value at the current point and consecutive iteration numbers from zero, takes one step along the gradient per accepted callback, and stops exactly when the callback refuses.",
  ["inputs", "histories"], "All objectives, starting points, line-search parameters and callbacks.",
  "Tests minimise a few logistic problems.",
  [I+"optimization/GradientDescent.hpp"],
  [("Armijo backtracking", I+"optimization/GradientDescent.hpp:ArmijoLineSearch::search"), ("iteration", I+"optimization/GradientDescent.hpp:GradientDescent::minimize")],
  ["return value of search()", "x0 after search()/minimize()", "callback arguments"])
p("C14", "Reported likelihoods are the documented variational bounds",
  "The likelihood reported for a document is exactly the documented variational bound for its variant: the common Dirichlet, topic-assignment, word and entropy terms, plus the label terms of the supervised, multinomial or correspondence variant. Words that do not occur in the document never influence it through their responsibilities.",
  ["inputs"], "All documents (at least one word occurrence for the correspondence variant), labels, models, variational parameters.",
  "Tests only compare the sign of differences between successive bounds.",
  [S+"e_step_utils.cpp"],
  [("bounds", S+"e_step_utils.cpp:compute_*_likelihood")],
  ["return value of compute_*_likelihood"])
p("C15", "Transform is independent of worker count and thread schedule",
  "For every number of workers (at least one) and every thread schedule, column i of the transformed data is the topic-weight vector inferred for column i of the input under the current model, with one column per document and one row per topic. The model is not changed and all workers have ended when the call returns.",
  ["schedules", "inputs", "configurations"], "All interleavings of the workers and the calling thread, all worker counts >= 1, all inputs.",
  "Tests run one schedule on a small input and compare nothing column by column.",
  [S+"LDA.cpp", I+"LDA.hpp", S+"Document.cpp"],
  [("index travels with the job and the result", S+"LDA.cpp:doc_e_step_worker, extract_vp_from_queue, transform")],
  ["return value of transform"], [("queue_in_, queue_out_", "pending jobs and finished results", I+"LDA.hpp")])
p("C16", "Every epoch uses every document exactly once, then updates the model",
  "One epoch infers every document of the corpus exactly once and passes each result to the maximization step together with the very document it was inferred from; afterwards, with all workers ended, it finishes the inference step, performs the maximization once and announces the epoch exactly once with the updated model, in that order. Events of the workers reach listeners on the calling thread before the epoch is announced. Fitting runs exactly the configured number of such epochs, each over a freshly shuffled corpus.",
  ["schedules", "inputs", "histories"], "All interleavings, corpora (also of one document), worker counts >= 1 and iteration counts.",
  "Tests fit small corpora on one schedule and look at the final model only.",
  [S+"LDA.cpp", I+"LDA.hpp"],
  [("job queue, result queue, ordering", S+"LDA.cpp:partial_fit")],
  ["calls received by the steps", "events dispatched"])
p("C17", "Shared job, result and event queues are race free and deadlock free",
  "Every access to the job queue, the result queue and the listener and event lists of the thread-safe dispatchers made while other threads may use them happens under the lock that protects it, and no lock is held while user code (inference, maximization or listeners) runs. A consumer waiting for a result is always woken when one is published, and no two threads can wait for each other's lock.",
  ["schedules", "histories"], "All interleavings of workers, the coordinating thread and threads that add or remove listeners or dispatch events.",
  "A test run sees one interleaving; races and lost wake-ups need particular ones.",
  [S+"LDA.cpp", S+"events/Events.cpp", I+"utils.hpp"],
  [("mutexes and condition variable", S+"LDA.cpp"), ("mutexes", S+"events/Events.cpp"), ("locked generator", I+"utils.hpp:ThreadSafePRNG")],
  ["absence of data races and hangs"])
p("C18", "Predictions are the highest linear score of the average topic assignment",
  "The decision score of class c for a document is the inner product of the class's weights with the document's average topic assignment, (topic weights minus prior) divided by their sum, and the predicted label is the class with the highest score, one per document in input order. Transforming and predicting together gives the same topic weights and labels as doing so separately.",
  ["inputs"], "All trained models and all documents with at least one word.",
  "Tests check the accuracy of one small model.",
  [S+"LDA.cpp"],
  [("scores", S+"LDA.cpp:decision_function"), ("argmax", S+"LDA.cpp:predict")],
  ["return values"])
p("C19", "Shuffling a corpus keeps documents, labels and counts together",
  "Shuffling permutes the order in which a corpus presents its documents: after any number of shuffles a corpus of n columns still presents each of its n documents exactly once, each with its own words and its own label, and its size does not change; before any shuffle document i is column i. The prior reported for a class is the fraction of the labelled documents that carry it, also when unlabelled (negative) documents are present.",
  ["inputs", "histories"], "All data matrices, label vectors (also with negative labels), seeds and numbers of shuffles.",
  "Tests shuffle one small matrix with one seed.",
  [S+"Document.cpp", I+"Document.hpp"],
  [("index permutation", S+"Document.cpp:CorpusIndexes"), ("priors", S+"Document.cpp:EigenClassificationCorpus")],
  ["at(i), size(), get_prior(y)"])
p("C20", "Matrices survive the numpy format round trip",
  "For every matrix or vector of any supported scalar type, shape and storage order, writing it in numpy format produces a well-formed version 1.0 file (magic, little-endian header length, padded header naming type, order and shape, raw data) and reading it back yields the same shape and entries. Reading a file written in the other byte order or in the other storage order yields the same values, consecutive arrays in one stream are read back one by one, and an array of another scalar type or of a later format version is refused with an error.",
  ["inputs"], "All scalar types, shapes (also zero-sized), storage orders, byte orders, values.",
  "Tests round-trip a few random shapes of native byte order.",
  [I+"NumpyFormat.hpp"],
  [("writer", I+"NumpyFormat.hpp:NumpyOutput operator<<"), ("reader", I+"NumpyFormat.hpp:NumpyInput operator>>"), ("byte swap", I+"NumpyFormat.hpp:swap_endianess")],
  ["stream contents", "converted matrix"])
p("C21", "Saved models load back unchanged and snapshots follow their schedule",
  "A saved model loads back with the same alpha, beta and eta. With snapshots every s epochs, exactly the epochs s, 2s, 3s, ... are saved, each with the model of that epoch, under the path followed by an underscore and the epoch number padded to three digits.",
  ["inputs", "histories"], "All models, paths, snapshot intervals >= 1 and event sequences.",
  "No existing test exercises the applications' input/output code.",
  [A+"lda_io.cpp", A+"SnapshotEvery.cpp", I+"NumpyFormat.hpp"],
  [("save and load order", A+"lda_io.cpp"), ("snapshot schedule", A+"SnapshotEvery.cpp")],
  ["files written"])
p("C22", "Events reach every registered listener exactly once and in order",
  "An event dispatched is delivered exactly once, in dispatch order, to every listener registered at the time it is processed and to no listener removed before the processing began; the plain dispatcher delivers immediately, the thread-safe one when events are processed, and the same-thread one immediately when used from its own thread. Removing a listener that is not registered, or several at once, affects no other listener, and a listener added again after its removal is registered. Listeners may add, remove and dispatch while they are notified.",
  ["histories", "schedules"], "All sequences of add, remove, dispatch and process operations.",
  "There are no tests of the dispatchers; removal of the first listener is never exercised.",
  [S+"events/Events.cpp", I+"events/Events.hpp"],
  [("delivery", S+"events/Events.cpp")],
  ["calls received by listeners"])
p("C23", "Model initialisation yields valid parameters",
  "Random and seeded initialisation with K topics set every prior entry to 1/K and give a topic-word matrix with K rows, one column per word, non-negative entries and rows that sum to one (leaving aside the improbable event that every random number drawn for a row is exactly zero); seeded rows are strictly positive, being one plus the word counts of the documents drawn, normalised. The result depends on the arguments alone: the same seed, sizes and corpus give the same topics every time. Classifier initialisation gives one row per topic and one column per class, all zero or all 1/(number of classes), and is refused with an error while no topics exist.",
  ["inputs"], "All sizes >= 1, seeds and corpora.",
  "Tests build a handful of models and do not inspect the initial parameters.",
  [S+"LDABuilder.cpp", I+"utils.hpp"],
  [("initialisers", S+"LDABuilder.cpp")],
  ["builder's model parameters"])
p("C24", "The builder assembles exactly the configured trainer or refuses",
  "A trainer built from the builder runs with exactly the iteration count, worker count, inference step, maximization step and model that were last configured before building, also after it is moved, every setting of a convenience method reaching the parameter of the same meaning. Building is refused with an error when the topics were never initialised, or when the last configured inference or maximization step is a supervised one and the classifier parameters were never initialised.",
  ["configurations", "histories"], "All sequences of builder calls and argument values.",
  "Tests use a few builder chains with default arguments.",
  [S+"LDABuilder.cpp", I+"LDABuilder.hpp"],
  [("setters and factories", S+"LDABuilder.cpp, "+I+"LDABuilder.hpp"), ("guards", I+"LDABuilder.hpp:operator LDA<Scalar>")],
  ["configuration of the built object", "exceptions"])
p("C25", "The fast exponential and the digamma stay within their error bounds",
  "For every finite argument the fast exponential reads inside its table, is positive, equals 1 at 0, is the reciprocal of its value at the negated argument, and its logarithm differs from the argument by at most max(1,|x|)/1000 up to |x| = 100; beyond that it is the library exponential (or its reciprocal), up to overflow and underflow. For every positive argument the digamma approximation satisfies psi(x+1) = psi(x) + 1/x below 7 and equals the documented asymptotic series from there on.",
  ["inputs"], "All finite arguments (positive ones for digamma).",
  "Tests never compare these functions with the true values.",
  [I+"utils.hpp"],
  [("table lookup and repeated squaring", I+"utils.hpp:fast_exp"), ("recurrence and series", I+"utils.hpp:digamma")],
  ["return values"])
p("C26", "Matrix helpers compute exactly what they document and never divide by zero",
  "Normalising rows or columns divides every row or column by its own sum and leaves those that sum to zero unchanged; the scaled sums add to the output every row or column times its weight, skipping zero weights; the product of non-zeros multiplies exactly the non-zero entries; reshaping copies a matrix to a vector and back column by column. Nothing else is written and every element is accessed within bounds.",
  ["inputs"], "All matrices and vectors of any size, also empty ones.",
  "Tests do not exercise these helpers directly.",
  [I+"utils.hpp"],
  [("helpers", I+"utils.hpp")],
  ["outputs"])
with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P))
