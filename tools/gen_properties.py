#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None)))
LM = "pure_sklearn/linear_model/"
p("C01", "Linear classifiers score and label records as the fitted model does",
  "For every converted linear classifier (logistic, ridge, SGD, perceptron, passive-aggressive, linear SVC) and every dense or sparse record, each class score is the dot product of the record with that class's weights plus that class's intercept. The predicted label is the second class exactly when a binary score is greater than zero, and the first highest-scoring class otherwise. Records with a number of features different from the fitted one are rejected with an error.",
  ["inputs", "configurations"], "all weights, intercepts (including none fitted), class labels, dense and sparse records, binary and multi-class models",
  "tests use one data set (iris), one dense full matrix, sparse copies of it without missing keys, and never check ties, zero scores, wrong widths or labels other than 0,1,2",
  [LM + "_base.py", LM + "_logistic.py", LM + "_ridge.py", LM + "_stochastic_gradient.py", LM + "_perceptron.py", LM + "_passive_aggressive.py", "pure_sklearn/svm/_classes.py", "pure_sklearn/base.py"],
  [("decision scores", LM + "_base.py decision_function"), ("labels", LM + "_base.py predict"), ("dot product", "pure_sklearn/base.py dot")],
  observe=["decision_function()", "predict()"])
p("C02", "Linear classifiers return valid probabilities with the model's own link",
  "Probabilities of a converted logistic regression or log-loss SGD model are the sigmoid of the score for binary one-vs-rest models, the normalised sigmoids for multi-class one-vs-rest models, and the softmax of the scores for multinomial models; each row is non-negative and sums to one, and log-probabilities are the logarithms of the probabilities. This holds for finite scores of any magnitude: no overflow, division by zero or NaN (except one-vs-rest when every sigmoid underflows to zero). Models trained without probability support expose no probabilities.",
  ["inputs", "configurations"], "all finite scores, 2 to 4 classes, every multi_class/solver combination, SGD losses",
  "tests compare moderate iris scores only; large scores, where exponentials overflow or underflow, are never reached",
  [LM + "_base.py", LM + "_logistic.py", LM + "_stochastic_gradient.py", "pure_sklearn/base.py"],
  [("link selection", LM + "_logistic.py predict_proba"), ("ovr normalisation", LM + "_base.py _predict_proba_lr"), ("softmax", "pure_sklearn/base.py sfmax"), ("availability", LM + "_stochastic_gradient.py _check_proba")],
  observe=["predict_proba()", "predict_log_proba()"])
p("C03", "Naive Bayes posteriors are the normalised joint likelihoods",
  "For converted Gaussian, multinomial and complement naive Bayes models, the joint log-likelihood of each class is the fitted model's formula (log prior plus Gaussian log-density; dot product with feature log-probabilities plus log prior; complement weights), the predicted label is the first class with the largest one, and posteriors are their normalised exponentials. Posteriors are in [0,1] and sum to one however small the likelihoods are, and log-posteriors are finite whenever the likelihoods are. Records with the wrong number of features are refused.",
  ["inputs", "configurations"], "all parameters with positive variances, all dense records, 1 to 3 classes, likelihoods down to exp(-1e6)",
  "iris rows have few features so likelihoods never underflow; real documents with hundreds of words do",
  ["pure_sklearn/naive_bayes.py", "pure_sklearn/base.py"],
  [("likelihood", "pure_sklearn/naive_bayes.py _joint_log_likelihood"), ("normalisation", "pure_sklearn/naive_bayes.py predict_log_proba")],
  observe=["predict()", "predict_proba()", "predict_log_proba()"])
p("C04", "A decision tree sends each record to the one leaf its values select",
  "In a converted decision or extra tree, each record, dense or sparse (absent entries being zero), is routed from the root to a leaf by going left exactly when the tested feature, taken in single precision as the native library does, is at most the node's threshold. A classifier returns the leaf's class weights normalised to one as probabilities, their logarithms as log-probabilities, and the first class of largest weight as label; a regressor returns the leaf value. Records of the wrong width are refused.",
  ["inputs", "configurations"], "all tree shapes up to the bound, all thresholds, tested features, leaf values and records, including values equal to a threshold",
  "tests only use training rows, which never fall on a threshold and have no zero entries; other routing boundaries are not reached",
  ["pure_sklearn/tree/_classes.py"],
  [("routing", "pure_sklearn/tree/_classes.py _get_leaf_node"), ("leaf to answer", "pure_sklearn/tree/_classes.py _get_pred_from_leaf_node, _get_proba_from_leaf_node")],
  [("children_left_/children_right_/feature_/threshold_/value_", "the tree", "pure_sklearn/tree/_classes.py")],
  ["predict()", "predict_proba()", "predict_log_proba()"])
p("C05", "Forests and bagging average their members over all classes",
  "A converted random forest, extra-trees or bagging classifier returns, for each record and class, the arithmetic mean of its members' probabilities, each member seeing only the features it was trained on in its own order, and a member trained without some class contributing zero to that class. The predicted label is the first class of largest mean probability, and dense and sparse records give the same answer.",
  ["inputs", "configurations"], "all member trees, feature subsets (with repetition and reordering), class subsets seen by members, dense and sparse records",
  "tests never make a bootstrap sample that misses a class, never feed sparse records with absent entries, and use all or three of four features",
  ["pure_sklearn/ensemble/_bagging.py", "pure_sklearn/ensemble/_forest.py", "pure_sklearn/tree/_classes.py"],
  [("averaging", "pure_sklearn/ensemble/_bagging.py predict_proba"), ("feature selection", "pure_sklearn/ensemble/_bagging.py _feat_slice")],
  observe=["predict()", "predict_proba()", "predict_log_proba()"])
p("C06", "Gradient boosting adds scaled trees to the initial score and applies its link",
  "A converted gradient boosting classifier's raw score for each class is the initial model's score (log-odds or log-probability, clipped away from 0 and 1, half the log-odds for exponential loss, zero for a zero initial model) plus the learning rate times the sum of that class's trees. Probabilities are the sigmoid of the score for binary deviance, the sigmoid of twice the score for exponential loss and the softmax of the scores for multi-class deviance, finite and summing to one for scores of any magnitude, and the label is the first most probable class (the second one in a tie under exponential loss, as the native library has it).",
  ["inputs", "configurations"], "all trees, learning rates, initial class priors, records; binary deviance, exponential, multi-class deviance; 2 to 4 classes",
  "the test's exponential branch is never entered (it is guarded by a two-class condition on a three-class target), zero initialisation and extreme scores are not tried",
  ["pure_sklearn/ensemble/_gb.py", "pure_sklearn/ensemble/_gb_losses.py"],
  [("raw score", "pure_sklearn/ensemble/_gb.py _raw_predict"), ("links and initial scores", "pure_sklearn/ensemble/_gb_losses.py")],
  observe=["predict()", "predict_proba()", "predict_log_proba()"])
p("C07", "XGBoost trees are read and evaluated with xgboost's own rules",
  "For a converted xgboost classifier every record is routed in each tree by following the tree's node identifiers: the yes-branch exactly when the value of the named feature (whatever its index) is below the split, both in single precision, the missing-branch when the value is missing, else the no-branch. The probability is the sigmoid of the sum of all leaf values reached plus the model's base score for binary models, and the softmax of the per-class sums for multi-class models, over the boosting rounds xgboost itself would use, and the label is the first most probable class.",
  ["inputs", "configurations"], "all trees (node numbering with gaps, any feature index, missing directions), split values, leaf values, base scores, records including NaN and values equal to a split",
  "tests use four features, default settings and training rows only: no index above 9, no missing value, no pruned tree, no value equal to a split",
  ["pure_sklearn/xgboost/_classes.py", "pure_sklearn/tree/_classes.py"],
  [("reading trees", "pure_sklearn/tree/_classes.py _DecisionTreeBase.__init__; pure_sklearn/xgboost/_classes.py _build_estimators"), ("routing", "pure_sklearn/tree/_classes.py _get_leaf_node"), ("summing", "pure_sklearn/xgboost/_classes.py _predict, _predict_binary")],
  observe=["predict()", "predict_proba()"])
p("C08", "Scalers apply the fitted affine map to every feature, dense or sparse",
  "Converted standard, min-max and max-abs scalers map feature j of every record to (x-mean_j)/scale_j, x*scale_j+min_j and x/scale_j respectively, honouring which of centring and scaling was enabled. For scalers that accept sparse input the result equals scaling the dense form, with shape and absent entries preserved; centring or min-max scaling of sparse data is refused with an error, and records of the wrong width are not silently truncated.",
  ["inputs", "configurations"], "all fitted statistics, all dense and sparse records, all with_mean/with_std settings",
  "the scaler tests call allclose without asserting its result, so they check nothing beyond absence of exceptions",
  ["pure_sklearn/preprocessing/_data.py"], [("transforms", "pure_sklearn/preprocessing/_data.py StandardScalerPure, MinMaxScalerPure, MaxAbsScalerPure")],
  observe=["transform()"])
p("C09", "Normalisation divides each row by its norm and leaves zero rows alone",
  "Normalising divides every entry of a row by that row's L1 norm, Euclidean norm or largest absolute value, so that each non-zero row has norm one and signs are kept, and returns zero rows unchanged. Dense and sparse inputs, row and column direction (dense only) and the optionally returned norms all agree with this, and unsupported norms, axes and combinations are refused.",
  ["inputs", "configurations"], "all rows (negative, zero, absent entries), norms l1/l2/max, axis 0/1, with and without returned norms",
  "tests normalise one fixed 2x3 matrix whose largest absolute values are positive; the transformer tests assert nothing",
  ["pure_sklearn/preprocessing/_data.py", "pure_sklearn/base.py"], [("normalisation", "pure_sklearn/preprocessing/_data.py normalize_pure"), ("zero norms", "pure_sklearn/preprocessing/_data.py _handle_zeros_in_scale")],
  observe=["normalize_pure()", "NormalizerPure.transform()"])
p("C10", "Encoders give every category its own column or code",
  "A converted one-hot encoder sets, for each record and each feature, exactly the column reserved for that feature's value (columns of a feature follow those of all earlier features, in category order) to one and every other to zero; an unknown value yields no column when unknowns are ignored and an error otherwise. A converted ordinal encoder returns the position of the value among the feature's categories and refuses unknown values; wrong feature counts are refused, and the dense and sparse forms agree.",
  ["inputs", "configurations"], "all category lists (numbers, strings), 1 to 4 features, all records with known and unknown values, sparse and dense output",
  "tests use two features, for which wrong column offsets coincide with right ones, and never an unknown value",
  ["pure_sklearn/preprocessing/_encoders.py", "pure_sklearn/preprocessing/_label.py"], [("column offsets", "pure_sklearn/preprocessing/_encoders.py OneHotEncoderPure.transform"), ("unknown values", "pure_sklearn/preprocessing/_encoders.py _transform")],
  observe=["transform()"])
p("C11", "Imputers replace exactly the missing cells and flag exactly those",
  "A converted simple imputer replaces every missing cell (NaN, or equal to the configured marker, including strings and None) by its column's fitted statistic, leaves all other cells alone, drops columns whose statistic is undefined (unless the strategy is constant) and appends the missing flags when asked to. A converted missing indicator returns one flag per selected feature, true exactly for missing cells, and raises for missing values in a feature that had none in training exactly when configured to; records of the wrong width are refused.",
  ["inputs", "configurations"], "all cell patterns of missing/present values, markers (NaN, numbers, strings, None), strategies, statistics, indicator settings",
  "tests never enable the error on newly missing features, never use string or None markers, never have an undefined statistic",
  ["pure_sklearn/impute/_base.py"], [("imputation", "pure_sklearn/impute/_base.py SimpleImputerPure.transform"), ("flags", "pure_sklearn/impute/_base.py MissingIndicatorPure")],
  observe=["transform()"])
p("C12", "Sparse data behaves as the dense matrix it stands for",
  "Converting a dense matrix to the sparse form and back returns the same matrix, and every matrix helper of the package (dot products, element-wise product, element-wise application of functions that map zero to zero, row sums, column selection by valid non-negative positions, shape) gives on sparse input the same result as on its dense equivalent, or refuses the sparse input with an error. Absent entries count as zeros.",
  ["inputs"], "all small matrices with any pattern of zeros and explicit entries, all column selections",
  "tests use a 2x2 matrix without zeros, so absent entries, column renumbering and mismatched patterns never occur",
  ["pure_sklearn/utils.py", "pure_sklearn/base.py"], [("container", "pure_sklearn/utils.py sparse_list"), ("helpers", "pure_sklearn/base.py dot, matmult_same_dim, apply_2d_sparse, apply_axis_2d, slice_column")],
  observe=["todense()", "tosparse()", "helper results"])
p("C13", "Pipelines compose their steps and unions concatenate their outputs",
  "A converted pipeline feeds the records through its transformers in order and answers with the last step applied to the result, skipping pass-through steps, and offers exactly those of predict, predict_proba, predict_log_proba and transform that its last step offers. A converted feature union returns, record by record, the outputs of its transformers side by side in order, each multiplied by its weight when one is given, dropped transformers contributing nothing; dense, sparse and mixed outputs describe the same matrix.",
  ["inputs", "configurations"], "all records, step sequences up to the bound, weights, mixtures of dense and sparse transformer outputs, absent entries",
  "tests use one two-step pipeline, unions of two equally wide transformers, no weights, no pass-through and no mixed outputs",
  ["pure_sklearn/pipeline.py"], [("composition", "pure_sklearn/pipeline.py PipelinePure"), ("concatenation", "pure_sklearn/pipeline.py FeatureUnionPure.transform")],
  observe=["predict()", "predict_proba()", "transform()"])
p("C14", "Feature hashing is MurmurHash3 and adds up colliding tokens",
  "The hash of any token is the signed 32-bit MurmurHash3 (x86, 32 bit) of its UTF-8 bytes for the given seed. The hashing vectoriser puts each token occurrence in column |hash| modulo the number of features, adds one (or minus one for negative hashes when signs alternate) per occurrence so that repeated and colliding tokens accumulate, and applies binary and norm settings to the result.",
  ["inputs", "configurations"], "all byte strings up to the bound (every tail length), all seeds, all feature counts; token multisets with repetitions and collisions",
  "tests hash a dozen fixed words, each at most once per document, in 256 columns",
  ["pure_sklearn/feature_extraction/_hash.py", "pure_sklearn/feature_extraction/text.py"], [("hash", "pure_sklearn/feature_extraction/_hash.py _hash"), ("accumulation", "pure_sklearn/feature_extraction/_hash.py _hashing_transform"), ("vectoriser", "pure_sklearn/feature_extraction/text.py HashingVectorizerPure")],
  observe=["HashingVectorizerPure.transform()"])
p("C15", "Text analysis yields exactly the configured tokens and n-grams",
  "For any document and any analyser setting (word, character or word-bounded character n-grams, n-gram range, lower-casing, accent stripping, stop words, token pattern, bytes or text input), the features extracted are exactly the contiguous n-grams the scikit-learn analyser produces, each with its multiplicity: whitespace runs collapse for character n-grams, words are padded by one space each side and short words counted once for word-bounded ones, stop words are removed before word n-grams are formed.",
  ["inputs", "configurations"], "all documents up to the bounded length over an alphabet covering every character class the analysers distinguish, all n-gram ranges up to the bound, stop-word lists",
  "tests use six short lower-case sentences with the default word unigrams only",
  ["pure_sklearn/feature_extraction/text.py"], [("n-grams", "pure_sklearn/feature_extraction/text.py _word_ngrams, _char_ngrams, _char_wb_ngrams"), ("analysis chain", "pure_sklearn/feature_extraction/text.py _analyze, build_analyzer, decode")],
  observe=["build_analyzer()(doc)", "transform()"])
p("C16", "Count and tf-idf vectors carry the right weight for every vocabulary term",
  "A converted count vectoriser returns for each document and vocabulary term its number of occurrences (or one when binary) in that term's column and ignores unknown terms. The tf-idf transformer and vectoriser multiply each count (1+log(count) when sublinear) by the term's inverse document frequency when enabled and normalise each row when a norm is set, for sparse input of any documents including empty ones, and refuse input whose width differs from the fitted one when inverse document frequencies are enabled.",
  ["inputs", "configurations"], "all documents over a small vocabulary plus unknown terms, all idf values, all binary/sublinear/use_idf/norm settings",
  "tests only use default settings with different norms; binary, sublinear and no-idf modes are never run",
  ["pure_sklearn/feature_extraction/text.py", "pure_sklearn/preprocessing/_data.py"], [("counts", "pure_sklearn/feature_extraction/text.py _count_vocab"), ("weights", "pure_sklearn/feature_extraction/text.py TfidfTransformerPure.transform")],
  observe=["transform()"])
p("C17", "Dictionary vectorisation places each named value in its own column",
  "For every record given as a mapping, a converted dictionary vectoriser puts the value of each known numeric feature in that feature's column and a one in the column of each known name-separator-value pair for string values, ignores unknown features, and leaves all other columns zero (no two entries of a record naming the same column). A single mapping counts as one record, and sparse and dense output describe the same matrix.",
  ["inputs", "configurations"], "all records over small feature names (known, unknown, string-valued), all values, vocabularies and separators",
  "tests use three numeric features and one data set; string values and unknown features are never tried",
  ["pure_sklearn/feature_extraction/_dict_vectorizer.py"], [("placement", "pure_sklearn/feature_extraction/_dict_vectorizer.py transform")],
  observe=["transform()"])
p("C18", "Cosine similarity, cosine distance and linear kernel follow their definitions",
  "The linear kernel of two sets of records is the matrix of their dot products and the cosine similarity the dot products of their unit-normalised rows (zero rows giving zero). Cosine distance is one minus that, always within [0,2] and exactly zero on the diagonal when a set is compared with itself (one argument, or the same object twice); dimension mismatches, flat, ragged and empty arguments and unsupported sparse arguments are refused, and sparse first arguments give the dense result.",
  ["inputs"], "all pairs of small record sets including zero rows, equal rows and opposite rows, one or two arguments",
  "tests draw random positive vectors; negative similarities, zero rows and the one-argument form are never checked",
  ["pure_sklearn/metrics/pairwise.py", "pure_sklearn/preprocessing/_data.py"], [("similarity", "pure_sklearn/metrics/pairwise.py cosine_similarity_pure"), ("distance", "pure_sklearn/metrics/pairwise.py cosine_distances_pure")],
  observe=["linear_kernel_pure()", "cosine_similarity_pure()", "cosine_distances_pure()"])
p("C19", "Predicting and transforming change neither the caller's data nor the model",
  "No prediction or transformation call modifies the records passed in, the converted model (caches it adds on first use aside), or results returned earlier. Consequently the same call repeated, in any order with other calls, gives the same answer.",
  ["histories", "inputs"], "all records and models within the bounds; call sequences of two or three calls on the same model and data",
  "tests call each method once per freshly fitted model and never look at the arguments afterwards",
  ["pure_sklearn/feature_extraction/text.py", "pure_sklearn/preprocessing/_data.py", "pure_sklearn/impute/_base.py", "pure_sklearn/metrics/pairwise.py", "pure_sklearn/ensemble/_gb.py", "pure_sklearn/utils.py"],
  [("fresh results", "every transform/predict method"), ("copy flags", "pure_sklearn/feature_extraction/text.py TfidfTransformerPure.transform; pure_sklearn/preprocessing/_data.py normalize_pure")],
  observe=["arguments, model and earlier results after each call"])
p("C20", "Conversion yields an equivalent, pickle-able, pure-Python model",
  "Every supported fitted estimator converts to its own pure counterpart whose stored data is made only of built-in Python types and the package's own classes, whatever scalar types (for instance NumPy floats) its parameters had. Pickling and unpickling the converted model needs no third-party package and gives a model with identical answers, and later changes to the original estimator do not affect the converted one.",
  ["configurations", "histories"], "all supported estimator kinds, all parameter values within the bounds, NumPy-typed hyper-parameters",
  "no test pickles a converted model, inspects stored types or mutates the original afterwards",
  ["pure_sklearn/map.py", "pure_sklearn/utils.py", "pure_sklearn/ensemble/_gb.py", "pure_sklearn/preprocessing/_data.py", "pure_sklearn/feature_extraction/text.py", "pure_sklearn/feature_extraction/_dict_vectorizer.py"],
  [("class mapping", "pure_sklearn/map.py convert_estimator"), ("type check", "pure_sklearn/utils.py check_types")],
  observe=["convert_estimator()", "pickle round trip"])
p("C21", "Numeric helpers are total and agree with their mathematical definition",
  "The package's exponential, logarithm, sigmoid and softmax helpers return, for every float including infinities, NaN, zero and negative numbers, what NumPy returns for the same function, without raising: exp overflows to infinity and underflows to zero, log of zero is minus infinity and of negatives NaN, the sigmoid stays in [0,1], and softmax of finite numbers is a distribution invariant under adding a constant. Matrix helpers (transpose, flattening, element-wise application and combination, cumulative sum) equal their definitions and refuse mismatched shapes.",
  ["inputs"], "all floats and special values, vectors of 1 to 4 entries, matrices up to the bound",
  "tests check a handful of constants (the logarithm test never calls the logarithm)",
  ["pure_sklearn/base.py"], [("scalar helpers", "pure_sklearn/base.py safe_exp, safe_log, expit, sfmax"), ("matrix helpers", "pure_sklearn/base.py transpose, operate_2d, apply_2d, accumu")],
  observe=["helper results"])
p("C22", "FastText classification ranks labels by softmax of the sentence vector",
  "For a converted supervised fastText model, the prediction for a line of text consists of at most k labels in order of decreasing probability (ties in any order), each with the softmax probability of its output weights against the sentence vector, and none below the threshold. A list of lines gives one such answer per line, lines containing a newline are refused, and scores of any magnitude give finite probabilities.",
  ["inputs", "configurations"], "all matrices, label sets of 1 to 4, k, thresholds, texts over known and unknown words, single lines and lists",
  "tests train one two-label model and never pass a list",
  ["pure_fasttext/FastText.py"], [("ranking", "pure_fasttext/FastText.py _predict"), ("softmax", "pure_fasttext/FastText.py sfmax")],
  observe=["predict()"])
p("C23", "FastText vectors are looked up and averaged as fastText does",
  "A word's vector is its row of the input matrix, or zeros when the word is unknown. A sentence's vector is the mean of the rows of its known words plus the end-of-sentence row for supervised models, and the mean of the unit-normalised vectors of its known words with non-zero norm for unsupervised ones (zeros when there are none), where words are separated exactly by the whitespace and control characters fastText documents and an explicit end-of-sentence token ends a supervised sentence.",
  ["inputs", "configurations"], "all input matrices, vocabularies, words and texts up to the bounded length over an alphabet with every documented separator and look-alikes",
  "tests use four plain sentences of mostly known words separated by spaces",
  ["pure_fasttext/FastText.py"], [("lookup", "pure_fasttext/FastText.py get_word_vector, get_word_id"), ("averaging", "pure_fasttext/FastText.py get_sentence_vector")],
  observe=["get_word_vector()", "get_sentence_vector()", "get_word_id()"])
p("C24", "Each record is answered on its own, in order, whatever its batch",
  "For every converted estimator and transformer the answer for a batch of records is the list of the answers for each record alone, in the same order, one per record; answers for one record do not depend on, nor share storage in a way that lets changes to one affect, those for another.",
  ["inputs", "histories"], "all batches of up to three records within the bounds, every estimator and transformer kind, dense and sparse",
  "tests only compare whole-batch results on one fixed batch with the native library; single-record use, the package's main use case, is not compared",
  ["pure_sklearn/preprocessing/_encoders.py", "pure_sklearn/naive_bayes.py", "pure_sklearn/ensemble/_bagging.py", "pure_sklearn/ensemble/_gb.py", "pure_sklearn/dummy.py", "pure_sklearn/pipeline.py", "pure_sklearn/xgboost/_classes.py"],
  [("row-wise loops", "every predict/transform method")],
  observe=["predict*()", "transform()"])
p("C25", "Unsupported models and malformed input fail loudly",
  "Converting an estimator, strategy, loss, objective, booster, encoder option, fastText model kind or library version the package does not support raises an error instead of producing a model that answers differently from the original. Prediction input that is empty, not a list (a single text for vectorisers), ragged, of another width than the fitted one, or sparse where sparse is unsupported raises an error instead of returning a value (the baseline classifier, which ignores its input, aside).",
  ["configurations", "inputs"], "all unsupported settings among the parameters the package inspects; all non-list, empty or sparse inputs for every estimator kind",
  "tests cover no unsupported configuration and one sparse rejection",
  ["pure_sklearn/utils.py", "pure_sklearn/map.py", "pure_sklearn/dummy.py", "pure_sklearn/ensemble/_gb.py", "pure_sklearn/xgboost/_classes.py", "pure_sklearn/preprocessing/_encoders.py", "pure_sklearn/feature_extraction/text.py", "pure_fasttext/FastText.py"],
  [("conversion checks", "constructors; pure_sklearn/map.py convert_estimator; pure_sklearn/utils.py check_version"), ("input checks", "pure_sklearn/utils.py check_array")],
  observe=["convert_estimator()", "FastText()", "predict*()", "transform()"])
p("C26", "The baseline classifier answers with the class priors",
  "A converted prior-strategy dummy classifier returns for every record, whatever its content, the training class priors as probabilities, their logarithms as log-probabilities, and the first class label of largest prior as prediction, one answer per record.",
  ["inputs", "configurations"], "all priors, class labels (numbers and strings), numbers of classes 1 to 4, batches of up to three records",
  "tests use labels 0,1,2, for which positions and labels coincide",
  ["pure_sklearn/dummy.py"], [("answers", "pure_sklearn/dummy.py predict, predict_proba, predict_log_proba")],
  observe=["predict()", "predict_proba()", "predict_log_proba()"])
p("C27", "Models of unsupported library versions are announced",
  "Every converter of a scikit-learn estimator checks the version the estimator was fitted with: below 0.20, or without a version, it warns that the model may not work and converts it all the same, with the same answers as for a supported version; for later versions it converts without that warning. Gradient boosting fitted below 0.21 is refused. Versions are compared number by number, not as text.",
  ["configurations"], "all versions of two or three numbers of one to three digits, with and without suffix, and no version at all, for every estimator kind alone and nested",
  "tests convert models of the single installed version only",
  ["pure_sklearn/utils.py", "pure_sklearn/map.py", "pure_sklearn/ensemble/_gb.py", "pure_sklearn/tree/_classes.py", "pure_sklearn/pipeline.py"],
  [("version check", "pure_sklearn/utils.py check_version, called by every constructor")],
  observe=["convert_estimator()", "warnings"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: 
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
