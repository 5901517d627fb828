# The properties (source of properties.jsonl and MANIFEST.json, see tools/gen.py) and the harness that decides each.
HARNESS = {
    "bloom": {},
    "cuckoo": {},
    "ltc": {},
    "reservoir": {},
    "chained": {},
    "mcnn": {},
    "metrics": {},
    "bayes": {},
    "mlp": {},
    "hoeffding": {"parts": 4},
    "mondrian": {"parts": 4},
    "coarse": {"parts": 4},
    "utils": {},
    "indep": {"parts": 4},
    "confine": {"parts": 8, "workers": 3, "flags": ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=alignment,signed-integer-overflow,shift,enum,bool,float-divide-by-zero", "-fno-sanitize-recover=all"]},
    "prior": {"parts": 4},
    "copy": {"parts": 4},
    "pure": {"parts": 4},
    "types": {"parts": 4},
}
PROPS = {}
def P(id, title, harness, statement, over, text, why, files, mech, observe, bounds, note, assumptions=(), state=()):
    PROPS[id] = dict(title=title, harness=harness, statement=statement, over=over, text=text, why=why, files=files,
                     mech=[dict(name=m[0], where=m[1]) for m in mech], observe=observe, bounds=bounds, note=note,
                     assumptions=list(assumptions), state=list(state))

B = "src/bloom_filter.hpp"
P("C01", "Bloom filter: no false negatives", "bloom",
  "After any sequence of additions, lookups and clears, a Bloom filter answers true for every element added since the last clear. This holds for both the pointer and the value forms of each operation, for any number of hash functions and any filter size.",
  ["histories", "inputs", "configurations"],
  "every sequence of add/lookup/clear operations, every choice of hash values (including colliding and extreme indexes), every filter size and number of hash functions",
  "test_bloom.cpp adds a handful of integers to one filter with one set of hash functions; a bit lost for a particular index, size or number of functions is not sampled.",
  [B], [("set a bit per hash function, test all of them", B + " add/lookup/set_bit_to_one/get_bit")], ["BloomFilter::add", "BloomFilter::lookup", "BloomFilter::clear"],
  "19 configurations (1..131080 indexes, 1..12 hash functions, 3 element types); 2-6 elements; all operation sequences to a fixpoint of the state space; all hash tables over {first, middle, last index} for the small filters",
  "Exhaustive over all operation histories of the listed configurations (the search reaches a fixpoint). Trusts the explorer and g++.",
  ["hash functions return an index below the filter size, as the API requires"])
P("C02", "Bloom filter: answers are exactly those of the index set", "bloom",
  "A lookup answers true if and only if every index given by the hash functions for that element is on, where the on indexes are exactly those of the elements added since the last clear (none after construction or clear) together with those of the array given to set. Lookups change nothing.",
  ["histories", "inputs", "configurations"],
  "every sequence of add/lookup/clear/set operations, every choice of hash values, every filter size and number of hash functions",
  "The tests check a few negative lookups; they cannot show that no operation turns on (or off) an unrelated index, for all histories and sizes.",
  [B], [("bit array updated one index at a time", B + " set_bit_to_one/get_bit/clear/set")], ["BloomFilter::lookup", "BloomFilter::set", "BloomFilter::clear"],
  "as C01 plus set() with all-zero, all-one and alternating arrays; fixpoint reached",
  "Exhaustive over all histories of the listed configurations; every lookup compared with a boolean array.",
  ["set() receives one byte (0 or 1) per index, as the current layout requires"])

K = "src/cuckoo_filter.hpp"
P("C03", "Cuckoo filter: no false negatives", "cuckoo",
  "As long as no addition has been refused since the last clear, a cuckoo filter answers true for every element that has been added more often than removed. Relocations of other fingerprints caused by later additions never lose an element.",
  ["histories", "inputs", "configurations"],
  "every sequence of add/remove/lookup/clear, every outcome of the random draws (choice of bucket, choice of evicted entry), every fingerprint width and bucket geometry",
  "The tests use one geometry, one hash and one random stream; an eviction chain of a given shape or an entry at a given bit offset is not reached.",
  [K], [("cuckoo eviction loop", K + " add"), ("bit-packed entries", K + " get_entry/set_entry")], ["CuckooFilter::add", "CuckooFilter::lookup", "CuckooFilter::remove"],
  "geometries from 1x1 to 2048x4 and 131072x1, entries of 1..8 bits; all histories to a fixpoint or to the stated depth; first 6 (quick) / 10 (thorough) random answers of each operation free, later ones follow 3 policies",
  "Bounded-exhaustive on the real code under an enumerated random source.",
  ["bucket_count is a power of two, fingerprints differ from the empty value and fit in the entry width (documented preconditions)", "elements are removed only if they were added"])
P("C04", "Cuckoo filter: membership is an exact multiset of fingerprints", "cuckoo",
  "While no addition has been refused, a lookup answers true if and only if some stored element has the same fingerprint and the same pair of candidate buckets; each addition stores exactly one copy and each removal of a stored element takes away exactly one copy, of that element and no other. Removing an element that is not stored changes nothing.",
  ["histories", "inputs", "configurations"],
  "every sequence of add/remove/lookup/clear including duplicates, every random outcome, every geometry and width",
  "Tests never add duplicates, remove them one by one, or look up elements that share a bucket but not a fingerprint.",
  [K], [("search in both candidate buckets", K + " search"), ("remove clears one entry", K + " remove")], ["CuckooFilter::add", "CuckooFilter::lookup", "CuckooFilter::remove"],
  "as C03",
  "Bounded-exhaustive; every lookup of the alphabet compared with a multiset of (fingerprint, bucket pair) classes after every operation.",
  ["as C03"])
P("C05", "Cuckoo filter: add reports truthfully and a refusal costs one entry", "cuckoo",
  "An addition returns true if and only if the fingerprint has been stored without losing any other; it always succeeds when a candidate bucket of the element still has a free entry. When it returns false, exactly one fingerprint of the filter (possibly the new one) is missing and every other element is still found.",
  ["histories", "inputs", "configurations"],
  "every sequence of operations up to a full filter and beyond, every random outcome",
  "The tests never fill a filter, so neither the refusal nor the state after it is observed.",
  [K], [("500 evictions then give up", K + " add")], ["CuckooFilter::add", "CuckooFilter::lookup"],
  "geometries small enough to be filled (1..16 entries), all histories; long eviction runs follow 3 policies after the free answers",
  "Bounded-exhaustive.",
  ["as C03"])
P("C06", "Cuckoo filter: starts and clears to empty for any empty marker", "cuckoo",
  "A new filter, and a filter after clear, contains no element: every lookup answers false, and the full capacity is available again. This holds for every value of the empty marker, every entry width from 1 to 8 bits and every geometry, whatever the filter contained before.",
  ["histories", "inputs", "configurations"],
  "every history before the clear, every empty marker, every width and geometry",
  "Tests use the default marker 0 only, on a zero-initialised filter.",
  [K], [("clear writes the marker in each entry", K + " CuckooFilter()/clear")], ["CuckooFilter::CuckooFilter", "CuckooFilter::clear", "CuckooFilter::lookup", "CuckooFilter::add"],
  "widths 1..8 x several markers (0, all ones, others) x geometries; all histories of the alphabet, clear after each",
  "Bounded-exhaustive.",
  ["as C03"])

L = "src/ltc.hpp"
P("C07", "LTC: every sample is within epsilon of the compressed signal", "ltc",
  "For every sample given to the compressor, the straight line between the two consecutive transmitted points whose timestamps surround it passes within epsilon of the sample's value. With an integral value type the bound is epsilon plus less than one unit, because transmitted values are whole numbers.",
  ["histories", "inputs", "configurations"],
  "every sequence of samples with increasing timestamps, every epsilon, element type, timestamp type, value range and time unit",
  "The tests replay one recorded signal; the error bound must hold for every shape of signal.",
  [L], [("upper/lower slope limits", L + " need_transmit/update"), ("transmitted value is the middle of the limits", L + " add")], ["LTC::add", "LTC::get_value_to_transmit"],
  "all sequences of up to 8 (quick) / 10 (thorough) samples over value and gap menus, for 12+ configurations; lassos of 600 samples",
  "Bounded-exhaustive over sample sequences; each transmitted segment is checked against all samples it covers.",
  ["values stay inside the declared range", "timestamps strictly increase"])
P("C08", "LTC: transmitted points are well formed", "ltc",
  "The first transmitted point is the first sample. The timestamps of the transmitted points strictly increase and each is the timestamp of a sample given before the one that caused the transmission, and the retrieved point stays available unchanged until the next transmission. Time only matters through differences: shifting all timestamps by a constant shifts the transmitted timestamps and leaves the values unchanged.",
  ["histories", "inputs", "configurations"],
  "every sequence of samples, every configuration, shifted copies of each sequence",
  "The tests compare a few outputs of one signal.",
  [L], [("last_transmit_point handed over", L + " add/get_value_to_transmit")], ["LTC::add", "LTC::get_value_to_transmit"],
  "as C07; two instances fed the same samples with timestamps shifted",
  "Bounded-exhaustive.", ["as C07"])
P("C09", "LTC: nothing is transmitted while one line still fits", "ltc",
  "A sample triggers a transmission only if no straight line starting at the last fixed point passes within epsilon of all the samples received since (within the declared value range), and it does trigger one in that case. In particular a signal that is a straight line is never cut.",
  ["histories", "inputs", "configurations"],
  "every sequence of samples and every configuration",
  "Compression (or the lack of it) is only observed on one recorded signal.",
  [L], [("intersection of slope intervals", L + " need_transmit")], ["LTC::add"],
  "as C07; the decision at every sample compared with the exact interval of feasible slopes",
  "Bounded-exhaustive; decisions closer than rounding error to the boundary are accepted either way.", ["as C07"])

R = "src/reservoir_sampling.hpp"
P("C10", "Reservoir sampling: the sample holds distinct stream elements", "reservoir",
  "After n additions the first min(n, size) slots hold elements of the stream at distinct positions, the first elements fill the slots in order, each addition changes at most the slot whose index it returns (-1: no change), and the count equals the number of elements seen. Indexes are always inside the sample, including when the random source returns exactly 0 or 1.",
  ["histories", "inputs", "configurations"],
  "every outcome of the random source (0 and 1 included) over any stream length, any sample size and element type",
  "The tests draw pseudo-random numbers that never hit the extremes and check one size.",
  [R], [("sample_index", R + " ReservoirSampling")], ["ReservoirSampling::add", "ReservoirSampling::sample_index", "ReservoirSampling::operator[]", "ReservoirSampling::count"],
  "sizes 1..5, 9, 64, 300; every draw from {0, grid, 1-2^-53, 1}; depth up to 3x size + lassos across 70000 additions",
  "Bounded-exhaustive over the answers of the random source.",
  ["the random function returns values in [0, 1]"])
P("C11", "Reservoir sampling: every subset is equally likely", "reservoir",
  "With independent uniform random numbers, after n additions every subset of the stream of the sample's size is equally likely to be the content of the sample; each element of the stream is in it with probability size/n.",
  ["inputs", "histories", "configurations"],
  "the exact distribution over all outcomes of the random source, for every stream length and sample size up to a bound",
  "A statistical test on pseudo-random draws cannot tell a small bias from noise; the law is exact here.",
  [R], [("threshold size/(n+1) and uniform slot", R + " sample_index")], ["ReservoirSampling::add"],
  "sizes 1..4, streams up to 7-9 elements; the uniform law is represented by a grid of M equally likely points where every threshold falls between two points, so the probabilities are exact",
  "Exact probabilities by exhaustive enumeration of the random source on a grid.",
  ["the random function is uniform and its calls are independent"])
P("C12", "Exponential reservoir: content integrity", "reservoir",
  "The exponential reservoir always accepts the new element: it is in the slot whose index is returned right after the addition, the other slots are unchanged, the used slots are a prefix that grows one by one up to the size and never shrinks, and the count is the number of used slots. This holds when the random source returns exactly 0 or 1.",
  ["histories", "inputs", "configurations"],
  "every outcome of the random source over any stream length and any size",
  "Tests use pseudo-random numbers that never return the extremes.",
  [R], [("sample_index", R + " ExponentialReservoirSampling")], ["ExponentialReservoirSampling::add", "ExponentialReservoirSampling::count"],
  "as C10", "Bounded-exhaustive.", ["the random function returns values in [0, 1]"])
P("C13", "Exponential reservoir: exact replacement law", "reservoir",
  "With k of the n slots in use, a new element replaces an existing one with probability k/n, each of the k being equally likely, and takes a new slot otherwise; hence the content follows the exponential bias law exactly.",
  ["inputs", "histories", "configurations"],
  "the exact distribution over all outcomes of the random source, for every size and stream length up to a bound",
  "No statistical assertion exists in the tests.",
  [R], [("filling ratio", R + " ExponentialReservoirSampling::sample_index")], ["ExponentialReservoirSampling::add"],
  "sizes 1..4, streams up to 8; exact distribution compared with a reference chain",
  "Exact probabilities by enumeration.", ["as C11"])
CH = "src/chained_reservoir.hpp"
P("C14", "Chained reservoir: slots hold received elements", "chained",
  "After n additions the first min(n, size) slots hold elements that were received, the first elements fill the slots in order, and an addition changes a slot only to put the new element in it. Every element waiting behind a slot is newer than the one shown, and successive discards show ever newer elements, each one with the value it was given.",
  ["histories", "inputs", "configurations"],
  "every outcome of the random source, every interleaving of additions and discards, any size",
  "Tests use one random stream and check a few indexes.",
  [CH], [("chains of successors", CH + " add/push_on_chain/clear_chain")], ["ChainedReservoirSampling::add", "ChainedReservoirSampling::operator[]", "ChainedReservoirSampling::obsolete"],
  "sizes 1..4 (and 20 by lasso); all answers of the random source from {0, grid, 1-2^-53, 1}; depth 7-9",
  "Bounded-exhaustive.", ["timestamps are positive and increase", "the random function returns values in [0, 1]"])
P("C15", "Chained reservoir: inclusion is uniform", "chained",
  "With independent uniform random numbers and no discard, after n additions every received element occupies a given slot with the probability of an unbiased sample: each of the n elements is expected in size/n slots, for every n. The element that will replace another when it is discarded is any of the `size` elements received after it, with equal probability.",
  ["inputs", "histories", "configurations"],
  "the exact distribution over all outcomes of the random source",
  "No statistical assertion exists in the tests; the bias is invisible in a handful of draws.",
  [CH], [("threshold size/(n+1), uniform slot", CH + " add")], ["ChainedReservoirSampling::add", "ChainedReservoirSampling::operator[]"],
  "sizes 1..4, streams up to 7; exact expectation of inclusion counts; also the law of the successor of every element, shown or waiting: uniform among the next `size` elements",
  "Exact probabilities by enumeration.", ["as C11"])
P("C16", "Chained reservoir: obsolete elements are discarded", "chained",
  "Once a timestamp has been declared obsolete, no slot shows an element with that timestamp or an earlier one when the most recent elements, as many as there are slots, are all newer; slots showing newer elements are left untouched. Elements that were kept waiting behind a discarded one survive and are shown in turn.",
  ["histories", "inputs", "configurations"],
  "every interleaving of additions and discards (any timestamp, repeated, before anything was added), every random outcome",
  "One scenario is tested.",
  [CH], [("shift_chain", CH + " obsolete/shift_chain")], ["ChainedReservoirSampling::obsolete", "ChainedReservoirSampling::operator[]"],
  "as C14", "Bounded-exhaustive.", ["as C14"])

M = "src/mc_nn.hpp"
P("C17", "MC-NN: prediction is the class of the nearest centroid", "mcnn",
  "A prediction returns the class of the micro-cluster whose centroid is nearest to the data point (the empty class when nothing was learned), at any distance, where the centroid is the mean of the points the micro-cluster absorbed. Training absorbs each point in the nearest micro-cluster of its class, and creates a micro-cluster for a class that has none.",
  ["histories", "inputs", "configurations"],
  "every sequence of training points and classes over a grid (ties, huge distances, negative values), every feature type, feature count and cluster capacity",
  "The tests train one fixed data set.",
  [M], [("find_nearest_clusters", M), ("incorporate/centroid", M)], ["MCNN::train", "MCNN::predict"],
  "71 configurations (double, float, int, 1..9 features, 2..300 clusters, 3 cleaning policies); all training sequences up to depth 5-6 over 6-8 (point, class) pairs, every grid point predicted after each; lassos to 2000 points, and to 70000 points of one letter, each letter 150 to 70000 times before others",
  "Bounded-exhaustive against a reference model of the published algorithm as documented in the code.",
  ["grid values keep floating-point sums exact"])
P("C18", "MC-NN: cluster count is truthful and bounded", "mcnn",
  "The reported number of micro-clusters always equals the number of micro-clusters that take part in predictions and never exceeds the capacity, whatever sequence of creations, replacements, splits and removals happened.",
  ["histories", "inputs", "configurations"],
  "every training sequence under every cleaning policy and capacity",
  "The count is asserted after a few hand-made steps.",
  [M], [("count_active_cluster", M)], ["MCNN::count_clusters", "MCNN::train"],
  "as C17", "Bounded-exhaustive.", ["as C17"])
P("C19", "MC-NN: capacity and cleaning policies", "mcnn",
  "When the capacity is reached, a point of an unknown class replaces the micro-cluster with the lowest participation if the policy allows it (training returns true), and is ignored with training returning false and the model unchanged otherwise. With the threshold policies every micro-cluster with more than one point whose participation is below the threshold is dropped before each training step, and no other.",
  ["histories", "inputs", "configurations"],
  "every training sequence, the three policies, several thresholds",
  "Only one policy is exercised beyond capacity by the tests.",
  [M], [("get_lowest_participation", M), ("clean_low_performance_clusters", M)], ["MCNN::train", "MCNN::count_clusters", "MCNN::predict"],
  "as C17", "Bounded-exhaustive.", ["as C17"])
P("C20", "MC-NN: splitting of micro-clusters", "mcnn",
  "The error count of a micro-cluster starts at the threshold, grows by one on each correct absorption and drops by one on each misclassification it takes part in; when it reaches zero the micro-cluster is split in two of the same class, placed one standard deviation on each side of its centroid along the feature of highest variance. Without room and without the right to replace, it is left whole.",
  ["histories", "inputs", "configurations"],
  "every training sequence long enough to cause one or more splits, several error thresholds, features with equal, null and negative values",
  "One split is tested with one threshold.",
  [M], [("split", M), ("error_count", M + " train")], ["MCNN::train", "MCNN::predict", "MCNN::count_clusters"],
  "as C17 with error thresholds 0..3", "Bounded-exhaustive.", ["as C17"])

ME = "src/metrics.hpp"
P("C21", "Error metrics equal the error rate of the history", "metrics",
  "The error score is the number of wrong updates divided by the number of updates since the last reset (its complement when inverted); artificial errors count as both; the size-weighted variant multiplies the error (or divides the accuracy) by the given size. The empty metric always scores zero.",
  ["histories", "inputs", "configurations"],
  "every sequence of updates, artificial errors and resets, both variants, inverted or not",
  "Tests check one short sequence per variant.",
  [ME], [("ErrorMetrics", ME)], ["ErrorMetrics::score", "ErrorMetrics::ratio", "NoMetrics::score"],
  "all sequences to depth 7 over 8 operations, both variants; lassos to 70000 updates", "Bounded-exhaustive.")
P("C22", "Kappa metrics equal Cohen's kappa of the history", "metrics",
  "The kappa score is Cohen's kappa of the confusion matrix of all updates since the last reset, mapped to [0,1] with better agreement giving a lower score (a higher one when inverted) and weighted by size in the ratio variant; a copy is independent of the original.",
  ["histories", "inputs", "configurations"],
  "every sequence of updates, artificial errors, resets and copies; several numbers of labels",
  "Tests check a couple of sequences with one label count.",
  [ME], [("KappaMetrics", ME)], ["KappaMetrics::kappa", "KappaMetrics::score"],
  "2..4 labels, all sequences to depth 5-6; lassos to 70000 updates", "Bounded-exhaustive; undefined values (0/0) must be not-a-number on both sides.")
P("C23", "Reservoir metrics single out the most recent tree", "metrics",
  "Among all reservoir metrics, the score of the most recently created or reset one is (N - s)/N and that of every other is 1/N, where N is the number of creations and resets so far and s the given sample size; updates and copies do not change N.",
  ["histories", "inputs"],
  "every sequence of creations, resets and copies over several metrics",
  "Tests check one sequence.",
  [ME], [("total_count", ME + " ReservoirSamplingMetrics")], ["ReservoirSamplingMetrics::score", "ReservoirSamplingMetrics::reset"],
  "3 metrics, all sequences to depth 6", "Bounded-exhaustive.")

N = "src/naive_bayes.hpp"
P("C24", "Naive Bayes: scores are the Gaussian log posteriors", "bayes",
  "The score of each label is the logarithm of its share of the total weight plus the sum over features of the logarithm of the Gaussian density with the label's weighted mean and unbiased weighted variance; a feature with zero variance has density 1 at its mean and 0 elsewhere. The prediction is the first label with the highest score, and predicting changes nothing.",
  ["histories", "inputs", "configurations"],
  "every sequence of weighted training points and predictions over a grid, several label and feature counts and types",
  "Tests check accuracy on one small data set.",
  [N], [("incremental weighted mean/variance", N + " GaussianEstimator")], ["NaiveBayes::train", "NaiveBayes::predict"],
  "24 configurations (1-9 features, 1-5 labels), all training sequences to depth 4-5 over up to 12 (point, label, weight) letters, every grid point predicted; lassos, one of 70000 points", "Bounded-exhaustive; tolerance 1e-4 because the code approximates sqrt(2*pi).",
  ["weights are positive"])
P("C25", "Naive Bayes: order and weights", "bayes",
  "The model depends only on the weighted set of points, not on their order, and a point of integral weight w counts as w repetitions of it; labels are independent: training one label changes the scores of the others only through the total weight.",
  ["histories", "inputs", "configurations"],
  "every ordering of every small multiset of weighted points",
  "Tests use one order and weight 1.",
  [N], [("incremental weighted mean/variance", N + " GaussianEstimator")], ["NaiveBayes::train", "NaiveBayes::predict"],
  "two instances: one fed in the explored order, one in sorted order with weights expanded; all sequences to depth 4-5", "Bounded-exhaustive.", ["weights are positive integers for the repetition law"])

PE = "src/perceptron.hpp"
P("C26", "Perceptron: forward pass", "mlp",
  "The output is the composition of the layers: each neuron is the activation of the weighted sum of the previous layer plus its bias, for any network shape that fits the memory given, and depends only on the weights and the current input, not on earlier passes. The input is not modified.",
  ["inputs", "histories", "configurations"],
  "every shape (layer counts and sizes), weights and inputs over a grid, every history of previous passes",
  "Tests check two shapes with fixed weights.",
  [PE], [("weight/output offsets", PE + " feed_forward")], ["MultiLayerPerceptron::feed_forward"],
  "11 shapes of 2..5 layers including unequal and single-neuron layers; all histories to depth 4", "Bounded-exhaustive.", ["the shape fits in max_size"])
P("C27", "Perceptron: backpropagation is one gradient step", "mlp",
  "After a forward pass, backpropagation changes every weight and bias by minus the learning rate times the partial derivative of half the squared error of that pass, all computed with the weights before the step, and returns the mean squared error of the outputs.",
  ["inputs", "histories", "configurations"],
  "every shape, weights, inputs and targets over a grid, every history of previous passes, several learning rates",
  "Tests check that an error decreases, on one shape.",
  [PE], [("layer-wise deltas", PE + " backpropagate")], ["MultiLayerPerceptron::backpropagate", "MultiLayerPerceptron::get_weights"],
  "as C26, with 2 activations (identity, sigmoid) and their derivatives; all weights compared after each step with a textbook implementation", "Bounded-exhaustive.", ["the derivative function takes the output of the activation"])
P("C28", "Perceptron: weight setters address exactly their target", "mlp",
  "Setting the weights of one neuron, of one layer or of the network changes exactly those weights, in the documented order (inputs then bias, neuron by neuron, layer by layer), and nothing else; reading the weights back gives the values written.",
  ["inputs", "histories", "configurations"],
  "every shape, every layer and neuron, every order of setter calls",
  "Tests set whole networks of two shapes.",
  [PE], [("base index", PE + " set_weights")], ["MultiLayerPerceptron::set_weights", "MultiLayerPerceptron::get_weights"],
  "as C26; all sequences of setter calls to depth 3", "Bounded-exhaustive.", ["the shape fits in max_size"])

H = "src/hoeffding_tree.hpp"
P("C29", "Hoeffding tree: each leaf predicts from its own data", "hoeffding",
  "Every point is sorted to one leaf; a prediction returns, for the leaf the point falls in, the share of each label among the points trained in that leaf since it was created, and the first label with the highest share. Training a point changes the shares of its own leaf only.",
  ["histories", "inputs", "configurations"],
  "every training sequence over a grid, with any number of splits, several numbers of features, bins and labels",
  "Tests check a tree with at most a few nodes on a fixed data set.",
  [H], [("counters per leaf", H + " Node::train/predict"), ("sort_in_leaf", H)], ["HoeffdingTree::train", "HoeffdingTree::predict"],
  "62 configurations (1-6 features, 1-7 labels, 2-17 bins, values to 1e30, trees of 20 to 38 levels, bounds down to nothing); all training sequences to depth 2-6 over up to 20 (point, label) letters with a loose bound, so that splits happen; lassos to thousands of points, and to 70000 points of one letter; every grid point predicted", "Bounded-exhaustive against a reference tree.",
  ["a leaf without data has no defined shares and is not compared"])
P("C30", "Hoeffding tree: splits exactly when the bound allows", "hoeffding",
  "A leaf is split if and only if the average information gain of the best cut is positive and exceeds that of the second best cut (or no cut, if there is only one) by more than the Hoeffding bound of the tree's confidence for the number of points seen; the split is made on the feature and value of the best cut.",
  ["histories", "inputs", "configurations"],
  "every training sequence over a grid, several confidences and shapes",
  "Tests check one split.",
  [H], [("Hoeffding bound", H + " Node::train")], ["HoeffdingTree::train", "HoeffdingTree::predict", "HoeffdingTree::get_root"],
  "as C29", "Bounded-exhaustive; decisions within rounding error of the bound are accepted either way.", ["as C29"])
P("C31", "Hoeffding tree: running out of memory is safe", "hoeffding",
  "When the memory given to the tree is exhausted, no leaf is split any more, training reports it by returning false, and everything learned before is still used for prediction; nodes never overlap each other's data. The number of leaves is the same as with more memory until that point.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "every training sequence, every memory size from one node up",
  "Tests never exhaust the buffer.",
  [H], [("two-ended buffer", H + " Node::split/operator new")], ["HoeffdingTree::train", "HoeffdingTree::predict"],
  "memory for 1, 2, 3, 5 and 7 leaves plus odd sizes; training sequences as C29; compared with a reference tree with a node budget", "Bounded-exhaustive.", ["as C29"])
P("C32", "Hoeffding tree: information gain and cut points", "hoeffding",
  "The information gain reported for each cut is the entropy of the labels of the leaf minus the weighted entropy of the two sides of the cut, where a value equal to the cut is on the lower side. After a split each child divides the range of values seen by its parent (cut at the split value) in equal intervals.",
  ["histories", "inputs", "configurations"],
  "every multiset of labelled points over a grid, every cut, several numbers of bins per feature",
  "Tests compute the gain of one table.",
  [H], [("compute_information_gain", H), ("select_split_values", H)], ["HoeffdingTree::Node::compute_information_gain", "HoeffdingTree::get_root", "HoeffdingTree::Node::set_limits"],
  "as C29 for the sequences; moreover streams in which a word of up to two points is repeated 8 times and another is repeated after it, for double, int, short and unsigned char features, so that leaves hold far more points than a short sequence gives them", "Bounded-exhaustive.", ["as C29"])

MO = "src/mondrian.hpp"; MU = "src/mondrian_unbound.hpp"; MC = "src/mondrian_coarse.hpp"
P("C33", "Mondrian: bounded and unbounded forests agree", "mondrian",
  "Fed with the same data and the same random numbers, the fixed-memory forest and the growing forest give identical predictions and scores as long as the fixed memory is not exhausted.",
  ["histories", "inputs", "configurations"],
  "every training sequence over a grid with every outcome of the random source, several tree counts and features",
  "No test covers the Mondrian forests.",
  [MO, MU], [("extend_block/sample_block", MO), ("extend_block/sample_block", MU)], ["MondrianForest::train", "MondrianForest::predict"],
  "1-12 trees, 1-7 features, 2-5 labels; all training sequences to depth 3-4 with 3-4 random values per draw; lassos to 200 points, and to 70000 points of one letter", "Bounded-exhaustive differential check.",
  ["the random function returns values in [0, 1)"])
P("C34", "Mondrian: memory limit is safe and reported", "mondrian",
  "When the fixed-memory forest has no room, training returns false if and only if some tree could not take the point at all; otherwise the point is counted in exactly one leaf of each tree. Predictions stay valid probability scores and the forest keeps working from then on.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "every training sequence over a grid with every outcome of the random source, every memory size from one node up",
  "No test covers the Mondrian forests.",
  [MO], [("available_node", MO)], ["MondrianForest::train", "MondrianForest::predict"],
  "memory for 1..6 nodes, 1..2 trees; sequences as C33 and lassos to 300 points; predictions compared with a reference forest with the same node budget", "Bounded-exhaustive.",
  ["as C33"])
P("C35", "Mondrian: predictions are the smoothed posterior of the trees", "mondrian",
  "The scores of a prediction are the average over the trees of the posterior label distribution defined by the Mondrian forest paper (hierarchical smoothing with discount, mixed with the chance that the point branches off before each node of its path), computed on the tree grown from the data. They are non-negative, sum to one when the base measure is uniform, and the predicted label is the first with the highest score; predicting changes nothing.",
  ["histories", "inputs", "configurations"],
  "every training sequence over a grid with every outcome of the random source, prediction points inside, on and outside the boxes, several parameters",
  "No test covers the Mondrian forests.",
  [MO, MU, MC], [("compute_posterior_mean/predict_tree", MO)], ["MondrianForest::train", "MondrianForest::predict"],
  "as C33; three parameter sets; compared with an independent reference implementation of the tree growth and of the posterior", "Bounded-exhaustive.", ["as C33"])
P("C36", "Coarse Mondrian: trees are well formed", "coarse",
  "At any moment the nodes reachable from the roots form one binary tree per non-empty root: every internal node has two children whose parent link points back, no node is reachable twice or marked available, times never decrease from a node to its children, and leaves carry the lifetime as time.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "every sequence of training, prediction and trimming, every outcome of the random source, every extension, split-trigger, split-helper, trimming and management mode, every memory size",
  "No test covers the coarse forest.",
  [MC], [("extend_block*", MC), ("tree_trim", MC), ("split on full memory", MC)], ["CoarseMondrianForest::train", "CoarseMondrianForest::get_nodes", "CoarseMondrianForest::get_bases"],
  "458 configurations (6 extension modes x split triggers x helpers x 5 managements x 3 trimmings x memory of 1 to 21 nodes, 1-3 trees, 1-3 features, int/float/double); all sequences of training, prediction and trimming to depth 2-4 from an empty or grown forest, up to 7 free draws per operation over 2-4 values; lassos of 60-130 (450) operations over all words of 1-2 letters", "Bounded-exhaustive; each step is compared with a reference implementation of the growth rule, and with the nodes of the forest.", ["the random function returns values in [0, 1)"])
P("C37", "Coarse Mondrian: points are never lost or counted twice", "coarse",
  "Without trimming, the counts held by the leaves of a tree add up, per label, to the points the tree was trained with, for the modes that count every point, also when leaves are split or boxes are forced; in the mode that stops learning when memory is exhausted they add up to the trainings that were accepted, in the mode that gives up a point whose split is refused to the others, and in the mode that counts at every node the root holds them all.",
  ["histories", "inputs", "configurations"],
  "as C36",
  "No test covers the coarse forest.",
  [MC], [("counters of leaves and splits", MC)], ["CoarseMondrianForest::train", "CoarseMondrianForest::get_nodes"],
  "as C36", "Bounded-exhaustive.", ["as C36"])
P("C38", "Coarse Mondrian: boxes and splits are consistent", "coarse",
  "Every internal node's split value lies inside its box, the boxes of its children lie on their side of the split and inside the box of the node, and every trained point lies in the root box, unless the mode explicitly leaves boxes alone. Trees grow as the extension rule of their mode prescribes: at a node where the exponential waiting time of the point falls before the time of the node, and memory and limits allow it, a parent split between the box and the point is inserted there with that time; otherwise the rule of the mode is applied.",
  ["histories", "inputs", "configurations"],
  "as C36",
  "No test covers the coarse forest.",
  [MC], [("box updates", MC)], ["CoarseMondrianForest::train", "CoarseMondrianForest::get_nodes"],
  "as C36", "Bounded-exhaustive.", ["as C36"])
P("C39", "Coarse Mondrian: equals the plain forest when memory suffices", "coarse",
  "With the original extension rule, no trimming and enough memory, the coarse forest gives the same labels and scores as the plain Mondrian forest fed with the same data and random numbers.",
  ["histories", "inputs", "configurations"],
  "every training sequence over a grid with every outcome of the random source",
  "No test covers the coarse forest.",
  [MC, MU], [("extend_block0/predict_tree", MC)], ["CoarseMondrianForest::train", "CoarseMondrianForest::predict", "MondrianForest::predict"],
  "16 configurations of 1-12 trees and 1-3 features in double, float and int; all training sequences to depth 2-4 (3 values per draw); lassos of 100-2000 (70000) points", "Bounded-exhaustive differential check.", ["as C36"])
P("C40", "Coarse Mondrian: nodes are accounted for, limited and reusable", "coarse",
  "The memory holds as many nodes as fit in it and each is either in exactly one tree or available: a forest with room keeps splitting, one without room never takes more, and nodes freed by trimming are used again. Under the pausing managements a tree that reached its size limit stops growing until it shrinks.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "as C36 with every memory size from one node per tree up",
  "No test covers the coarse forest.",
  [MC], [("available_node/node_available", MC), ("is_paused", MC)], ["CoarseMondrianForest::train", "CoarseMondrianForest::tree_trim", "CoarseMondrianForest::get_nodes"],
  "as C36", "Bounded-exhaustive.", ["as C36"])
P("C41", "Coarse Mondrian: incremental counters equal recomputed ones", "coarse",
  "When the label counts of internal nodes are maintained while training instead of before each prediction (compile-time option), predictions and scores are the same as those of a forest that recomputes them.",
  ["histories", "inputs", "configurations"],
  "every training sequence over a grid with every outcome of the random source, for the extension rules that support it",
  "No test builds that option.",
  [MC], [("update_posterior_count", MC)], ["CoarseMondrianForest::train", "CoarseMondrianForest::predict"],
  "34 configurations of 1-12 trees, both extension rules that support the option, all training sequences to depth 2-4, lassos to 100 (500) points, and to 70000 points of one letter; scores and labels compared with those computed from the leaves", "Bounded-exhaustive.", ["as C36"])

P("C48", "Coarse Mondrian: predictions are the smoothed posterior of its trees", "coarse",
  "In every mode, the scores given by the coarse forest are the average over the trees asked for (all by default, else the first ones) of the smoothed posterior that the point meets on its way down: each node contributes with the probability of not having branched off, from the label counts under it (those stored in it for the mode that counts at every node). They are not negative, sum to one, the label given is the first with the highest score, and predicting again gives the same answer.",
  ["histories", "inputs", "configurations"],
  "as C36 with every probe of a grid inside and outside the boxes, and every number of trees",
  "No test covers the coarse forest.",
  [MC], [("predict_tree/compute_posterior_mean", MC)], ["CoarseMondrianForest::predict"],
  "as C36; 9-42 probes per state", "Bounded-exhaustive; compared with an independent implementation of the posterior on the nodes of the forest.", ["as C36"])
P("C49", "Coarse Mondrian: trimming removes exactly the leaf it should", "coarse",
  "Trimming takes exactly one leaf from every tree that has more than one, replaces its parent by its sibling and leaves everything else as it was: the leaf with the lowest count, the one with the lowest faded count, or any leaf for random trimming, each equally likely; a leaf whose share of the total is above the maximum is kept. The faded count of a leaf is multiplied by 0.995 at each training and grows by one with each point it receives.",
  ["histories", "inputs", "configurations"],
  "every sequence of training and trimming, every outcome of the random source, every trimming mode and maximum share",
  "No test covers the coarse forest.",
  [MC], [("tree_trim/trim_tree_*", MC), ("tree_fade_counts", MC)], ["CoarseMondrianForest::tree_trim", "CoarseMondrianForest::tree_fade_counts"],
  "6 extension modes x 3 trimmings, trees of 5 to 13 nodes, all sequences to depth 2-3 after 3-6 points; lassos to 130 (450) operations", "Bounded-exhaustive; every tree compared before and after.", ["as C36"])

U = "src/utils.hpp"
P("C42", "Picking from a distribution follows it exactly", "utils",
  "Given cumulative probabilities, the index picked is the one whose interval contains the uniform draw: an index is picked with exactly its probability, an index of zero probability is never picked, and the result is always a valid index even if rounding leaves the last cumulative value below one.",
  ["inputs", "configurations"],
  "every small distribution (with zeros in any place) and every draw, including 0, interval ends and the largest value below 1",
  "Tests draw a few pseudo-random values.",
  [U], [("pick_from_distribution", U)], ["Utils::pick_from_distribution"],
  "all integer weight vectors up to 5 entries of 0..3, plus sizes to 300; every draw of a grid of 48-720 points plus the interval ends", "Exhaustive over the stated domain.", ["the array is a valid cumulative distribution"])
P("C43", "Numeric helpers match their definition", "utils",
  "Turning values into probabilities yields the normalised running sums (with the sum given or computed); an exponential draw is the inverse of the exponential law at the uniform draw; maximum, minimum, absolute value, rounding, whole division and index of the maximum (first one) equal their mathematical definitions for every argument in range.",
  ["inputs", "configurations"],
  "every argument over a grid (negative, equal, fractional), every array up to 5 entries",
  "Tests check a few values each.",
  [U], [("turn_array_into_probability, rand_exponential, index_max, round...", U)], ["Utils::turn_array_into_probability", "Utils::rand_exponential", "Utils::index_max"],
  "all arrays up to 5 entries of 0..3 and all pairs of a grid", "Exhaustive over the stated domain.")
P("C44", "Shuffle yields every permutation equally often", "utils",
  "Shuffling an array yields a permutation of it; with independent uniform random numbers each permutation has the same probability.",
  ["inputs", "configurations"],
  "every outcome of the random source, every array size up to a bound, several element types",
  "Tests only check the elements are still there.",
  [U], [("Fisher-Yates", U + " shuffle")], ["Utils::shuffle"],
  "sizes 1..6 with the draws on a grid where each is exact; sizes to 300 for the permutation property with edge draws", "Exact probabilities by enumeration.", ["the random function returns values in [0, 1)"])

ALL = [B, K, L, R, CH, M, ME, N, PE, H, MO, MU, MC, U]
P("C45", "Objects are independent of each other", "indep",
  "Two objects of the same class used side by side behave exactly as if each were used alone: for every interleaving of their operations, each one's results are those of its own operations only.",
  ["histories", "schedules", "configurations"],
  "every interleaving of operation sequences on two objects of every class of the library",
  "The tests use one object at a time.",
  ALL, [("no shared state between objects", "src/*.hpp")], ["results of all public operations"],
  "101 configurations (every class of the library); all sequences of operations on the two objects, in every interleaving, 3-5 (5-7 when thorough) operations each, every result compared with an object used alone", "Bounded-exhaustive.",
  ["the reservoir metrics share a count by design and are covered by C23", "the ids of the nodes of a coarse forest are not part of its results"])
P("C46", "Memory accesses stay inside the object and the caller's arrays", "confine",
  "No operation of the library reads or writes memory outside the object, the memory obtained from the user's allocator, and the arrays passed by the caller with their documented sizes; no operation performs an invalid array access, null dereference, division by zero on integers, or conversion to an integer of a floating-point number that it cannot represent.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "every operation sequence up to a depth on every class, odd sizes, extreme random numbers, exhausted memory",
  "The tests run without memory instrumentation and on regular sizes.",
  ALL, [("fixed buffers and offsets", "src/*.hpp")], ["AddressSanitizer and UndefinedBehaviorSanitizer on all public operations"],
  "386 configurations (every class, odd sizes, memory for 1 node upward, printing forests, coarse trees of 98 to 130 levels): every operation sequence and every random answer to depth 2-6 from empty and grown objects, plus lassos of 120 (600) operations over all words of 1-2 letters; object, arrays and allocations are exact-size heap blocks", "Bounded-exhaustive under ASan and UBSan.",
  ["overflow inside the object's own memory is only detected by the array-bounds checks of UBSan"])
P("C47", "Results do not depend on prior memory contents", "prior",
  "What an object returns is determined by its constructor arguments, the operations applied to it and the answers of the functions given by the user: it does not depend on what was in its memory before construction.",
  ["histories", "inputs", "configurations"],
  "every operation sequence up to a depth on every class, over memory previously filled with different patterns",
  "The tests run on zeroed static memory most of the time.",
  ALL, [("initialisation of members", "src/*.hpp")], ["results of all public operations"],
  "312 configurations (every class); the same history on objects built over memory (and given allocations) filled with different patterns, all sequences to depth 2-6 (4-8), lassos of 100 (400) operations", "Bounded-exhaustive product exploration.",
  ["elements of a sample that were never filled have no defined value and are not read"])
P("C50", "Copies continue like the original", "copy",
  "An object that keeps all of its data inside itself can be copied, assigned and moved around in memory at any time: a copy answers every later operation as the original would have, the original is not affected by what happens to its copies, an assigned-over object retains nothing of its past, and assigning an object to itself changes nothing.",
  ["histories", "configurations"],
  "every operation sequence up to a depth with copies, assignments and self-assignments at every point of it, on every class that keeps its data inside the object",
  "The tests copy no object apart from one metric.",
  [B, K, L, R, M, ME, N, PE, MO, MC], [("all data inside the object, offsets instead of pointers", "src/*.hpp")], ["copy constructor, copy assignment, results of all public operations"],
  "135 configurations (Bloom, cuckoo, LTC, both reservoirs, MCNN, metrics, naive Bayes, perceptron, Mondrian forest, coarse forest in all modes); all sequences of 3-7 operations with up to 2 (3) copies, assignments or self-assignments at any points (for coarse forests also of every node they show); the memory of the original is overwritten after it was replaced by its copy", "Bounded-exhaustive, each result compared with that of an object that was never copied.",
  ["chained reservoirs and unbound forests own heap memory, Hoeffding nodes hold a pointer to their tree: these are not copyable by design of the code and are left out", "a coarse forest has constant members, so it is copied but not assigned"])
P("C51", "Queries change nothing", "pure",
  "Looking elements up, predicting, reading scores, counts, samples and weights never changes an object: asked again it gives the same answer, it takes no random number from the user, and everything the object answers later is what it would have answered without the query.",
  ["histories", "inputs", "configurations"],
  "every operation sequence up to a depth with queries at every point of it, on every class and in every mode",
  "The tests query at the end of a history, not between its steps, and never compare with an object that was not queried.",
  ALL, [("queries are const, or rewrite only what they derive", "src/*.hpp (coarse and unbounded forests recompute counts and posteriors while predicting)")], ["lookup, predict, score, count, operator[], get_weights"],
  "308 configurations (every class; coarse forests also after 9 or 12 points); two objects with the same history, one queried 2-3 times after every operation, the other never: every sequence to depth 2-6 (4-8) with free random numbers, and lassos of 120 (400) operations", "Bounded-exhaustive product exploration.",
  ["a forward pass is not a query: it is the first half of a learning step"])
P("C52", "Tree models do not depend on the type of the features", "types",
  "Hoeffding trees and Mondrian forests (fixed, unbounded and coarse) fed with the same whole numbers give the same answers and scores and use the same random numbers whatever feature type holds these numbers: float, double, signed or unsigned integers of any width that can represent them.",
  ["histories", "inputs", "configurations"],
  "every operation sequence up to a depth, for each feature type, with values up to the limits of the type",
  "The tests use double and float features.",
  [H, MO, MU, MC], [("boxes, cut points and distances in double", "src/mondrian*.hpp extend_block, src/hoeffding_tree.hpp limits")], ["train", "predict", "random numbers drawn"],
  "pairs (double, T) for T in float, int, short, signed char, unsigned char, unsigned and five series of values that reach the limits of T; four classes, the coarse forest in 25 variants; all sequences to depth 2-4 with free random numbers, lassos of 100 (300) operations; Hoeffding trees also on streams of words repeated many times", "Bounded-exhaustive product exploration of two instantiations of the same template.",
  ["the values are whole and fit the type; MC-NN and naive Bayes accumulate in the feature type by design and are covered by C17 and C24"])
