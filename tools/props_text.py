P("F01","An LSH bucket holds exactly its last 128 additions",
 "After any sequence of Add and Reset on a hash-table bucket, every slot below min(n,128), where n is the number of additions since creation or the last Reset, holds the most recent of those n values whose number (counted from 0) is congruent to the slot modulo 128, and the content returned for reading is exactly those slots in order. Add returns the slot it wrote, that is, the number of the addition modulo 128, and disturbs no other slot. Reading a slot not filled yet gives 0 and reading slot 128 or above gives -1, and none of the reads changes the bucket.",
 ["inputs","histories"],"all sequences of additions and resets of any length, with arbitrary ids, and all non-negative read positions",
 "Tests add a fixed handful of ids and one wrap-around; the statement ranges over every history length and every reset point, including several wraps and resets after a wrap.",
 ["bucket/fifo/fifo.go"],[("fifo slots and wrap-around","bucket/fifo/fifo.go:FifoBucket.Add"),("reset","bucket/fifo/fifo.go:FifoBucket.Reset"),("reads","bucket/fifo/fifo.go:FifoBucket.Retrieve, GetAll")],
 observe=["New, Add, Reset, Retrieve, GetAll"])
P("F02","The fixed-array bucket is first-in-first-out with an end marker and a true size",
 "After any sequence of Add, Reset and GetAll on the array-backed bucket, slot i below min(n,128) holds the latest of the n additions since creation or Reset whose number is congruent to i modulo 128, the size reported is n, and Add returns the number of the addition modulo 128. GetAll returns nil for an empty bucket, and otherwise 128 slots in which the first unused one (if any) holds -1; the other unused slots read as 0. Retrieve gives -1 for positions of 128 or more, and two buckets never affect each other.",
 ["inputs","histories"],"all interleavings of additions, resets and reads of any length on any number of buckets, with arbitrary ids",
 "Tests exercise one short history each; wrap-around, reuse after reset and the shared template used by reset are reachable only by longer histories.",
 ["bucket/bucket.go"],[("slot choice","bucket/bucket.go:Bucket.Add"),("reset","bucket/bucket.go:Bucket.Reset"),("end marker","bucket/bucket.go:Bucket.GetAll")],
 observe=["New, Add, Reset, GetSize, Retrieve, GetAll"])
P("L01","Hash tables: an id goes into exactly the named bucket of each table",
 "A set of L hash tables behaves as L independent arrays of 2^rangePow buckets, each the FIFO of its last 128 additions: adding an id under one index per table appends it to exactly the named bucket of each table and returns the slot used in each, adding to a single table touches only that bucket, and every other bucket of every table is unchanged. Retrieval under one index per table returns for each table exactly the current content of the named bucket, in slot order, and reading a single slot agrees with it. Clearing leaves every bucket of every table empty.",
 ["inputs","histories","configurations"],"all table shapes, all histories of adds, single adds, clears and retrievals with in-range indices, arbitrary ids",
 "Tests use one small shape and a few adds; isolation between tables, buckets and their storage must hold for every shape and history, including after clears and wrap-around.",
 ["lsh/lsh.go","bucket/fifo/fifo.go"],[("table construction","lsh/lsh.go:New"),("adding","lsh/lsh.go:LSH.Add, AddSingle"),("retrieval","lsh/lsh.go:LSH.RetrieveRaw, Retrieve"),("clearing","lsh/lsh.go:LSH.Clear")],
 observe=["New, Add, AddSingle, RetrieveRaw, Retrieve, Clear"])
P("L02","Table indices: in range, from the own K codes only, packed without overlap",
 "For every code vector, hash function and table shape, the index computed for table i is between 0 and 2^rangePow-1 and depends only on the K codes of table i. For winner-take-all codes (plain and densified) it is the number whose base-8 digits are those K codes, most significant first, reduced modulo 2^rangePow; for sparse random projection the number whose base-2 digits they are, reduced the same way; so code vectors that differ get different indices whenever the digits fit. For densified minhash it is the sum, modulo 2^rangePow, of each code times a weight fixed when the tables were created: for the positive odd random number r drawn for that position, the weight is (m xor (m >> 13)) xor r with m = r*r, in 64-bit arithmetic.",
 ["inputs","configurations"],"all K, L, rangePow up to 62, all four hash functions, all code vectors",
 "The existing test checks one code vector per hash function against a recorded number; overlap of digits, range for large K and independence between tables need all shapes and codes.",
 ["lsh/lsh.go"],[("packing of codes","lsh/lsh.go:LSH.HashesToIndex"),("random weights","lsh/lsh.go:positiveOddRandomInt, New")],
 observe=["HashesToIndex"])
P("N01","A neuron's forward activation is bias plus the weighted active inputs",
 "Activating a node for one input slot returns and records bias + sum of weight[p.Index]*p.Value over the given active inputs p, added up in the order given (repeated indices count each time), the floating-point additions and products being those of float64; a ReLU node replaces a negative result by 0 and then also clears that slot's delta. The slot is marked active. A slot that is not active reads as activation 0. Other input slots and all the node's parameters (weights, biases, Adam moments) are untouched. An input slot number greater than the batch size is refused by a panic, whatever the data.",
 ["inputs","histories"],"all weights, biases, active-input lists (any length, order and repetition, in-range indices), slots, node types and owners",
 "The node package has no tests at all; exact agreement with the formula must hold for every weight vector and input list.",
 ["node/node.go"],[("forward activation","node/node.go:Node.GetActivation"),("reading","node/node.go:Node.GetLastActivation, SetlastActivation")],
 observe=["GetActivation, GetLastActivation, SetlastActivation, NewNode"])
P("N02","Softmax output error: probability, and label share minus probability over batch",
 "For an output node active for an input slot, the softmax step divides the recorded activation by (normalization constant + 1e-7) to give the probability p, and sets the slot's delta to (1/#labels - p)/batch size if the node's own position in the layer is among the labels, and to -p/batch size otherwise. The label list may be in any order and contain repetitions. Nothing else of the node or of other slots changes. A slot that is not active is refused by a panic.",
 ["inputs","histories"],"all activations, constants, label lists (any length and order), batch sizes and node positions",
 "No test covers the node package; the delta depends on the label list and batch size in all combinations.",
 ["node/node.go"],[("softmax delta","node/node.go:Node.ComputeExtaStatsForSoftMax, intSliceContains")],
 observe=["ComputeExtaStatsForSoftMax"])
P("N03","Back-propagation: exact gradient steps, errors flow back by the old weights",
 "Back-propagating a node for one slot with delta d, over a list of distinct positions in the previous layer: each listed previous node whose activation for the slot is not <= 0 has d*weight added to its delta, using the weight before any update of this step, and the others keep theirs; then each listed weight accumulates d*(previous activation): into the Adam gradient with Adam, or times the learning rate into the mirror weights without; the bias likewise accumulates d. The first-layer form uses the input values, for any list, repeated indices accumulating in order. Unlisted weights, unlisted nodes, and other slots do not change. Afterwards the slot is inactive with activation and delta 0. A node, or a listed previous node, that is not active for the slot is refused by a panic. The gradient reported for a previous node is d times that node's activation.",
 ["inputs","histories"],"all weights, deltas, learning rates, active lists, Adam on or off, all previous layers and owners",
 "No test covers back-propagation; order of update and use, and untouched parameters, only show with particular values and multi-node lists.",
 ["node/node.go"],[("back-propagation","node/node.go:Node.BackPropagate, BackPropagateFirstLayer"),("delta accumulation","node/node.go:Node.IncrementDelta"),("gradient","node/node.go:Node.GetGradient")],
 observe=["BackPropagate, BackPropagateFirstLayer, IncrementDelta, GetGradient"])
P("N04","Copy-on-write: a node changed under another owner leaves the original intact",
 "Every changing operation of a node takes an owner id and returns the node to use from then on. If the node belongs to that owner it is changed in place; otherwise a copy owned by the caller is returned and the original node, its parameters (weights, Adam moments, biases) and its per-slot training records are exactly as before, and so is whatever they share storage with. The result has the requested change and nothing else differs from the original: each setter changes the named parameter only, getters return the current one, construction starts from the given weights and bias with zero training state, and CopyWeightsAndBiasFromMirror takes over the mirror values.",
 ["inputs","histories"],"all nodes, owners, sharing patterns between the parts of one node, and single operations of any kind; by induction every sequence of them",
 "No test covers node; isolation between copies only fails for particular sequences (clone, change, look at the original) and particular shared slices.",
 ["node/node.go"],[("cloning","node/node.go:Node.cloneIfNeeded, baseNode.cloneIfNeeded, NodeTrain.cloneIfNeeded"),("setters","node/node.go:Node.SetT, SetBias, SetAdamAvgMom, CopyWeightsAndBiasFromMirror"),("construction","node/node.go:NewNode, Node.Update, NewNodeTrain")],
 observe=["NewNode, Update, all Set*/Get* methods, GetActivation, BackPropagate"])
P("H01","Winner-take-all codes name the winning feature of each sample of eight",
 "A winner-take-all hasher for n features keeps consecutive random permutations of all n features, the fewest that provide 8 entries per code, and code i belongs to entries 8i to 8i+7 in that order. The code of a dense vector is the feature among those eight with the greatest value, the earliest of them on ties; NaNs and values not above -2^63 never win, and a code with no winner is the smallest integer. The code of a sparse list of (feature, value) pairs, in any order and of any length, is the code of the dense vector it stands for: absent features are 0 and the last pair counts for a repeated feature. Hashing changes neither the data nor the hasher.",
 ["inputs","configurations"],"all numbers of codes and features (up to 2^48), all vectors including ties, NaNs and infinities, all sparse lists with features in range",
 "Tests hash three full vectors of ten features with a 3-code hasher; partial lists, other sizes, ties and negative vectors need all inputs.",
 ["wta_hash/wta_hash.go"],[("permutations","wta_hash/wta_hash.go:New"),("codes","wta_hash/wta_hash.go:WtaHash.GetHash, GetHashDense")],
 observe=["New, GetHash, GetHashDense"])
P("H02","Densified winner-take-all codes: bin winners, empty bins borrow by fixed probes",
 "A densified winner-take-all hasher for n features lays each of its permutations (the fewest with 8 places per code) onto n consecutive places, every feature on exactly one; bin b is places 8b to 8b+7. Hashing a sparse list of (feature, value) pairs gives each bin the position (0 to 7) of its feature with the greatest value among those listed, the first listed (earlier permutations first) on ties; the dense form does the same for all given features in order, ignoring NaNs and values not above -2^63. A bin without a code borrows that of the first non-empty bin among its probes 1 to 100 and is 0 if there is none. Probe k of bin b is the number formed by the top lg bits of the 32-bit product r * (64*(b+1) + k) * 8, r being an odd number fixed at creation and 2^lg the largest power of two within the number of codes, so always a valid bin. The data and the hasher do not change.",
 ["inputs","configurations"],"all numbers of codes (up to 2^31) and features, all sparse lists and dense vectors with features in range",
 "Existing tests only check that hashing ten features returns three codes; which bin and position decide, and when borrowing stops, needs all sparse inputs.",
 ["densified_wta_hash/densified_wta_hash.go"],[("placement","densified_wta_hash/densified_wta_hash.go:New"),("codes","densified_wta_hash/densified_wta_hash.go:DensifiedWtaHash.GetHash, GetHashEasy"),("probes","densified_wta_hash/densified_wta_hash.go:DensifiedWtaHash.GetRandDoubleHash")],
 observe=["New, GetHash, GetHashEasy, GetRandDoubleHash"])
P("H03","Densified minhash codes: greatest feature per bin among the top values",
 "For any number of codes from 1 to 2^31: GetMap gives feature i the bin H(i) / s (rounded down), H(i) being a hash of i below 2^w that is fixed when the hasher is created, w the smaller of rangePow and 52, and s = 2^w / codes rounded up; so the bins are valid and the same on every call. Given a bin map, GetHash gives each bin the greatest feature, among the first len(data) listed indices, that the map sends to it. GetHashEasy (sparse pairs) and GetHashEasyDense do the same for the min(topK, number of values) entries of greatest value (NaNs aside; which of several equal values at the edge are taken is open). A bin that gets none takes the code of the first bin with one among its probes 1 to 101, otherwise the smallest int. Probe k of bin b is the number formed by the top lg bits of the 32-bit product r * (64*(b+1) + k) * 8, r an odd number fixed at creation and 2^lg the largest power of two within the number of codes. The data, the map and the hasher's parameters do not change.",
 ["inputs","configurations"],"all numbers of codes and features, all bin maps into the codes, all lists and vectors without NaN, all topK >= 0",
 "Existing tests only check that hashing ten values returns three codes; which values survive the bounded heap and which feature wins a bin needs all inputs.",
 ["densified_minhash/densified_minhash.go","densified_minhash/index_value_pairs.go"],[("bin map","densified_minhash/densified_minhash.go:DensifiedMinhash.GetMap"),("codes","densified_minhash/densified_minhash.go:DensifiedMinhash.GetHash, GetHashEasy, GetHashEasyDense"),("heap order","densified_minhash/index_value_pairs.go:indexValuePriorityQueue"),("probes","densified_minhash/densified_minhash.go:DensifiedMinhash.GetRandDoubleHash")],
 observe=["New, GetMap, GetHash, GetHashEasy, GetHashEasyDense, GetRandDoubleHash"])
P("H04","Sparse random projection codes: the sign of a signed sum over a fixed sample",
 "A sparse random projection hasher for n features with sampling ratio r fixes for every code ceil(n/r) different features and a sign for each. The code of a dense vector is 0 if the sum of its sampled values with their signs, added up from 0 in increasing order of feature in float64, is at least 0, and 1 otherwise (so also when the sum is NaN). The code of a list of (feature, value) pairs in strictly increasing order of feature is the code of the dense vector it stands for, the features not listed being 0; for lists in any other order every code is still 0 or 1. Every call gives one code per projection and changes neither the data nor the hasher.",
 ["inputs","configurations"],"all numbers of features, codes and ratios (up to 2^48), all vectors including NaNs and infinities, all increasing sparse lists, all samples and signs",
 "Existing tests only check shapes and that codes are in range for one hasher; which sum decides, and that sparse and dense agree down to rounding, needs all inputs.",
 ["sparse_random_projection/sparse_random_projection.go"],[("samples and signs","sparse_random_projection/sparse_random_projection.go:New"),("dense codes","sparse_random_projection/sparse_random_projection.go:SparseRandomProjection.GetHash"),("sparse codes","sparse_random_projection/sparse_random_projection.go:SparseRandomProjection.GetHashSparse")],
 observe=["New, GetHash, GetHashSparse"])
P("A01","A layer activates exactly the nodes its mode selects, each once",
 "Querying a layer for an example lists different nodes of the layer and leaves the list of inputs as it was. With sparsity 1 it lists all nodes in order and returns 0. Otherwise the mode decides. Modes 1 and 4 hash the inputs with the configured hash function and look at one bucket per table, the one its codes select. Mode 1 lists exactly the nodes with a score above 2, the score being the number of times the node occurs in those buckets plus, for labels of a softmax layer, the number of tables, and returns how many they are. In mode 4 the candidates are the nodes in those buckets and, in a softmax layer, the labels: all are listed, with other nodes up to 1000 (or all nodes) if they are fewer, in ascending order, and the number of candidates is returned. In a softmax layer mode 2 lists floor(nodes*sparsity) nodes, every label among them unless only labels are, and returns 0; mode 3 lists the floor(nodes*sparsity) nodes of smallest key in order of key (ties by position), the key being -1e9 for a label and minus the weighted sum with bias otherwise (barring NaN keys), and returns 1 if a label is listed, else 0. In other layers modes 2 and 3 list nothing and return 0.",
 ["inputs","histories","configurations"],"all layers whose parts belong to the caller, all table contents, modes, hash functions, sparsities from 0 to 1, label lists (any order, repeated) and input lists with positions in range and no NaN",
 "The layer package has no tests; thresholds, limits, repeated labels, ties and the choice of buckets only show with particular tables, labels and sizes.",
 ["layer/layer.go","lsh/lsh.go"],[("selection","layer/layer.go:Layer.QueryActiveNodeAndComputeActivations"),("order of keys","layer/layer.go:indexValuePairByValue.Less, Swap"),("random order","layer/layer.go:Layer.UpdateRandomNodes"),("weighted sum","layer/layer.go:Layer.innerproduct, intSliceContains")],
 observe=["QueryActiveNodeAndComputeActivations, UpdateRandomNodes, GetNodeById, NumOfNodes"])
P("A02","Layer activations: node sums; softmax scaled by the top, constant is their sum",
 "After a query every listed node is active for the example's slot. In a ReLU layer its value in the list and its recorded activation are the node's weighted sum over the inputs plus bias (terms added in the order given), or 0 if that is negative, in which case the slot's delta is cleared too; otherwise the delta stays. In a softmax layer both are exp(s - top), s being that sum and top the greatest of 0 and the sums of the listed nodes, and the slot's normalisation constant becomes the sum of these values in list order, from 0. Nodes that are not listed keep activity, activation and delta, as do all other slots and the other slots' constants; parameters, inputs and the lists of other layers do not change. Asking a layer that is not softmax for its normalisation constant is refused by a panic.",
 ["inputs","histories","configurations"],"all layers whose parts belong to the caller, all weights, biases, input lists, slots, modes and earlier queries",
 "No test covers the layer package; stabilised softmax, empty lists, all-negative sums and untouched records must hold for all values and histories.",
 ["layer/layer.go","node/node.go"],[("activations and softmax","layer/layer.go:Layer.QueryActiveNodeAndComputeActivations"),("constant","layer/layer.go:Layer.GetNomalizationConstant"),("node activation","node/node.go:Node.GetActivation, SetlastActivation")],
 observe=["QueryActiveNodeAndComputeActivations, GetNomalizationConstant"])
P("A03","A new layer: nodes with rows and records of their own, each filed by its codes",
 "Building a layer gives the asked number of nodes. Node i has, of the loaded weights, biases and Adam moments, row i (its own consecutive piece) and nothing else, or, when none are loaded, numbers drawn for it and zero moments; it has one training record for each input of the batch, unused at first and shared with no other node or input, and the type and batch size asked for. The random order of the nodes is a permutation. Every node is filed exactly once in every hash table, at the index given by its own weights under the layer's hash function, and every bucket lists its nodes by increasing number (the last 128 of them once it is full). A softmax layer has one normalisation constant per input, other layers none. Nothing given to the constructor is changed. Drawing the hash functions again gives functions for the same number of inputs and codes and leaves nodes and tables alone; emptying leaves every bucket of every table empty and the nodes alone; adding a node to the tables appends it to exactly one bucket of each table.",
 ["inputs","configurations","histories"],"all layer and batch sizes, table shapes, hash functions, node types, loaded or drawn weights with or without Adam, all sequences of redrawing, emptying and adding",
 "The layer package has no tests; overlapping rows, shared records or a node filed under another's codes show only for particular sizes, batches and hash functions.",
 ["layer/layer.go","lsh/lsh.go","node/node.go"],[("construction","layer/layer.go:New, addToHashTable"),("hash functions and tables","layer/layer.go:Layer.UpdateTable, ClearHashTables, HashTablesAdd, GetHashForInputProcessing, HashesToIndex"),("node set-up","node/node.go:Node.Update")],
 observe=["New, GetNodeById, GetAllNodes, NumOfNodes, node accessors, RetrieveRaw of the layer's tables, UpdateTable, ClearHashTables, HashTablesAdd"])
P("S01","The data set header is accepted only if it spells three positive sizes",
 "Opening a reader on a data set reads exactly its first line. If that line consists of exactly three fields separated by single spaces, each an integer greater than 0, the reader reports them, in this order, as the number of points, features and labels and reports no error; in every other case, an empty input included, it reports the malformed-header error and all three numbers are 0. If the input itself fails before the line is complete, that error is reported, the three numbers are 0 and no line is counted; otherwise one line is counted. Nothing of an example is visible yet.",
 ["inputs","faults"],"all first lines and all readers: any split into pieces, read errors at any point, lines of any length",
 "The scanner has no tests; every malformed header and every point at which a reader can fail must be told apart from a good one.",
 ["dataset/xcrepo/xcrepo.go"],[("opening","dataset/xcrepo/xcrepo.go:NewScanner"),("header","dataset/xcrepo/xcrepo.go:Scanner.scanHeader"),("sizes and errors","dataset/xcrepo/xcrepo.go:Scanner.TotalPoints, NumFeatures, NumLabels, LineNumber, Err")],
 observe=["NewScanner, TotalPoints, NumFeatures, NumLabels, LineNumber, Err, Example"])
P("S02","A good line yields exactly the example it spells, and keeps it",
 "Each call to Scan reads exactly one further line while there is one and nothing has failed, and counts it. If the line is well formed (its first field, up to the first space, is empty or a comma-separated list of integers from 0 up to the number of labels; then one or more fields, each introduced by a single space, of the form index:value with the index an integer from 0 up to the number of features and the value a number) Scan succeeds, no error is reported, and the example has exactly these labels and these feature pairs, in the order of the line, each value being the float64 nearest to what is written. The lists of an example are not touched by later calls, so examples can be kept and batched.",
 ["inputs","histories"],"all well-formed lines of all data sets, read in any pieces, any number of examples kept while reading on",
 "The scanner has no tests; losing the last feature, sharing storage between examples or rejecting a legal line shows only on particular lines or after several reads.",
 ["dataset/xcrepo/xcrepo.go"],[("reading a line","dataset/xcrepo/xcrepo.go:Scanner.Scan"),("labels","dataset/xcrepo/xcrepo.go:Scanner.parseLabels"),("features","dataset/xcrepo/xcrepo.go:Scanner.parseFeatures"),("example","dataset/xcrepo/xcrepo.go:Scanner.Example, LineNumber")],
 observe=["Scan, Example, LineNumber, Err"])
P("S03","A bad line or failed input stops the reader with the right error, for good",
 "Scan fails on every line that is not well formed and reports what is wrong with the first wrong part from the left: malformed labels (a label that is not an integer), label out of bounds, missing features (no field after the labels), malformed features (a field that is not index:value, or whose index or value is not a number) or feature index out of bounds, which takes precedence over a bad value in the same field. Such a line is still counted. At the end of the input Scan fails without an error; after a failure of the input it fails with that error and without counting a line, even if a partial line was received. Once an error is reported, every later Scan fails, keeps that error and the line count, reads nothing and leaves an empty example, as does a Scan at the end of the input.",
 ["inputs","histories","faults"],"all lines that are not well formed, all readers failing at any point, all sequences of calls after a failure",
 "The scanner has no tests; which of several faults is reported, negative and overflowing numbers, and what happens on calls after a failure need all lines and histories.",
 ["dataset/xcrepo/xcrepo.go"],[("errors and end of input","dataset/xcrepo/xcrepo.go:Scanner.Scan, Err"),("labels","dataset/xcrepo/xcrepo.go:Scanner.parseLabels"),("features","dataset/xcrepo/xcrepo.go:Scanner.parseFeatures")],
 observe=["Scan, Err, Example, LineNumber"])
P("R01","One training step: gradients of the whole batch, then one update per node",
 "A training step over a batch works in two phases. First every example goes forward through the layers (slot i of the batch, the layer's training sparsity, the list of the layer before, the labels at every layer) and its gradients go backward from the last layer to the first; with Adam no weight, moment or bias changes in that phase, without Adam only the mirrored parameters collect the movement. Then every node of every layer is updated exactly once: with Adam each moment, second moment and weight follow from the value before the step, the gradient sum collected in this step and the learning rate corrected for the iteration (lr*sqrt(1-0.999^(iter+1))/(1-0.9^(iter+1))), likewise the bias, and every gradient sum is back to zero; without Adam the node takes the collected movement. With rehash the tables of a sparse layer are emptied first and each node is filed again under the hash of its new weights; rebuild draws a new hash function before that. No slot of the batch stays active after the step, the examples are not changed, and the network keeps its shape.",
 ["inputs","histories","configurations"],"all networks of one owner (any number and size of layers, weights, moments, tables, hash functions and modes), all batches up to the batch size with features and labels in range, all learning rates and iteration numbers, rehash and rebuild on or off",
 "The network package has no tests, and the effect of a step on one weight depends on everything before it: a moment updated from the wrong gradient, a sum not cleared, a correction off by one iteration or a node filed under its old weights only shows in the numbers of later steps.",
 ["network/network.go","layer/layer.go","node/node.go"],[("training step","network/network.go:Network.ProcessInput"),("update of one node","node/node.go:Node.SetAdamAvgMom,Node.SetAdamAvgVel,Node.SetT,Node.SetBias,Node.CopyWeightsAndBiasFromMirror"),("gradients","node/node.go:Node.BackPropagate,Node.BackPropagateFirstLayer,Node.ComputeExtaStatsForSoftMax"),("rehash","layer/layer.go:Layer.ClearHashTables,Layer.UpdateTable,Layer.HashTablesAdd")],
 observe=["ProcessInput (weights, biases, moments, gradient sums, tables, slots of every node before and after), New"])
P("R02","Prediction: the first node with the greatest activation; hits are its labels",
 "Predicting a batch runs every example through the layers in order. The first layer works on the features of the example, each further layer on the list the layer before it made; every layer gets slot i of the batch, its own prediction sparsity (the second half of the sparsity list, which may differ from the training sparsity) and no labels, so that labels never decide which nodes are active: a layer with prediction sparsity 1 lists all its nodes in order, and in modes 2 and 3 the sparse last layer lists its share of the nodes and sparse hidden layers none. The class of an example is the listed node of the last layer with the greatest activation for this example, the first of the list among equals, and 0 if the list is empty. The result is the number of examples of the batch whose labels (in any order) contain their class. Parameters, hash tables, sparsities and examples stay as they are, and the network itself is returned to its owner.",
 ["inputs","histories","configurations"],"all networks of one owner (any number and size of layers, weights, tables, hash functions and modes), prediction sparsities from 0 to 1, all batches up to the batch size with features in range and no NaN where minhash needs it, all label lists",
 "The network package has no tests; labels leaking into prediction, ties, empty lists, negative or vanishing activations and stale slots only show for particular networks, batches and histories.",
 ["network/network.go","layer/layer.go"],[("prediction","network/network.go:Network.PredictClass"),("labels","network/network.go:intSliceContains"),("layer queries","layer/layer.go:Layer.QueryActiveNodeAndComputeActivations")],
 observe=["PredictClass (hits per batch, network returned), New, ProcessInput for histories"])
