From b187d79dd889ff56edf9980431f9adf245c31d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 01/16] fix: pack WTA codes without overlap (bin width is log2
 of the bin size)

---
 lsh/lsh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsh/lsh.go b/lsh/lsh.go
index eda739c..390f42a 100644
--- a/lsh/lsh.go
+++ b/lsh/lsh.go
@@ -14,7 +14,7 @@ import (
 
 const binSize = 8
 
-var logBinSize = int(math.Floor(math.Log(float64(binSize))))
+var logBinSize = int(math.Floor(math.Log2(float64(binSize))))
 
 type LSH struct {
 	buckets  [][]*fifo.FifoBucket
-- 
2.43.0


From c3ec533056570ed8708ba06deb07eff76f07b71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 02/16] fix: keep every table index below 2^rangePow, whatever
 the hash function

---
 lsh/lsh.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsh/lsh.go b/lsh/lsh.go
index 390f42a..19ac46f 100644
--- a/lsh/lsh.go
+++ b/lsh/lsh.go
@@ -85,9 +85,9 @@ func (lsh *LSH) HashesToIndex(hashes []int) []int {
 			}
 		}
 
-		if hashFunction == configuration.DensifiedMinhashFunction {
-			index &= ((1 << lsh.rangePow) - 1)
-		}
+		// Whatever the hash function, the index must address one of the
+		// 2^rangePow buckets of the table.
+		index &= ((1 << lsh.rangePow) - 1)
 
 		indices[i] = int(index)
 	}
-- 
2.43.0


From c5a52eb9a7142ece49a52ed520cbb8bbea60507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:53 +0000
Subject: [PATCH 03/16] fix: node: copied slices must not share storage with
 the original

copyIntSlice and copyFloat64Slice made a copy and then returned their argument, so a
copy-on-write clone wrote through to the node it was cloned from.
---
 node/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 71cc12f..7db936c 100644
--- a/node/node.go
+++ b/node/node.go
@@ -521,13 +521,13 @@ func (t *NodeTrain) clone(cowId int) *NodeTrain {
 func copyIntSlice(s []int) []int {
 	newS := make([]int, len(s))
 	copy(newS, s)
-	return s
+	return newS
 }
 
 func copyFloat64Slice(s []float64) []float64 {
 	newS := make([]float64, len(s))
 	copy(newS, s)
-	return s
+	return newS
 }
 
 func intSliceContains(slice []int, value int) bool {
-- 
2.43.0


From a1d650fda4a2b06c77a12beb7806a5fb6c5fe4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:53 +0000
Subject: [PATCH 04/16] fix: node: first-layer bias step is learning rate times
 delta

---
 node/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index 7db936c..4b7d019 100644
--- a/node/node.go
+++ b/node/node.go
@@ -406,7 +406,7 @@ func (nd *Node) BackPropagateFirstLayer(
 		// TODO: ?? biasgradTsq = biasgradT * biasgradT
 		n.base.tBias += biasgradT
 	} else {
-		n.base.mirrorBias += learningRate + train[inputId].lastDeltaforBPs
+		n.base.mirrorBias += learningRate * train[inputId].lastDeltaforBPs
 	}
 
 	train[inputId].activeinputIds = 0 // deactivate inputIDs
-- 
2.43.0


From c11b51cb098766f3b2b3041444efe976668d5cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:53 +0000
Subject: [PATCH 05/16] fix: node: average the whole softmax delta over the
 batch

For a label node only the activation was divided by the batch size, not the target.
---
 node/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 4b7d019..985b444 100644
--- a/node/node.go
+++ b/node/node.go
@@ -315,8 +315,8 @@ func (nd *Node) ComputeExtaStatsForSoftMax(
 	//TODO:check gradient
 
 	if intSliceContains(labels, n.base.idInLayer) {
-		train[inputId].lastDeltaforBPs = 1.0/float64(len(labels)) -
-			train[inputId].lastActivations/float64(n.base.currentBatchsize)
+		train[inputId].lastDeltaforBPs = (1.0/float64(len(labels)) -
+			train[inputId].lastActivations) / float64(n.base.currentBatchsize)
 	} else {
 		train[inputId].lastDeltaforBPs = -train[inputId].lastActivations /
 			float64(n.base.currentBatchsize)
-- 
2.43.0


From 99b01b87f6a24d315f01b09b2f03c4e62c9c4d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:35 +0000
Subject: [PATCH 06/16] fix: wta_hash: hash sparse data by feature index

Features were looked up by their position in the list of active inputs, which panics
for (or misreads) anything but a complete list in index order.
---
 wta_hash/wta_hash.go | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/wta_hash/wta_hash.go b/wta_hash/wta_hash.go
index a8dc16e..100aa36 100644
--- a/wta_hash/wta_hash.go
+++ b/wta_hash/wta_hash.go
@@ -60,32 +60,13 @@ func New(numHashes, numOfBitsToHash int) *WtaHash {
 }
 
 func (wh *WtaHash) GetHash(data []index_value.Pair) []int {
-	hashes := make([]int, wh.numHashes)
-	values := make([]float64, wh.numHashes)
-
-	for i := 0; i < wh.numHashes; i++ {
-		hashes[i] = math.MinInt64
-		values[i] = math.MinInt64
+	dense := make([]float64, wh.rangePow)
+	for _, pair := range data {
+		dense[pair.Index] = pair.Value
 	}
-
-	for i := 0; i < wh.numHashes; i++ {
-		iOffset := i * binSize
-
-		for j := 0; j < binSize; j++ {
-			jOffset := iOffset + j
-
-			curIndex := wh.indices[jOffset]
-			if value := data[curIndex].Value; values[i] < value {
-				hashes[i] = curIndex
-				values[i] = value
-			}
-		}
-	}
-
-	return hashes
+	return wh.GetHashDense(dense)
 }
 
-// TODO: avoid code duplication
 func (wh *WtaHash) GetHashDense(data []float64) []int {
 	hashes := make([]int, wh.numHashes)
 	values := make([]float64, wh.numHashes)
-- 
2.43.0


From 4700d6fd1d4573e7707fff171a474f02eadb52e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:35 +0000
Subject: [PATCH 07/16] fix: densified_wta_hash: hash sparse data by feature
 index

The position in the list of active inputs was used instead of the feature it names.
---
 densified_wta_hash/densified_wta_hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index 1dd3794..a943472 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -84,8 +84,8 @@ func (dw *DensifiedWtaHash) GetHash(data []index_value.Pair) []int {
 
 	for p := 0; p < dw.permute; p++ {
 		binIndex := p * dw.rangePow
-		for i, pair := range data {
-			innerIndex := binIndex + i
+		for _, pair := range data {
+			innerIndex := binIndex + pair.Index
 			binId := dw.indices[innerIndex]
 			if binId < dw.numHashes &&
 				(!items[binId].init || items[binId].value < pair.Value) {
-- 
2.43.0


From f63e25fd9385eb02fc99085e8e02b29bdb11de8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:35 +0000
Subject: [PATCH 08/16] fix: densified_wta_hash: probe for densification in
 32-bit arithmetic

The shift expects a 32-bit product; with 64 bits nearly every probe fell on the last bin.
---
 densified_wta_hash/densified_wta_hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index a943472..b1e0a2b 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -163,8 +163,8 @@ func (dw *DensifiedWtaHash) GetHashEasy(data []float64, topK int) []int {
 }
 
 func (dw *DensifiedWtaHash) GetRandDoubleHash(binId, count int) int {
-	toHash := ((uint(binId) + 1) << 6) + uint(count)
-	return int((uint(dw.randHash[0]) * toHash << 3) >> (32 - dw.logNumHash)) // logNumHash needs to be ceiled.
+	toHash := ((uint32(binId) + 1) << 6) + uint32(count)
+	return int((uint32(dw.randHash[0]) * toHash << 3) >> (32 - dw.logNumHash)) // logNumHash needs to be ceiled.
 }
 
 func positiveOddRandomInt() int {
-- 
2.43.0


From 7d1503b2b0395af77f700d556b24a2a7041aa9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:35 +0000
Subject: [PATCH 09/16] fix: densified_minhash: probe for densification in
 32-bit arithmetic

The shift expects a 32-bit product; with 64 bits nearly every probe fell on the last bin.
---
 densified_minhash/densified_minhash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 85addf4..14005f5 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -194,8 +194,8 @@ func (dm *DensifiedMinhash) GetHashEasyDense(
 }
 
 func (dm *DensifiedMinhash) GetRandDoubleHash(binId, count int) int {
-	toHash := ((uint(binId) + 1) << 6) + uint(count)
-	return int((uint(dm.randHash[0]) * toHash << 3) >> (32 - dm.logNumHash)) // logNumHash needs to be ceiled.
+	toHash := ((uint32(binId) + 1) << 6) + uint32(count)
+	return int((uint32(dm.randHash[0]) * toHash << 3) >> (32 - dm.logNumHash)) // logNumHash needs to be ceiled.
 }
 
 func (dm *DensifiedMinhash) GetMap(n int) []int {
-- 
2.43.0


From 4bda2ec3917b93638cb35fe2429b00dc32b5c7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:08 +0000
Subject: [PATCH 10/16] fix: densified_minhash: keep the topK largest values

The queue popped the largest value whenever it overflowed, so the smallest were kept.
---
 densified_minhash/index_value_pairs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/index_value_pairs.go b/densified_minhash/index_value_pairs.go
index 57f0c80..96c9125 100644
--- a/densified_minhash/index_value_pairs.go
+++ b/densified_minhash/index_value_pairs.go
@@ -20,8 +20,8 @@ func (p indexValuePriorityQueue) Len() int {
 }
 
 func (p indexValuePriorityQueue) Less(i, j int) bool {
-	// lower is better
-	return p[i].value > p[j].value // TODO: check if correct
+	// the lowest value is the first to be popped
+	return p[i].value < p[j].value
 }
 
 func (p indexValuePriorityQueue) Swap(i, j int) {
-- 
2.43.0


From d6d21db34358a9b85437eebba956376fec393933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:08 +0000
Subject: [PATCH 11/16] fix: densified_minhash: hash sparse data by feature
 index

The position in the list of active inputs was used instead of the feature it names.
---
 densified_minhash/densified_minhash.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 14005f5..7ff7b56 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -87,14 +87,14 @@ func (dm *DensifiedMinhash) GetHashEasy(
 	// with index as key and values as priority value, get topk index
 	// O(1) and apply minhash on retuned index.
 	pq := make(indexValuePriorityQueue, topK, topK+1)
-	for index, value := range data[0:topK] {
-		pq[index] = indexValuePair{index, value.Value}
+	for i, pair := range data[0:topK] {
+		pq[i] = indexValuePair{pair.Index, pair.Value}
 	}
 	heap.Init(&pq)
 
 	dataLen := len(data)
-	for index := topK; index < dataLen; index++ {
-		heap.Push(&pq, indexValuePair{index, data[index].Value})
+	for i := topK; i < dataLen; i++ {
+		heap.Push(&pq, indexValuePair{data[i].Index, data[i].Value})
 		heap.Pop(&pq)
 	}
 
-- 
2.43.0


From 73f28b52ba87df4253933a3406c5edef0c85fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:08 +0000
Subject: [PATCH 12/16] fix: densified_minhash: accept data with fewer than
 topK values

---
 densified_minhash/densified_minhash.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 7ff7b56..1e167a6 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -83,6 +83,8 @@ func (dm *DensifiedMinhash) GetHashEasy(
 	data []index_value.Pair,
 	topK int,
 ) []int {
+	topK = minInt(topK, len(data))
+
 	// Read the data and add it to priority queue O(dlogk approx 7d)
 	// with index as key and values as priority value, get topk index
 	// O(1) and apply minhash on retuned index.
@@ -141,6 +143,8 @@ func (dm *DensifiedMinhash) GetHashEasyDense(
 	data []float64,
 	topK int,
 ) []int {
+	topK = minInt(topK, len(data))
+
 	// Read the data and add it to priority queue O(dlogk approx 7d)
 	// with index as key and values as priority value, get topk index
 	// O(1) and apply minhash on retuned index.
-- 
2.43.0


From 528a73540ad42ea5b997efe1a09608c83377bfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:09 +0000
Subject: [PATCH 13/16] fix: densified_minhash: keep bins in range whatever the
 range

With rangePow, the number of features, above 62 the range overflowed and the bins were arbitrary.
---
 densified_minhash/densified_minhash.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 1e167a6..12dd376 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -205,7 +205,9 @@ func (dm *DensifiedMinhash) GetRandDoubleHash(binId, count int) int {
 func (dm *DensifiedMinhash) GetMap(n int) []int {
 	binIds := make([]int, n)
 
-	rng := 1 << dm.rangePow
+	// Larger ranges do not fit in the 64 bits of a hash, nor in a float.
+	rangePow := minInt(dm.rangePow, 52)
+	rng := 1 << rangePow
 
 	// The number of times the range is larger than
 	// the total number of hashes we need.
@@ -222,7 +224,7 @@ func (dm *DensifiedMinhash) GetMap(n int) []int {
 		mh.Write(buf[:bufLen])
 		curHash := mh.Sum64()
 
-		curHash = curHash & ((1 << dm.rangePow) - 1)
+		curHash = curHash & ((1 << rangePow) - 1)
 		binIds[i] = int(math.Floor(float64(curHash) / float64(binSize)))
 	}
 
-- 
2.43.0


From bf73dea119b000afa79bf27012df3ea77deed712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:14 +0000
Subject: [PATCH 14/16] fix: layer mode 3 takes only the best nodes, instead of
 writing past the list when sparsity is below 1

---
 layer/layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index 9397dcb..cc22d7b 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -406,7 +406,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 
 				sort.Sort(indexValuePairByValue(sortW))
 
-				for i, sw := range sortW {
+				for i, sw := range sortW[:length] {
 					activeNodesPerLayer[layerIndex+1][i].Index = sw.Index
 					if intSliceContains(label, sw.Index) {
 						in = 1
-- 
2.43.0


From 6ec1f03341af6a5ad6c10c71a03ddfe04f14eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:15 +0000
Subject: [PATCH 15/16] fix: layer mode 4 counts a repeated label once, so that
 no spurious node 0 becomes active

---
 layer/layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index cc22d7b..05ec202 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -453,9 +453,11 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 			// Make sure that the true label node is in candidates
 			if l.nodeType == node.Softmax && len(label) > 0 {
 				for _, labelValue := range label {
+					if counts[labelValue] == -1 {
+						countsSize++
+					}
 					counts[labelValue] = l.l
 				}
-				countsSize = len(label)
 			}
 
 			for _, iVal := range actives {
-- 
2.43.0


From d41593f82faa6bfc8987377c3fc0a960e537ff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:15 +0000
Subject: [PATCH 16/16] fix: layer mode 2 takes each label once, no more labels
 than nodes to choose, and any number of nodes

---
 layer/layer.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/layer/layer.go b/layer/layer.go
index 05ec202..cb957dd 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -26,7 +26,6 @@ const topK = 30
 const normalDistributionStdDev = 0.01
 const normalDistributionMean = 0.0
 const threshold = 2
-const mapLen = 325_056
 
 type Layer struct {
 	cowId                   int // "thread" ID for copy on write
@@ -360,14 +359,16 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 				length = int(math.Floor(float64(len(l.nodes)) * sparsity))
 				activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)
 
-				bs := make([]bool, mapLen) // bitset
+				bs := make([]bool, len(l.nodes)) // bitset
 				tmpSize := 0
 				if l.nodeType == node.Softmax && len(label) > 0 {
-					for i, labelValue := range label {
-						activeNodesPerLayer[layerIndex+1][i].Index = labelValue
-						bs[labelValue] = true
+					for _, labelValue := range label {
+						if tmpSize < length && !bs[labelValue] {
+							activeNodesPerLayer[layerIndex+1][tmpSize].Index = labelValue
+							bs[labelValue] = true
+							tmpSize++
+						}
 					}
-					tmpSize = len(label)
 				}
 				for tmpSize < length {
 					v := rand.Intn(len(l.nodes))
-- 
2.43.0

