From 406042120ad53a738cab68be32cb6c4b032a1236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:39 +0000
Subject: [PATCH 01/17] fix: searching an empty tree must not touch the first
 block

The background goroutine may not have allocated it yet, in which case
Lookup and the prefix searches panicked.
---
 radix.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/radix.go b/radix.go
index d8479c0..c99cdf6 100644
--- a/radix.go
+++ b/radix.go
@@ -313,6 +313,10 @@ func (idx *Tree) getNodeFromRaw(raw uint64) (count, prefixLen int, data []uint64
 
 func (idx *Tree) partialSearch(searchPrefix []byte) (raw uint64, depth int) {
 	root := atomic.LoadUint64(&idx.root)
+	if root == 0 {
+		// empty tree, the first block may not even be allocated yet
+		return 0, 0
+	}
 	if len(searchPrefix) == 0 {
 		return root, 0
 	}
@@ -508,6 +512,10 @@ func (idx *Tree) Count(searchPrefix []byte) (nodes, leaves int) {
 func (idx *Tree) search(key []byte) (uint64, bool) {
 	depth := 0
 	root := atomic.LoadUint64(&idx.root)
+	if root == 0 {
+		// empty tree, the first block may not even be allocated yet
+		return 0, false
+	}
 	if isLeaf(root) {
 		if byte(root) == key[0] {
 			return getLeafValue(root), true
-- 
2.43.0


From f17a2eb0626385b74e557d0f0d1f16db6467d37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:39 +0000
Subject: [PATCH 02/17] fix: recycling a node of 258 slots indexed past the
 recycler lists

---
 allocator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator.go b/allocator.go
index 6db5d74..b79dbc1 100644
--- a/allocator.go
+++ b/allocator.go
@@ -178,7 +178,7 @@ func (a *Allocator) endOp() {
 }
 
 func (a *Allocator) recycle(node uint64, slots int) {
-	if slots > len(a.recycler) {
+	if slots >= len(a.recycler) {
 		return
 	}
 	e := atomic.LoadUint64(a.globalEpoch)
-- 
2.43.0


From 721e6071e88f12dce560c07b1bf619daf33f4ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:40 +0000
Subject: [PATCH 03/17] fix: aborting a delete that replaces a node by its
 child panicked

The nodes were passed to unlockNodes3 in reverse order, so without a parent
the lock of a non existing node was released.
---
 delete.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index b7537db..5042ad2 100644
--- a/delete.go
+++ b/delete.go
@@ -341,7 +341,7 @@ func (op *DeleteOperation) Abort() {
 	case deleteLeaf, replaceNodeWithLeaf:
 		op.unlock()
 	case replaceNodeWithNode:
-		op.idx.unlockNodes3(op.parent, op.node, op.child)
+		op.unlock3()
 	}
 	op.allocator.endOp()
 	if op.releaseAlloc {
-- 
2.43.0


From e9abac60edfdac243fec32f6e3a6ad66080cfde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:40 +0000
Subject: [PATCH 04/17] fix: deleting from a node-256 could be lost when the
 node was replaced

Finalize cleared the leaf without holding the lock of the node, so a
concurrent copy of the node (prefix split, merge with its parent) kept the
deleted key.
---
 delete.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index 5042ad2..2e0b02d 100644
--- a/delete.go
+++ b/delete.go
@@ -319,7 +319,11 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		// PARAMETERS: op.leafPtr, op.raw
 		// TODO(oscar): replace with a variable sized node when the threshold size is reached?
 		// TODO(oscar): replace with a leaf when there is only one child left
-		deleted = atomic.CompareAndSwapUint64(op.leafPtr, op.raw, 0)
+		// the node may have been copied since it was prepared, in which case clearing the leaf in the old node would be lost
+		if op.lock() {
+			deleted = atomic.CompareAndSwapUint64(op.leafPtr, op.raw, 0)
+			op.unlock()
+		}
 		if deleted {
 			op.allocator.itemCounter--
 		}
-- 
2.43.0


From c03aaa5317328eb86ea874181092db322f07751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:41 +0000
Subject: [PATCH 05/17] fix: locking nodes which share a lock ignored the
 generation of all but one

A change of the parent between reading the two generations was not noticed
when node and parent share one lock.
---
 locks.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/locks.go b/locks.go
index ad61f9e..a797ad4 100644
--- a/locks.go
+++ b/locks.go
@@ -37,6 +37,12 @@ func (idx *Tree) isLocked(node uint64) bool {
 	return atomic.LoadInt32(&idx.blocks[block].locks[lock])&1 == 1
 }
 
+// sharesChangedLock tells if two nodes use the same lock, but read different generations from it.
+// This means that the lock was taken by someone else in between, and one of the nodes might have changed.
+func (idx *Tree) sharesChangedLock(a uint64, aGen int32, b uint64, bGen int32) bool {
+	return a>>blockSlotsShift == b>>blockSlotsShift && a&lockOffsetMask == b&lockOffsetMask && aGen != bGen
+}
+
 // lockNodes3 locks three nodes (parent node, node, child node), given their generations have not changed.
 // Parent may be zero. It returns true if successful.
 func (idx *Tree) lockNodes3(child uint64, childGen int32, node uint64, nodeGen int32, parent uint64, parentGen int32) (locked bool) {
@@ -47,6 +53,9 @@ func (idx *Tree) lockNodes3(child uint64, childGen int32, node uint64, nodeGen i
 		// child, node or parent already locked
 		return false
 	}
+	if idx.sharesChangedLock(child, childGen, node, nodeGen) || idx.sharesChangedLock(child, childGen, parent, parentGen) || idx.sharesChangedLock(node, nodeGen, parent, parentGen) {
+		return false
+	}
 	// lock child
 	block := child >> blockSlotsShift
 	lock := child & lockOffsetMask
@@ -120,6 +129,9 @@ func (idx *Tree) lockNodes2(node uint64, nodeGen int32, parent uint64, parentGen
 		// node or parent already locked
 		return false
 	}
+	if idx.sharesChangedLock(node, nodeGen, parent, parentGen) {
+		return false
+	}
 	// first lock node
 	block := node >> blockSlotsShift
 	lock := node & lockOffsetMask
-- 
2.43.0


From 30fe85184edf751715d10dec5a9cf2ece6afb8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:34 +0000
Subject: [PATCH 06/17] fix: merging a node with its child leaked the node

Only the child was recycled when a delete replaced a node by its only
remaining child node.
---
 delete.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index 2e0b02d..233efd8 100644
--- a/delete.go
+++ b/delete.go
@@ -55,6 +55,9 @@ type DeleteOperation struct {
 	prefixSlots  int
 	leafPosition int
 
+	// the number of slots used by the node being replaced by its child
+	nodeSlots int
+
 	prefix []byte
 }
 
@@ -229,6 +232,8 @@ searchLoop:
 						goto S
 					}
 
+					op.nodeSlots = count + op.prefixSlots
+
 					// now build the new prefix, start with adding the existing prefix for the current node (the one being replaced)
 					op.prefix, _ = appendPrefix(op.prefix[:0], op.data, prefixLen)
 					// add the child node key
@@ -291,7 +296,8 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		atomic.StoreUint64(op.nodePtr, buildNode(byte(op.raw), newNode, op.count, len(op.prefix)))
 		// unlock
 		op.unlock3()
-		// recycle the old child node
+		// recycle the old node and the old child node
+		op.allocator.recycle(op.node, op.nodeSlots)
 		op.allocator.recycle(op.child, op.count+op.prefixSlots)
 		op.allocator.itemCounter--
 		deleted = true
-- 
2.43.0


From 88d059e2977e7e2ecc91da749afa21f9669d5353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:35 +0000
Subject: [PATCH 07/17] fix: MinKey and MaxKey missed keys next to an emptied
 node-256

They also read nodes without reserving an epoch, so the nodes could be
reused by concurrent writers while they were read.
---
 radix.go | 118 ++++++++++++++++++++-----------------------------------
 1 file changed, 42 insertions(+), 76 deletions(-)

diff --git a/radix.go b/radix.go
index c99cdf6..9b0e520 100644
--- a/radix.go
+++ b/radix.go
@@ -399,104 +399,70 @@ searchLoop:
 // For example, if we store temperature readings using the key "temp_TIMESTAMP" where timestamp is an 8 byte BigEndian ns timestamp
 // MaxKey([]byte("temp_")) returns the last made reading.
 func (idx *Tree) MaxKey(searchPrefix []byte) (v uint64, ok bool) {
+	// reserve the current epoch, so the nodes are not reused while we read them
+	alloc := idx.GetAllocator()
+	alloc.startOp()
 	raw, _ := idx.partialSearch(searchPrefix)
-	if raw == 0 {
-		return 0, false
+	if raw != 0 {
+		v, ok = idx.lastLeaf(raw)
 	}
+	alloc.endOp()
+	idx.ReleaseAllocator(alloc)
+	return
+}
+
+// lastLeaf returns the value of the last leaf at or below raw. If ok is false there is none, which
+// happens if all children of a node-256 have been deleted, since we currently don't shrink them.
+func (idx *Tree) lastLeaf(raw uint64) (v uint64, ok bool) {
 	if isLeaf(raw) {
 		return getLeafValue(raw), true
 	}
-	// now find the max
-searchLoop:
-	for {
-		_, node, count, prefixLen := explodeNode(raw)
-		block := int(node >> blockSlotsShift)
-		offset := int(node & blockSlotsOffsetMask)
-		data := idx.blocks[block].data[offset:]
-		var prefixSlots int
-		if prefixLen > 0 {
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = (prefixLen + 15) >> 3
-			} else {
-				prefixSlots = (prefixLen + 7) >> 3
-			}
-			data = data[prefixSlots:]
-		}
-		if count >= fullAllocFrom {
-			// find max, iterate from top
-			for k := 255; k >= 0; k-- {
-				a := atomic.LoadUint64(&data[k])
-				if a != 0 {
-					if isLeaf(a) {
-						return getLeafValue(a), true
-					}
-					raw = a
-					continue searchLoop
-				}
+	// iterate from top (children are ordered)
+	count, _, data := idx.getNodeFromRaw(raw)
+	for k := count - 1; k >= 0; k-- {
+		a := atomic.LoadUint64(&data[k])
+		if a != 0 {
+			if v, ok = idx.lastLeaf(a); ok {
+				return v, true
 			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
-			return 0, false
-		}
-		// load the last child (since they are ordered)
-		a := atomic.LoadUint64(&data[count-1])
-		if isLeaf(a) {
-			return getLeafValue(a), true
 		}
-		raw = a
 	}
+	return 0, false
 }
 
 // MinKey returns the minimum key having the given searchPrefix, or the minimum key in the whole index if searchIndex is nil.
 // Minimum means the first key in the lexicographic order. If keys are uint64 in BigEndian it is also the smallest number.
 // If ok is false the index is empty.
 func (idx *Tree) MinKey(searchPrefix []byte) (v uint64, ok bool) {
+	// reserve the current epoch, so the nodes are not reused while we read them
+	alloc := idx.GetAllocator()
+	alloc.startOp()
 	raw, _ := idx.partialSearch(searchPrefix)
-	if raw == 0 {
-		return 0, false
+	if raw != 0 {
+		v, ok = idx.firstLeaf(raw)
 	}
+	alloc.endOp()
+	idx.ReleaseAllocator(alloc)
+	return
+}
+
+// firstLeaf returns the value of the first leaf at or below raw. If ok is false there is none, which
+// happens if all children of a node-256 have been deleted, since we currently don't shrink them.
+func (idx *Tree) firstLeaf(raw uint64) (v uint64, ok bool) {
 	if isLeaf(raw) {
 		return getLeafValue(raw), true
 	}
-	// now find the min
-searchLoop:
-	for {
-		_, node, count, prefixLen := explodeNode(raw)
-		block := int(node >> blockSlotsShift)
-		offset := int(node & blockSlotsOffsetMask)
-		data := idx.blocks[block].data[offset:]
-		var prefixSlots int
-		if prefixLen > 0 {
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = (prefixLen + 15) >> 3
-			} else {
-				prefixSlots = (prefixLen + 7) >> 3
-			}
-			data = data[prefixSlots:]
-		}
-		if count >= fullAllocFrom {
-			// find min, iterate from bottom
-			for k := range data[:count] {
-				a := atomic.LoadUint64(&data[k])
-				if a != 0 {
-					if isLeaf(a) {
-						return getLeafValue(a), true
-					}
-					raw = a
-					continue searchLoop
-				}
+	// iterate from bottom (children are ordered)
+	count, _, data := idx.getNodeFromRaw(raw)
+	for k := range data[:count] {
+		a := atomic.LoadUint64(&data[k])
+		if a != 0 {
+			if v, ok = idx.firstLeaf(a); ok {
+				return v, true
 			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
-			return 0, false
-		}
-		// load first child (since they are ordered)
-		a := atomic.LoadUint64(&data[0])
-		if isLeaf(a) {
-			return getLeafValue(a), true
 		}
-		raw = a
 	}
+	return 0, false
 }
 
 // NewIterator returns an Iterator for iterating in order over all keys having the given prefix, or the complete index if searchPrefix is nil.
-- 
2.43.0


From e1f670db25e79803065f41e9255c6b93c58bf4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:04 +0000
Subject: [PATCH 08/17] fix: iterators repeated or skipped keys when continuing
 after a batch

The position where the next batch starts was garbage if nothing was left, was
relative to a search prefix which may end elsewhere by then, and was not found
again if its node had been deleted or replaced in the meantime, in which case
the scan was restarted. Store an absolute partial key and continue with
whatever follows it.
---
 iterator.go | 157 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 92 insertions(+), 65 deletions(-)

diff --git a/iterator.go b/iterator.go
index 6954a4f..583039d 100644
--- a/iterator.go
+++ b/iterator.go
@@ -28,6 +28,8 @@ type Iterator struct {
 	pp           int
 	searchPrefix []byte
 	resumeAt     []byte
+	startDepth   int
+	prefix       []byte
 	done         bool
 }
 
@@ -69,93 +71,90 @@ func (i *Iterator) Next() bool {
 	alloc.startOp()
 
 	// 2. seek to start
-	var raw uint64
+	var (
+		raw   uint64
+		depth int
+	)
 	if len(i.searchPrefix) > 0 {
-		raw, _ = i.idx.partialSearch(i.searchPrefix)
+		raw, depth = i.idx.partialSearch(i.searchPrefix)
 	} else {
 		raw = atomic.LoadUint64(&i.idx.root)
 	}
-	if raw == 0 {
+	if raw == 0 || isLeaf(raw) {
 		alloc.endOp()
 		i.idx.ReleaseAllocator(alloc)
 		i.done = true
-		return false
-	}
-	if isLeaf(raw) {
-		alloc.endOp()
-		i.idx.ReleaseAllocator(alloc)
+		if raw == 0 || !i.isAhead(raw, depth) {
+			return false
+		}
+		i.prefetched = i.prefetched[:0]
 		i.pp = 0
 		i.value = getLeafValue(raw)
-		i.done = true
 		return true
 	}
+	i.startDepth = depth
 
 	// 3. seek to the partial key where we last left of, while building stack
-	// we traverse i.resumeAt to reposition raw & nextChild
+	// we traverse i.resumeAt to reposition raw & nextChild. The tree might have changed since, in which case we
+	// position on whatever follows i.resumeAt
 	nextChild := 0
 preSearchLoop:
-	for k := 0; k < len(i.resumeAt); k++ {
+	for depth < len(i.resumeAt) {
 		_, node, count, prefixLen := explodeNode(raw)
 		data := i.idx.getNodeData(node)
 		if prefixLen > 0 {
 			var prefixSlots int
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = ((prefixLen + 15) >> 3)
-			} else {
-				prefixSlots = ((prefixLen + 7) >> 3)
-			}
+			i.prefix, prefixSlots = appendPrefix(i.prefix[:0], data, prefixLen)
 			data = data[prefixSlots:]
-			k += prefixLen
-			if k >= len(i.resumeAt) {
+			for _, b := range i.prefix {
+				if depth == len(i.resumeAt) || b > i.resumeAt[depth] {
+					// the whole node is still ahead of us
+					break preSearchLoop
+				}
+				if b < i.resumeAt[depth] {
+					// the whole node is behind us
+					nextChild = count
+					break preSearchLoop
+				}
+				depth++
+			}
+			if depth == len(i.resumeAt) {
 				break preSearchLoop
 			}
 		}
 
-		char := i.resumeAt[k]
-		if count >= fullAllocFrom {
-			// check a fixed size node-256
-			a := atomic.LoadUint64(&data[int(char)])
-			if a != 0 && byte(a) == char {
-				if isLeaf(a) {
-					nextChild = int(char)
-					break preSearchLoop
-				}
-				// child node found
-				// since it's a node-256 we need to check if there are any more children in this node
-				var next int
-				for next = int(char) + 1; next < count; next++ {
-					if atomic.LoadUint64(&data[next]) != 0 {
-						break
-					}
-				}
-				// go down into this node, saving the current position on the stack
-				i.stack = append(i.stack, position{raw, next, next < count})
-				raw = a
-				continue preSearchLoop
+		// find the first child which is not behind us
+		char := i.resumeAt[depth]
+		var a uint64
+		for nextChild = 0; nextChild < count; nextChild++ {
+			a = atomic.LoadUint64(&data[nextChild])
+			if a != 0 && byte(a) >= char {
+				break
 			}
-			// if no node was found, it means that this subtree might have been deleted since last iteration
-			// what are our options in this case ?
+		}
+		if nextChild == count || byte(a) != char {
 			break preSearchLoop
-		} else {
-			// scan a variable sized node
-			for l := range data[:count] {
-				a := atomic.LoadUint64(&data[l])
-				if byte(a) == char {
-					if isLeaf(a) {
-						nextChild = l
-						break preSearchLoop
-					}
-					// go down into this node, saving the current position on the stack
-					i.stack = append(i.stack, position{raw, l + 1, l+1 < count})
-					raw = a
-					continue preSearchLoop
+		}
+		if isLeaf(a) {
+			if !i.isAhead(a, depth) {
+				nextChild++
+			}
+			break preSearchLoop
+		}
+		// go down into this node, saving the current position on the stack
+		next := nextChild + 1
+		if count >= fullAllocFrom {
+			// since it's a node-256 we need to check if there are any more children in this node
+			for ; next < count; next++ {
+				if atomic.LoadUint64(&data[next]) != 0 {
+					break
 				}
 			}
-			// if no node was found, it means that this subtree might have been deleted since last iteration
-			// what are our options in this case ?
-			break
 		}
+		i.stack = append(i.stack, position{raw, next, next < count})
+		raw = a
+		depth++
+		nextChild = 0
 	}
 
 	// 4. continue the scan, adding leaves to the prefetched array
@@ -208,7 +207,7 @@ searchLoop:
 		}
 		// if we have prefetched enough values, save the position and abort the scan
 		if len(i.prefetched) > defaultPrefetchLength {
-			i.storeResumePosition()
+			i.done = !i.storeResumePosition()
 			break
 		}
 		// pop from stack
@@ -230,20 +229,44 @@ searchLoop:
 	return false
 }
 
-func (i *Iterator) storeResumePosition() {
+// isAhead tells if a leaf with its key byte at depth is not behind i.resumeAt.
+// If the leaf replaces a node we were about to continue in, the remaining bytes of its key are not known.
+// In this case it's ahead of us unless it was part of the last batch.
+func (i *Iterator) isAhead(leaf uint64, depth int) bool {
+	if depth >= len(i.resumeAt) || byte(leaf) > i.resumeAt[depth] {
+		return true
+	}
+	if byte(leaf) < i.resumeAt[depth] {
+		return false
+	}
+	if depth+1 < len(i.resumeAt) {
+		for _, v := range i.prefetched {
+			if v == getLeafValue(leaf) {
+				return false
+			}
+		}
+	}
+	return true
+}
+
+// storeResumePosition stores the partial key where the next batch starts. It returns false if there is nothing left.
+func (i *Iterator) storeResumePosition() bool {
 	// first trim consecutive items without any more children from end of stack
 	var j int
-	for j = len(i.stack) - 1; j > 0; j-- {
+	for j = len(i.stack) - 1; j >= 0; j-- {
 		if i.stack[j].more {
 			break
 		}
 	}
 	i.stack = i.stack[:j+1]
+	if len(i.stack) == 0 {
+		return false
+	}
 
 	// traverse stack from start to end to build the partial key we should continue from
-	i.resumeAt = i.resumeAt[:0]
+	i.resumeAt = append(i.resumeAt[:0], i.searchPrefix[:i.startDepth]...)
 	for j, pos := range i.stack {
-		key, node, _, prefixLen := explodeNode(pos.node)
+		key, node, count, prefixLen := explodeNode(pos.node)
 		data := i.idx.getNodeData(node)
 		if j > 0 {
 			i.resumeAt = append(i.resumeAt, key)
@@ -254,10 +277,14 @@ func (i *Iterator) storeResumePosition() {
 		}
 		// for the last stack item, we need to add the nextChild too
 		if j == len(i.stack)-1 {
-			a := atomic.LoadUint64(&data[prefixSlots+pos.k])
-			i.resumeAt = append(i.resumeAt, byte(a))
+			k := byte(pos.k)
+			if count < fullAllocFrom {
+				k = byte(atomic.LoadUint64(&data[prefixSlots+pos.k]))
+			}
+			i.resumeAt = append(i.resumeAt, k)
 		}
 	}
+	return true
 }
 
 // Value returns the value stored at the current item.
-- 
2.43.0


From 87c8ea06bb03d1ecb8a7b4c60d818a3c046ba92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:12 +0000
Subject: [PATCH 09/17] fix: saved state could lack the latest block and recent
 item counts

A block handed out before the block allocator goroutine ran again was not
written, the counters not yet flushed by the allocators were lost, and the
empty flag of an allocator was never restored.
---
 allocator.go |  2 +-
 state.go     | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/allocator.go b/allocator.go
index b79dbc1..1363a11 100644
--- a/allocator.go
+++ b/allocator.go
@@ -281,7 +281,7 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 
 		switch string(line[:space]) {
 		case "empty":
-			a.empty = bytes.Equal(line[space+1:], []byte("true"))
+			a.empty = bytes.Equal(values, []byte("true"))
 		case "next_free":
 			a.nextFree = v
 		case "block":
diff --git a/state.go b/state.go
index 8f63d92..e476643 100644
--- a/state.go
+++ b/state.go
@@ -19,8 +19,18 @@ import (
 func (idx *Tree) writeState(out io.Writer) (int, error) {
 	written := 0
 
+	// the counters of the allocators are not saved, so add them to the total
+	// a block which was just handed out might not be included in nextFreeBlock yet
+	next := int(atomic.LoadUint64(&idx.nextFreeBlock))
+	for _, a := range idx.allocators {
+		a.FlushStats()
+		if !a.empty && a.block >= next {
+			next = a.block + 1
+		}
+	}
+
 	// write metadata: blocksize, number of blocks, number of allocators, root node location
-	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", atomic.LoadInt64(&idx.liveObjects), blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
+	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", atomic.LoadInt64(&idx.liveObjects), blockSize, next, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
 	if err != nil {
 		return 0, err
 	}
@@ -88,7 +98,6 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 		writerDone <- nil
 	}()
 
-	next := int(atomic.LoadUint64(&idx.nextFreeBlock))
 	for i := 0; i < next; i++ {
 		toCompress <- i
 	}
-- 
2.43.0


From be43db40142bb4716824fe197cbde97dd23cc7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:13 +0000
Subject: [PATCH 10/17] fix: WriteState blocked forever after a failed write

The writer goroutine stopped receiving compressed blocks, so with more blocks
than fit in the channel the workers never finished.
---
 state.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/state.go b/state.go
index e476643..1afd618 100644
--- a/state.go
+++ b/state.go
@@ -78,24 +78,29 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 	go func() {
 		// writer
 		var writeTime time.Duration
+		// after a failed write, continue to drain the channel. The workers would otherwise block
+		var failed error
 		for job := range toWrite {
+			if failed != nil {
+				continue
+			}
 			n, err := out.Write([]byte(fmt.Sprintf("block %d\ncompression snappy\nsize %d\n", job.block, len(job.buf))))
+			written += n
 			if err != nil {
-				writerDone <- err
-				return
+				failed = err
+				continue
 			}
-			written += n
 			start := time.Now()
 			n, err = out.Write(job.buf)
 			jobPool.Put(job)
+			written += n
 			if err != nil {
-				writerDone <- err
-				return
+				failed = err
+				continue
 			}
-			written += n
 			writeTime += time.Since(start)
 		}
-		writerDone <- nil
+		writerDone <- failed
 	}()
 
 	for i := 0; i < next; i++ {
-- 
2.43.0


From f1e0677e8da3ed528fc843b591b610aaf155006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:36 +0000
Subject: [PATCH 11/17] fix: loading a truncated or malformed state succeeded
 or panicked

NewTreeFromState ignored a cut off last line, unparsable numbers and missing
headers, allocators and blocks, and indexed or dereferenced with unchecked
values. Return an error in all these cases.
---
 allocator.go | 53 ++++++++++++++++++++++++++--------
 state.go     | 80 ++++++++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 115 insertions(+), 18 deletions(-)

diff --git a/allocator.go b/allocator.go
index 1363a11..6cc78c7 100644
--- a/allocator.go
+++ b/allocator.go
@@ -258,6 +258,7 @@ func (a *Allocator) allocateNode(slots int) (n uint64) {
 }
 
 func (a *Allocator) loadState(reader *bufio.Reader) error {
+	seen := make(map[string]bool)
 	// reset recyclers
 	for i := range a.recycler {
 		a.recycler[i] = a.recycler[i][:0]
@@ -269,6 +270,11 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 		}
 		// an single \n means allocator section is over
 		if len(line) == 1 {
+			for _, header := range []string{"empty", "next_free", "block", "block_size", "offset"} {
+				if !seen[header] {
+					return fmt.Errorf("Corrupted state file, missing %s of allocator %d", header, a.id)
+				}
+			}
 			return nil
 		}
 		space := bytes.IndexByte(line, ' ')
@@ -276,17 +282,35 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 			return fmt.Errorf("Corrupted state file, ignoring bad line %v", line)
 		}
 		// trim \n !
-		values := line[space+1 : len(line)-1]
-		v, _ := strconv.ParseUint(string(values), 10, 64)
+		header, values := string(line[:space]), line[space+1:len(line)-1]
+		var v uint64
+		if header != "empty" && header != "recycler" {
+			// everything else is a number
+			if v, err = strconv.ParseUint(string(values), 10, 64); err != nil {
+				return fmt.Errorf("Corrupted state file, bad line %q", line)
+			}
+		}
 
-		switch string(line[:space]) {
+		switch header {
 		case "empty":
-			a.empty = bytes.Equal(values, []byte("true"))
+			a.empty, err = strconv.ParseBool(string(values))
+			if err != nil {
+				return fmt.Errorf("Corrupted state file, bad line %q", line)
+			}
 		case "next_free":
+			if v > blockSize {
+				return fmt.Errorf("Corrupted state file, bad line %q", line)
+			}
 			a.nextFree = v
 		case "block":
+			if v >= maxBlockCount {
+				return fmt.Errorf("Corrupted state file, bad line %q", line)
+			}
 			a.block = int(v)
 		case "block_size":
+			if v != blockSize {
+				return fmt.Errorf("Corrupted state file, bad line %q", line)
+			}
 			a.blockSize = v
 		case "offset":
 			a.offset = v
@@ -296,23 +320,28 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 			if space < 0 {
 				return fmt.Errorf("Corrupted state file, ignoring bad line %v", line)
 			}
-			size, _ := strconv.Atoi(string(values[:space]))
-			count, _ := strconv.Atoi(string(values[space+1:]))
-			if count <= cap(a.recycler[size]) {
-				a.recycler[size] = a.recycler[size][0:count]
-			} else {
-				a.recycler[size] = make([]recycledItem, count)
+			size, err := strconv.ParseUint(string(values[:space]), 10, 64)
+			if err != nil || size >= uint64(len(a.recycler)) {
+				return fmt.Errorf("Corrupted state file, bad line %q", line)
+			}
+			count, err := strconv.ParseUint(string(values[space+1:]), 10, 64)
+			if err != nil {
+				return fmt.Errorf("Corrupted state file, bad line %q", line)
 			}
+			a.recycler[size] = a.recycler[size][:0]
 			var buf [8]byte
-			for i := 0; i < count; i++ {
+			for i := uint64(0); i < count; i++ {
 				_, err := io.ReadFull(reader, buf[:])
 				if err != nil {
 					return err
 				}
-				a.recycler[size][i] = recycledItem{binary.LittleEndian.Uint64(buf[:]), 0}
+				a.recycler[size] = append(a.recycler[size], recycledItem{binary.LittleEndian.Uint64(buf[:]), 0})
 			}
 
+		default:
+			return fmt.Errorf("Corrupted state file, bad line %q", line)
 		}
+		seen[header] = true
 	}
 }
 
diff --git a/state.go b/state.go
index 1afd618..a251bbe 100644
--- a/state.go
+++ b/state.go
@@ -14,6 +14,9 @@ import (
 	"github.com/golang/snappy"
 )
 
+// maxLoadAllocators limits the number of allocators accepted from a state file
+const maxLoadAllocators = 1 << 14
+
 // writeState writes the complete index state to the given filename.
 // It assumes are allocators are locked by caller.
 func (idx *Tree) writeState(out io.Writer) (int, error) {
@@ -120,6 +123,7 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 func (idx *Tree) loadState(data io.Reader) error {
 	var (
 		reader     = bufio.NewReader(data)
+		headers    = make(map[string]bool)
 		allocators int
 		nextBlock  = -1
 		readBuf    []byte
@@ -128,18 +132,32 @@ func (idx *Tree) loadState(data io.Reader) error {
 	idx.blockMap = make(map[int]int)
 	for {
 		line, err := reader.ReadBytes('\n')
-		if err == io.EOF {
+		if err == io.EOF && len(line) == 0 {
 			break
 		}
+		if err == io.EOF {
+			return io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return err
 		}
 		// trim \n
 		line = line[:len(line)-1]
 		space := bytes.IndexByte(line, ' ')
-		v, _ := strconv.ParseUint(string(line[space+1:]), 10, 64)
+		if space < 0 {
+			return fmt.Errorf("Corrupted index state file? Bad line %q", line)
+		}
+		header, value := string(line[:space]), string(line[space+1:])
+		var v uint64
+		if header != "compression" {
+			// everything else is a number
+			if v, err = strconv.ParseUint(value, 10, 64); err != nil {
+				return fmt.Errorf("Corrupted index state file? Bad line %q", line)
+			}
+		}
+		headers[header] = true
 
-		switch string(line[:space]) {
+		switch header {
 		case "objects":
 			idx.liveObjects = int64(v)
 
@@ -150,15 +168,24 @@ func (idx *Tree) loadState(data io.Reader) error {
 			}
 
 		case "allocated_blocks":
+			if v >= uint64(len(idx.blocks)) {
+				return fmt.Errorf("Corrupted index state file? %d allocated blocks, there can only be %d blocks", v, len(idx.blocks))
+			}
 			idx.nextFreeBlock = v
 
 		case "epoch":
+			if idx.manager == nil {
+				return fmt.Errorf("Corrupted index state file? epoch header before allocators")
+			}
 			atomic.StoreUint64(idx.manager.globalEpoch, v)
 
 		case "root_node":
 			idx.root = v
 
 		case "allocators":
+			if v == 0 || v > maxLoadAllocators {
+				return fmt.Errorf("Corrupted index state file? Bad number of allocators %d", v)
+			}
 			allocators = int(v)
 			idx.manager = newEpochManager(allocators)
 			idx.allocators = make([]*Allocator, allocators)
@@ -169,27 +196,39 @@ func (idx *Tree) loadState(data io.Reader) error {
 
 		case "allocator":
 			// allocator X
-			if int(v) > len(idx.allocators)-1 {
+			if v >= uint64(len(idx.allocators)) {
 				return fmt.Errorf("Corrupted index state file? Can't load allocator id %d since there are only %d allocators", v, len(idx.allocators))
 			}
 			if err := idx.allocators[v].loadState(reader); err != nil {
+				if err == io.EOF {
+					err = io.ErrUnexpectedEOF
+				}
 				return err
 			}
-			idx.blockMap[idx.allocators[v].block] = blockAllocated
+			if !idx.allocators[v].empty {
+				idx.blockMap[idx.allocators[v].block] = blockAllocated
+			}
+			headers[fmt.Sprintf("allocator %d", v)] = true
 
 		case "block":
 			// block X
-			if int(v) > len(idx.blocks)-1 {
+			if v >= uint64(len(idx.blocks)) {
 				return fmt.Errorf("Corrupted index state file? Can't load data block id %d since there are only %d blocks", v, len(idx.blocks))
 			}
 			nextBlock = int(v)
 
 		case "compression":
+			if value != "snappy" {
+				return fmt.Errorf("Cannot load state file. Unsupported compression %q", value)
+			}
 
 		case "size":
 			if nextBlock < 0 {
 				return fmt.Errorf("Corrupted index state file? size header before first block")
 			}
+			if v > uint64(snappy.MaxEncodedLen(blockSize)) {
+				return fmt.Errorf("Corrupted index state file? Block %d has size %d", nextBlock, v)
+			}
 			if cap(readBuf) >= int(v) {
 				readBuf = readBuf[:int(v)]
 			} else {
@@ -197,6 +236,9 @@ func (idx *Tree) loadState(data io.Reader) error {
 			}
 
 			if _, err := io.ReadFull(reader, readBuf); err != nil {
+				if err == io.EOF {
+					err = io.ErrUnexpectedEOF
+				}
 				return err
 			}
 
@@ -204,6 +246,9 @@ func (idx *Tree) loadState(data io.Reader) error {
 				data: make([]uint64, blockSize>>3),
 			}
 
+			if n, err := snappy.DecodedLen(readBuf); err != nil || n != blockSize {
+				return fmt.Errorf("Corrupted index state file? Data block %d is not a full block", nextBlock)
+			}
 			dst := byteSliceFromUint64(idx.blocks[nextBlock].data)
 			if _, err := snappy.Decode(dst, readBuf); err != nil {
 				return fmt.Errorf("Corrupted index state file? Decompressing data block failed : %w", err)
@@ -212,6 +257,29 @@ func (idx *Tree) loadState(data io.Reader) error {
 			if idx.blockMap[int(nextBlock)] != blockAllocated {
 				idx.blockMap[int(nextBlock)] = blockWritten
 			}
+
+		default:
+			return fmt.Errorf("Corrupted index state file? Unknown header %q", header)
+		}
+	}
+
+	// make sure nothing is missing
+	for _, header := range []string{"objects", "blocksize", "allocated_blocks", "allocators", "root_node", "epoch"} {
+		if !headers[header] {
+			return fmt.Errorf("Corrupted index state file? Missing header %s", header)
+		}
+	}
+	for i, a := range idx.allocators {
+		if !headers[fmt.Sprintf("allocator %d", i)] {
+			return fmt.Errorf("Corrupted index state file? Missing allocator %d", i)
+		}
+		if !a.empty && uint64(a.block) >= idx.nextFreeBlock {
+			return fmt.Errorf("Corrupted index state file? Allocator %d uses block %d of %d", i, a.block, idx.nextFreeBlock)
+		}
+	}
+	for i := uint64(0); i < idx.nextFreeBlock; i++ {
+		if idx.blocks[i] == nil {
+			return fmt.Errorf("Corrupted index state file? Missing block %d", i)
 		}
 	}
 	return nil
-- 
2.43.0


From f5f1f83f84bf6c2ac8c43627c219d3c4606ec1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:38 +0000
Subject: [PATCH 12/17] fix: concurrent Len, Stop and Start released allocators
 in use

A second Stop or Len did not wait for the first one, and Start or the end of
Len released all allocators, also those being used or still withdrawn by
another Stop. Len of a stopped tree restarted it, and the allocators command
waited forever on a stopped tree or dead locked with a concurrent Stop.
---
 admin.go | 16 +++++-----------
 radix.go | 43 ++++++++++++++++++++++++++++++++++---------
 2 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/admin.go b/admin.go
index 207ca6e..399bb8c 100644
--- a/admin.go
+++ b/admin.go
@@ -32,17 +32,11 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 		switch {
 		case len(argv) == 1:
 			// withdraw all allocators
-			var a []int
-			for i := 0; i < len(idx.allocators); i++ {
-				a = append(a, idx.allocatorQueue.get())
-			}
-			for i, a := range idx.allocators {
-				a.printStats(out, i)
-			}
-			// release allocators again
-			for i := range a {
-				idx.allocatorQueue.put(a[i])
-			}
+			idx.whileStopped(func() {
+				for i, a := range idx.allocators {
+					a.printStats(out, i)
+				}
+			})
 
 			// case argv[1] == "reservations":
 			// 	printReservations(out)
diff --git a/radix.go b/radix.go
index 9b0e520..576c078 100644
--- a/radix.go
+++ b/radix.go
@@ -83,7 +83,9 @@ type Tree struct {
 	blockMap     map[int]int
 	blockMapLock sync.RWMutex
 
-	stopped int32
+	// stopLock protects stopped and is held while withdrawing all allocators
+	stopLock sync.Mutex
+	stopped  bool
 
 	// this value is not guaranteed to be correct until the tree is still and all allocators have flushed their counters
 	liveObjects int64
@@ -135,33 +137,56 @@ func NewTreeFromState(data io.Reader) (*Tree, error) {
 // Len returns the current number of items in the tree
 // It needs to query all allocators for their counters, so it will block if an allocator is constantly reserved...
 func (idx *Tree) Len() (count int) {
-	idx.Stop()
-	count = int(idx.liveObjects)
-	for _, a := range idx.allocators {
-		count += int(a.itemCounter)
-	}
-	idx.Start()
+	idx.whileStopped(func() {
+		count = int(idx.liveObjects)
+		for _, a := range idx.allocators {
+			count += int(a.itemCounter)
+		}
+	})
 	return
 }
 
+// whileStopped calls f while all allocators are withdrawn.
+func (idx *Tree) whileStopped(f func()) {
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if idx.stopped {
+		f()
+		return
+	}
+	for i := 0; i < len(idx.allocators); i++ {
+		_ = idx.allocatorQueue.get()
+	}
+	f()
+	for i := 0; i < len(idx.allocators); i++ {
+		idx.allocatorQueue.put(i)
+	}
+}
+
 // Stop withdraws all allocators to prevent any more write or reads.
 // It will blocks until it gets all allocators.
 // If already stopped, it returns silently.
 func (idx *Tree) Stop() {
-	if !atomic.CompareAndSwapInt32(&idx.stopped, 0, 1) {
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if idx.stopped {
 		return
 	}
 	for i := 0; i < len(idx.allocators); i++ {
 		_ = idx.allocatorQueue.get()
 	}
+	idx.stopped = true
 }
 
 // Start releases all allocators withdrawn through a previous call to Stop.
 // In case the indexed is not stopped in returns silently.
 func (idx *Tree) Start() {
-	if !atomic.CompareAndSwapInt32(&idx.stopped, 1, 0) {
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if !idx.stopped {
 		return
 	}
+	idx.stopped = false
 	for i := 0; i < len(idx.allocators); i++ {
 		idx.allocatorQueue.put(i)
 	}
-- 
2.43.0


From 46ac28967617d26a5e1bb5c63ea889c4ef200f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:39 +0000
Subject: [PATCH 13/17] fix: printing a node with an invalid id panicked

---
 admin.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/admin.go b/admin.go
index 399bb8c..7236f13 100644
--- a/admin.go
+++ b/admin.go
@@ -87,13 +87,27 @@ func (idx *Tree) debugPrintNode(out io.Writer, node uint64) {
 	block := value >> blockSlotsShift
 	offset := value & blockSlotsOffsetMask
 
-	if int(block) > len(idx.blocks) || int(offset) > len(idx.blocks[block].data) {
+	if block >= uint64(len(idx.blocks)) || idx.blocks[block] == nil {
 		fmt.Fprintf(out, "Invalid node\n")
 		return
 	}
 
 	data := idx.blocks[block].data[offset:]
 
+	// the id might not be a node, make sure prefix and children are inside the block
+	slots := uint64(prefixLen+7) >> 3
+	if prefixLen == 255 {
+		if data[0] < 255 || data[0] > blockSize {
+			fmt.Fprintf(out, "Invalid node\n")
+			return
+		}
+		slots = (data[0] + 15) >> 3
+	}
+	if slots+uint64(count) > uint64(len(data)) {
+		fmt.Fprintf(out, "Invalid node\n")
+		return
+	}
+
 	fmt.Fprintf(out, "NODE %d (%064b): key=%s, data=%d, count=%d, prefixLen=%d\n", node, node, printableChar(key), value, count, prefixLen)
 
 	var prefix []byte
-- 
2.43.0


From c9f3903c07b0aef7763508102d5e971772d272e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 14/17] fix: the node view rejected ids of nodes with more than
 128 children

---
 admin.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/admin.go b/admin.go
index 7236f13..decb24d 100644
--- a/admin.go
+++ b/admin.go
@@ -68,8 +68,13 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 			fmt.Fprint(out, "usage: node <id>\n")
 			return
 		}
-		node, _ := strconv.Atoi(argv[1])
-		idx.debugPrintNode(out, uint64(node))
+		// ids of nodes with more than 128 children don't fit in an int
+		node, err := strconv.ParseUint(argv[1], 10, 64)
+		if err != nil {
+			fmt.Fprint(out, "usage: node <id>\n")
+			return
+		}
+		idx.debugPrintNode(out, node)
 
 	default:
 		fmt.Fprintf(out, "Unknown command '%s'\n", argv[0])
-- 
2.43.0


From 46835f1c195ab0f53bc96fb99588e27b229f7b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:35 +0000
Subject: [PATCH 15/17] fix: a writer passing a locked node could change a
 disconnected one

---
 delete.go | 6 ++++++
 update.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/delete.go b/delete.go
index 233efd8..1be2452 100644
--- a/delete.go
+++ b/delete.go
@@ -112,6 +112,12 @@ searchLoop:
 		_, op.node, count, prefixLen = explodeNode(op.raw)
 		// first fetch the current generation for node (it could actually be shared with multiple nodes)
 		op.nodeGen = op.idx.generation(op.node)
+		// if it's locked it's about to be changed or replaced. Its generation would not tell us when that has happened, since
+		// it remains the same until it's unlocked
+		if op.nodeGen&1 == 1 {
+			runtime.Gosched()
+			goto S
+		}
 		// now verify that the node has not been changed since we read it
 		if atomic.LoadUint64(op.nodePtr) != op.raw {
 			goto S
diff --git a/update.go b/update.go
index 70680de..712c5d2 100644
--- a/update.go
+++ b/update.go
@@ -146,6 +146,12 @@ searchLoop:
 		_, op.node, op.count, prefixLen = explodeNode(op.raw)
 		// first fetch the current generation for node (it could actually be shared with multiple nodes)
 		op.nodeGen = op.idx.generation(op.node)
+		// if it's locked it's about to be changed or replaced. Its generation would not tell us when that has happened, since
+		// it remains the same until it's unlocked
+		if op.nodeGen&1 == 1 {
+			runtime.Gosched()
+			goto S
+		}
 		// now verify that the node has not been changed since we read it
 		if atomic.LoadUint64(op.nodePtr) != op.raw {
 			goto S
-- 
2.43.0


From d169e1fe14beb188ecf18190317df5d7bfd4d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:45 +0000
Subject: [PATCH 16/17] fix: a Counter counted nodes again when returning from
 a child

---
 counter.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/counter.go b/counter.go
index 8b32ef6..c592517 100644
--- a/counter.go
+++ b/counter.go
@@ -69,17 +69,24 @@ searchLoop:
 		if prefixLen > 0 {
 			prefixSlots := ((prefixLen + 7) >> 3)
 			if prefixLen == 255 {
-				c.LargePrefixes++
+				if p.nextChild == 0 {
+					c.LargePrefixes++
+				}
 				prefixLen = int(data[0])
 				prefixSlots = ((prefixLen + 15) >> 3)
 			}
-			c.NodesWithPrefix++
-			c.TotalPrefixBytes += prefixSlots * 8
-			c.TotalPrefixLength += prefixLen
+			if p.nextChild == 0 {
+				c.NodesWithPrefix++
+				c.TotalPrefixBytes += prefixSlots * 8
+				c.TotalPrefixLength += prefixLen
+			}
 			data = data[prefixSlots:]
 		}
 
-		c.NodeSizes[count]++
+		// when returning from a child the node has been counted before
+		if p.nextChild == 0 {
+			c.NodeSizes[count]++
+		}
 
 		for k := p.nextChild; k < count; k++ {
 			a := atomic.LoadUint64(&data[k])
-- 
2.43.0


From 527c5ed519ede342f40804814c9a3299514305a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:14 +0000
Subject: [PATCH 17/17] fix: a prepared operation showed fields of its previous
 use, or panicked doing so

---
 delete.go | 2 ++
 update.go | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/delete.go b/delete.go
index 1be2452..2dc3039 100644
--- a/delete.go
+++ b/delete.go
@@ -80,6 +80,8 @@ func (op *DeleteOperation) prepare(key []byte) (found bool) {
 	op.Value = 0
 	op.allocator.startOp()
 S:
+	// the operation is pooled, leave nothing of its previous use
+	op.prefixSlots = 0
 	root := atomic.LoadUint64(&op.idx.root)
 	if root == 0 {
 		op.kind = notFound
diff --git a/update.go b/update.go
index 712c5d2..5824b6d 100644
--- a/update.go
+++ b/update.go
@@ -103,6 +103,12 @@ func (op *UpdateOperation) prepareUpdate(key []byte) (found bool) {
 	op.FetchedKey = op.FetchedKey[:0]
 	op.allocator.startOp()
 S:
+	// the operation is pooled, leave nothing of its previous use
+	op.depth = 0
+	op.node = 0
+	op.parent = 0
+	op.prefix = op.prefix[:0]
+	op.prefixSlots = 0
 	root := atomic.LoadUint64(&op.idx.root)
 	if root == 0 {
 		// index is empty, lock root
-- 
2.43.0

