From c9b2fd52592eb2e44eb11979f0a73af498d7df1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 01/37] fix: removing the last node of a graph leaves the node
 list consistent

nodeList.remove set the tail to the removed node itself, so the next node
added was linked behind the removed one and never enumerated.
---
 list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 0f0eb2b..97d30c8 100644
--- a/list.go
+++ b/list.go
@@ -117,7 +117,7 @@ func (list *nodeList) remove(node *Node) {
 	if node.next != nil {
 		node.next.prev = node.prev
 	} else {
-		list.tail = node
+		list.tail = node.prev
 	}
 	list.n--
 }
-- 
2.43.0


From 2fc6faac1d9723d7b9134b705c652ad60d09fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 02/37] fix: removing an edge removes it from the edge property
 indexes

Edge.Remove left the edge in every edge property index, so indexed queries
kept returning it.
---
 graph.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graph.go b/graph.go
index 4ac65e3..cc9c573 100644
--- a/graph.go
+++ b/graph.go
@@ -530,6 +530,7 @@ func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 func (g *Graph) removeEdge(edge *Edge) {
 	g.disconnect(edge)
 	g.allEdges.remove(edge, 0)
+	g.index.removeEdgeFromIndex(edge, g)
 }
 
 func (g *Graph) setEdgeProperty(edge *Edge, key string, value interface{}) {
-- 
2.43.0


From 9d1ad2e8f7f3b4affea5e4dfe85d002c2444da2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 03/37] fix: changing an edge label moves the edge in the
 graph's edge map

The graph-wide edge map kept the edge under its old label, so label lookups
missed it and removing it later corrupted the map.
---
 graph.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graph.go b/graph.go
index cc9c573..2341778 100644
--- a/graph.go
+++ b/graph.go
@@ -523,7 +523,9 @@ func (g *Graph) disconnect(edge *Edge) {
 
 func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 	g.disconnect(edge)
+	g.allEdges.remove(edge, 0)
 	edge.label = label
+	g.allEdges.add(edge, 0)
 	g.connect(edge)
 }
 
-- 
2.43.0


From a397161748825bd5cf8e066746918e92cc442cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 04/37] fix: clearing the labels of a node removes it from its
 label sets

NodeMap.Replace returned early when the new label set was empty, leaving the
node indexed under the labels it no longer has.
---
 maps.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/maps.go b/maps.go
index 2a6088f..ce06cc5 100644
--- a/maps.go
+++ b/maps.go
@@ -42,7 +42,6 @@ func (nm *NodeMap) Replace(node *Node, oldLabels, newLabels StringSet) {
 	}
 	if newLabels.Len() == 0 {
 		nm.nolabels.add(node.id, node)
-		return
 	}
 	var set *fastSet
 	// Process removed labels
-- 
2.43.0


From a86875965a130180f42e3f8aaad1afbc4efffd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 05/37] fix: a node map holding only unlabeled nodes is not
 empty

---
 maps.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/maps.go b/maps.go
index ce06cc5..db1a92e 100644
--- a/maps.go
+++ b/maps.go
@@ -112,10 +112,7 @@ func (nm NodeMap) Remove(node *Node) {
 }
 
 func (nm NodeMap) IsEmpty() bool {
-	if nm.m.Size() == 0 {
-		return true
-	}
-	return false
+	return nm.m.Size() == 0 && nm.nolabels.size() == 0
 }
 
 type nodeMapIterator struct {
-- 
2.43.0


From 28b9dbd9c83d8a554fc1df33b2117755614e9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 06/37] fix: looking up nodes with an empty label set returns
 all nodes

NodeMap.IteratorAllLabels, and with it Graph.GetNodesWithAllLabels,
dereferenced a nil set when given no labels.
---
 maps.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maps.go b/maps.go
index db1a92e..4177273 100644
--- a/maps.go
+++ b/maps.go
@@ -178,6 +178,10 @@ func (nm NodeMap) Iterator() NodeIterator {
 }
 
 func (nm NodeMap) IteratorAllLabels(labels StringSet) NodeIterator {
+	if labels.Len() == 0 {
+		// Every node has all the labels of an empty set
+		return nm.Iterator()
+	}
 	// Find the smallest map element, iterate that
 	var minSet *fastSet
 	for label := range labels.M {
-- 
2.43.0


From f869f7431130e1ea19121e2663b93c365c907437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 07/37] fix: FindNodes and FindEdges without a sized iterator
 filter their results

Searching by properties alone dereferenced a nil iterator, and whenever no
candidate had a known size the search fell through to returning every node or
edge of the graph, ignoring labels and properties.
---
 graph.go | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/graph.go b/graph.go
index 2341778..c884b25 100644
--- a/graph.go
+++ b/graph.go
@@ -228,7 +228,10 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 		nodesByLabelItr = g.index.nodesByLabel.IteratorAllLabels(allLabels)
 	}
 	// Select the iterator with minimum max size
-	nodesByLabelSize := nodesByLabelItr.MaxSize()
+	nodesByLabelSize := -1
+	if nodesByLabelItr != nil {
+		nodesByLabelSize = nodesByLabelItr.MaxSize()
+	}
 	propertyIterators := make(map[string]NodeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -277,8 +280,20 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 			},
 		}
 	}
-	// Iterate all
-	return g.GetNodes()
+	// Sizes are unknown, or there is no index: filter the elements with
+	// the labels if there are any, or everything otherwise
+	itr := nodesByLabelItr
+	if itr == nil {
+		itr = g.GetNodes()
+	}
+	return nodeIterator{
+		&filterIterator{
+			itr: itr,
+			filter: func(item interface{}) bool {
+				return nodeFilterFunc(item.(*Node))
+			},
+		},
+	}
 }
 
 // FindEdges returns an iterator that will iterate through all the
@@ -297,7 +312,10 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 		edgesByLabelItr = g.GetEdgesWithAnyLabel(labels)
 	}
 	// Select the iterator with minimum max size
-	edgesByLabelSize := edgesByLabelItr.MaxSize()
+	edgesByLabelSize := -1
+	if edgesByLabelItr != nil {
+		edgesByLabelSize = edgesByLabelItr.MaxSize()
+	}
 	propertyIterators := make(map[string]EdgeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -346,8 +364,20 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 			},
 		}
 	}
-	// Iterate all
-	return g.GetEdges()
+	// Sizes are unknown, or there is no index: filter the elements with
+	// the labels if there are any, or everything otherwise
+	itr := edgesByLabelItr
+	if itr == nil {
+		itr = g.GetEdges()
+	}
+	return &edgeIterator{
+		&filterIterator{
+			itr: itr,
+			filter: func(item interface{}) bool {
+				return edgeFilterFunc(item.(*Edge))
+			},
+		},
+	}
 }
 
 // GetNodeFilterFunc returns a filter function that can be used to select
-- 
2.43.0


From d7052fb476ea56985d9146f942f5b95f84d075c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 08/37] fix: searching an ordered index for an incomparable
 value finds nothing

Without the index the filter functions treat a value that cannot be compared
as no match; with it, the query panicked.
---
 btreeindex.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/btreeindex.go b/btreeindex.go
index ec3ebd8..64fc5f1 100644
--- a/btreeindex.go
+++ b/btreeindex.go
@@ -52,10 +52,17 @@ func (s setTree) remove(key interface{}, id int) {
 }
 
 // find returns the iterator and expected size.
-func (s setTree) find(key interface{}) Iterator {
+func (s setTree) find(key interface{}) (ret Iterator) {
 	if s.tree == nil {
 		return emptyIterator{}
 	}
+	// A key that cannot be compared with the indexed values matches none
+	// of them
+	defer func() {
+		if r := recover(); r != nil {
+			ret = emptyIterator{}
+		}
+	}()
 	v, found := s.tree.Get(key)
 	if !found {
 		return emptyIterator{}
-- 
2.43.0


From a7f56998e41ecd42f8cccd2fe965eadff854a640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 09/37] fix: hash indexes handle slice values and nested native
 values

Slices are supported property values, but adding one to a hash index, or
querying a hash index with one or with another unhashable value, panicked.
Native values were unwrapped once, where comparison unwraps them fully.
---
 hashindex.go | 58 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/hashindex.go b/hashindex.go
index e4b283c..d2b9a5f 100644
--- a/hashindex.go
+++ b/hashindex.go
@@ -16,6 +16,8 @@ package lpg
 
 import (
 	"container/list"
+	"fmt"
+	"strings"
 )
 
 // A hashIndex is a hash table index
@@ -24,15 +26,47 @@ type hashIndex struct {
 	elements list.List
 }
 
+// hashedList is the hash key of a slice value
+type hashedList string
+
+// hashKey returns the key under which a property value is stored. Native
+// values are unwrapped. Slices cannot be map keys, so slices whose
+// elements are equal get the same hashedList.
+func hashKey(value interface{}) interface{} {
+	for {
+		native, ok := value.(WithNativeValue)
+		if !ok {
+			break
+		}
+		value = native.GetNativeValue()
+	}
+	elements := make([]string, 0)
+	switch v := value.(type) {
+	case []string:
+		for _, x := range v {
+			elements = append(elements, fmt.Sprintf("%T:%#v", x, x))
+		}
+	case []int:
+		for _, x := range v {
+			elements = append(elements, fmt.Sprintf("%T:%#v", x, x))
+		}
+	case []interface{}:
+		for _, x := range v {
+			x = hashKey(x)
+			elements = append(elements, fmt.Sprintf("%T:%#v", x, x))
+		}
+	default:
+		return value
+	}
+	return hashedList("[" + strings.Join(elements, ",") + "]")
+}
+
 func (ix *hashIndex) add(value interface{}, id int, item interface{}) {
 	if ix.values == nil {
 		ix.values = make(map[interface{}]*fastSet)
 	}
 
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
-
+	value = hashKey(value)
 	el := ix.elements.PushBack(item)
 	fs, ok := ix.values[value]
 	if !ok {
@@ -46,9 +80,7 @@ func (ix *hashIndex) remove(value interface{}, id int) {
 	if ix.values == nil {
 		return
 	}
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	value = hashKey(value)
 	fs, ok := ix.values[value]
 	if !ok {
 		return
@@ -62,13 +94,17 @@ func (ix *hashIndex) remove(value interface{}, id int) {
 }
 
 // find returns the iterator and expected size.
-func (ix *hashIndex) find(value interface{}) Iterator {
+func (ix *hashIndex) find(value interface{}) (ret Iterator) {
 	if ix.values == nil {
 		return emptyIterator{}
 	}
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	// A value that cannot be hashed matches none of the indexed values
+	defer func() {
+		if r := recover(); r != nil {
+			ret = emptyIterator{}
+		}
+	}()
+	value = hashKey(value)
 	v, found := ix.values[value]
 	if !found {
 		return emptyIterator{}
-- 
2.43.0


From 78fb3d7d8b642fec82a15c916d96fa9cfe4c7b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 10/37] fix: the size hint of undirected edge iterators is not
 an underestimate

Adding the sizes of the incoming and outgoing iterators treated the unknown
size -1 as a number, giving hints below the number of edges delivered.
---
 itr.go  | 10 ++++++++++
 node.go |  6 +++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/itr.go b/itr.go
index b2c31a7..9b86f2e 100644
--- a/itr.go
+++ b/itr.go
@@ -231,6 +231,16 @@ func withSize(itr iteratorWithoutSize, size int) Iterator {
 		size: size}
 }
 
+// sumMaxSize returns the max size of the concatenation of two
+// iterators, -1 if one of them is unknown
+func sumMaxSize(i1, i2 Iterator) int {
+	s1, s2 := i1.MaxSize(), i2.MaxSize()
+	if s1 == -1 || s2 == -1 {
+		return -1
+	}
+	return s1 + s2
+}
+
 type listIterator struct {
 	next, current *list.Element
 	size          int
diff --git a/node.go b/node.go
index 666e0ec..cf99371 100644
--- a/node.go
+++ b/node.go
@@ -63,7 +63,7 @@ func (node *Node) GetEdges(dir EdgeDir) EdgeIterator {
 	}
 	i1 := node.incoming.iterator(2)
 	i2 := node.outgoing.iterator(1)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	return edgeIterator{withSize(MultiIterator(i1, i2), sumMaxSize(i1, i2))}
 }
 
 // Returns an edge iterator for incoming or outgoing edges with the given label
@@ -76,7 +76,7 @@ func (node *Node) GetEdgesWithLabel(dir EdgeDir, label string) EdgeIterator {
 	}
 	i1 := node.incoming.iteratorLabel(label, 2)
 	i2 := node.outgoing.iteratorLabel(label, 1)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	return edgeIterator{withSize(MultiIterator(i1, i2), sumMaxSize(i1, i2))}
 }
 
 // Returns an edge iterator for incoming or outgoingn edges that has the given labels
@@ -95,7 +95,7 @@ func (node *Node) GetEdgesWithAnyLabel(dir EdgeDir, labels StringSet) EdgeIterat
 	}
 	i1 := node.GetEdgesWithAnyLabel(IncomingEdge, labels)
 	i2 := node.GetEdgesWithAnyLabel(OutgoingEdge, labels)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	return edgeIterator{withSize(MultiIterator(i1, i2), sumMaxSize(i1, i2))}
 }
 
 // SetLabels sets the node labels
-- 
2.43.0


From f34ab9f895653c7edb3df2d3d90ad60a1d144f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 11/37] fix: encoding a graph reports properties that cannot be
 marshaled

The error of the default marshaler was dropped and the property written as
null, so Encode claimed success for a document missing data.
---
 json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 2b7b248..87314e4 100644
--- a/json.go
+++ b/json.go
@@ -180,7 +180,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 		ret := make(map[string]json.RawMessage)
 		for k, v := range in {
 			if j.PropertyMarshaler == nil {
-				d, _ := json.Marshal(v)
+				d, err := json.Marshal(v)
+				if err != nil {
+					return nil, err
+				}
 				ret[k] = d
 			} else {
 				k, d, err := j.PropertyMarshaler(k, v)
-- 
2.43.0


From 40fd386a938fa2296301a68b68315f7ba92f3127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 12/37] fix: an empty graph marshaled with separate edges is
 valid JSON

Encode wrote {,"edges":[]}.
---
 json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 87314e4..d786300 100644
--- a/json.go
+++ b/json.go
@@ -353,8 +353,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 	}
 
 	if j.MarshalEdgesSeparately {
-		if _, err := out.Write(comma); err != nil {
-			return err
+		if len(nodeMap) > 0 {
+			if _, err := out.Write(comma); err != nil {
+				return err
+			}
 		}
 		if _, err := out.Write(edgesKey); err != nil {
 			return err
-- 
2.43.0


From bb0d63906cc14464f3fce1191944fe724e78d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 13/37] fix: CheckIsomorphism requires a one-to-one
 correspondence

Several nodes could be mapped to the same node, and several parallel edges
matched by a single one, so graphs that are not isomorphic compared equal.
---
 alg.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/alg.go b/alg.go
index 5bc333c..3d2c968 100644
--- a/alg.go
+++ b/alg.go
@@ -133,6 +133,14 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 	}
 
 	isIsomorphism := func(nodeMapping map[*Node]*Node) bool {
+		// Different nodes must map to different nodes
+		mapped := make(map[*Node]struct{}, len(nodeMapping))
+		for _, node2 := range nodeMapping {
+			mapped[node2] = struct{}{}
+		}
+		if len(mapped) != len(nodeMapping) {
+			return false
+		}
 		for node1, node2 := range nodeMapping {
 			// node1 and node2 are equivalent. Now we check if equivalent edges go to equivalent nodes
 			edges1 := EdgeSlice(node1.GetEdges(OutgoingEdge))
@@ -142,12 +150,15 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 				return false
 			}
 
+			// Every edge of node2 can be the match of one edge of node1 only
+			matched := make([]bool, len(edges2))
 			for _, edge1 := range edges1 {
 				found := false
-				for _, edge2 := range edges2 {
+				for i, edge2 := range edges2 {
 					// edge1.Edge.GetTo()
-					if nodeMapping[edge1.GetTo()] == edge2.GetTo() &&
+					if !matched[i] && nodeMapping[edge1.GetTo()] == edge2.GetTo() &&
 						edgeEquivalenceFunc(edge1, edge2) {
+						matched[i] = true
 						found = true
 						break
 					}
-- 
2.43.0


From 3b36220f51895600f2584d88731eff838e2a741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 14/37] fix: decoding a graph skips unknown top-level members
 completely

Every scalar inside an unknown member decreased the nesting depth, so its
keys were taken for graph keys and its closing brace for the end of the
document.
---
 json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index d786300..4a431c5 100644
--- a/json.go
+++ b/json.go
@@ -529,8 +529,10 @@ func (j JSON) Decode(g *Graph, input *json.Decoder) error {
 				depth++
 			case json.Delim('}'), json.Delim(']'):
 				depth--
-			default:
-				depth--
+			}
+			if depth == 1 {
+				// The value of the unknown key is complete
+				depth = 0
 			}
 		}
 	}
-- 
2.43.0


From 9874c052ca9097a3a9e284552fabd91947619d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 15/37] fix: Path.RemoveLast shortens the path and leaves the
 graph alone

It removed the edge from the graph, and a path of one edge became empty
instead of the single source node its documentation promises.
---
 path.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index e613260..0a8eb44 100644
--- a/path.go
+++ b/path.go
@@ -297,8 +297,10 @@ func (p *Path) RemoveLast() *Path {
 		p.only = nil
 		return p
 	}
+	if len(p.path) == 1 {
+		return p.SetOnlyNode(p.First())
+	}
 	if len(p.path) > 0 {
-		p.path[len(p.path)-1].Edge.Remove()
 		p.path = p.path[:len(p.path)-1]
 	}
 	return p
-- 
2.43.0


From da26bcb82d435af057f0d6b2dfc407486ff8867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 16/37] fix: Cursor.PopFromPath moves the cursor to the
 previous node

---
 cursor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cursor.go b/cursor.go
index e393582..b906c02 100644
--- a/cursor.go
+++ b/cursor.go
@@ -52,6 +52,9 @@ func (c *Cursor) GetPath() *Path {
 // PopFromPath removes the last edge from the path. This also moves the cursor to the previous node
 func (c *Cursor) PopFromPath() *Cursor {
 	c.path.RemoveLast()
+	if last := c.path.Last(); last != nil {
+		c.node = last
+	}
 	return c
 }
 
-- 
2.43.0


From cdab88a80b5c732a236e5cf7d1fd7cd8a2c399ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 17/37] fix: undirected node iterators of a cursor return the
 neighbors

Cursor.Nodes(AnyEdge) and NodesWith(AnyEdge) returned the target of every
edge, which for incoming edges is the current node itself.
---
 cursor.go | 4 ++--
 itr.go    | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cursor.go b/cursor.go
index b906c02..13f727e 100644
--- a/cursor.go
+++ b/cursor.go
@@ -84,7 +84,7 @@ func (c *Cursor) Nodes(dir EdgeDir) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdges(dir), dir)
+	return newNodesFromEdges(c.node, c.node.GetEdges(dir), dir)
 }
 
 // NodesWith returns an iterator over the nodes that are reachable by
@@ -94,7 +94,7 @@ func (c *Cursor) NodesWith(dir EdgeDir, label string) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdgesWithLabel(dir, label), dir)
+	return newNodesFromEdges(c.node, c.node.GetEdgesWithLabel(dir, label), dir)
 }
 
 // Forward returns an edge iterator for outgoing edges of the current
diff --git a/itr.go b/itr.go
index 9b86f2e..55b5afd 100644
--- a/itr.go
+++ b/itr.go
@@ -262,13 +262,16 @@ func (l *listIterator) MaxSize() int { return l.size }
 
 // nodesFromEdgesIterator iterates the nodes of an edge iterator
 type nodesFromEdgesIterator struct {
+	node *Node
 	dir  EdgeDir
 	itr  EdgeIterator
 	seen map[int]struct{}
 }
 
-func newNodesFromEdges(itr EdgeIterator, dir EdgeDir) NodeIterator {
+// newNodesFromEdges iterates the other ends of the edges of a node
+func newNodesFromEdges(node *Node, itr EdgeIterator, dir EdgeDir) NodeIterator {
 	return &nodesFromEdgesIterator{
+		node: node,
 		dir:  dir,
 		itr:  itr,
 		seen: make(map[int]struct{}),
@@ -293,7 +296,7 @@ func (i *nodesFromEdgesIterator) Value() interface{} { return i.Node() }
 
 func (i *nodesFromEdgesIterator) Node() *Node {
 	e := i.itr.Edge()
-	if i.dir == IncomingEdge {
+	if i.dir == IncomingEdge || (i.dir == AnyEdge && e.GetFrom() != i.node) {
 		return e.GetFrom()
 	}
 	return e.GetTo()
-- 
2.43.0


From 002b4d8e37f60a527cbfa02b7dc488791c3e1145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 18/37] fix: a repeated pattern variable stays bound to its
 first occurrence

Finishing a step deleted the binding of its variable even if an earlier step
had recorded it, so later candidates were matched unconstrained.
---
 pattern.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pattern.go b/pattern.go
index e212cd8..4ab3bf1 100644
--- a/pattern.go
+++ b/pattern.go
@@ -293,6 +293,9 @@ type MatchContext struct {
 	LocalSymbols map[string]*PatternSymbol
 
 	variablePathNode *Node
+
+	// The step that recorded each local symbol
+	symbolOwners map[string]planProcessor
 }
 
 // If the current step has a local symbol, it will be recorded in the context
@@ -304,9 +307,17 @@ func (ctx *MatchContext) recordStepResult(step planProcessor) {
 	if _, global := ctx.Symbols[name]; global {
 		return
 	}
+	if owner, recorded := ctx.symbolOwners[name]; recorded && owner != step {
+		// An earlier step with the same name recorded the symbol
+		return
+	}
 	result := &PatternSymbol{}
 	result.Add(step.GetResult())
 	ctx.LocalSymbols[name] = result
+	if ctx.symbolOwners == nil {
+		ctx.symbolOwners = make(map[string]planProcessor)
+	}
+	ctx.symbolOwners[name] = step
 }
 
 // resetStepResult will remove the step's local symbol from the context
@@ -318,7 +329,11 @@ func (ctx *MatchContext) resetStepResult(step planProcessor) {
 	if _, global := ctx.Symbols[name]; global {
 		return
 	}
+	if ctx.symbolOwners[name] != step {
+		return
+	}
 	delete(ctx.LocalSymbols, name)
+	delete(ctx.symbolOwners, name)
 }
 
 func (pattern Pattern) Run(graph *Graph, symbols map[string]*PatternSymbol, result MatchAccumulator) error {
-- 
2.43.0


From 9a160980ffa7c866a988c07612f8ee45fc2b81d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 19/37] fix: pattern plans do not start at an undirected edge

Starting there left the first node step without the node it continues from,
which panicked.
---
 pattern.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pattern.go b/pattern.go
index 4ab3bf1..38ca19e 100644
--- a/pattern.go
+++ b/pattern.go
@@ -170,7 +170,9 @@ func (p PatternItem) estimateEdgeSize(g *Graph, symbols map[string]*PatternSymbo
 		return ret, max
 	}
 
-	if p.Min > 1 || p.Max > 1 || p.Min == -1 || p.Max == -1 {
+	// Cannot start from a variable length edge, or from an undirected edge
+	// that may be followed both ways
+	if p.Min > 1 || p.Max > 1 || p.Min == -1 || p.Max == -1 || p.Undirected {
 		return g.GetEdges(), -1
 	}
 
-- 
2.43.0


From bd87dd2c4b121ef820fc5810d756fd8fab9e7f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 20/37] fix: plans starting at a <-- edge report the path in
 pattern direction

---
 planprocessors.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/planprocessors.go b/planprocessors.go
index f9b2994..6624ace 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -100,11 +100,10 @@ func (processor *iterateEdges) init(ctx *MatchContext) {
 func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) error {
 	processor.init(ctx)
 	for processor.itr.Next() {
-		path := &Path{path: []PathElement{{Edge: processor.itr.Edge()}}}
-		// TODO: find edge dir
-		// if  {
-		// 	path.path[0].Reverse = true
-		// }
+		path := &Path{path: []PathElement{{
+			Edge:    processor.itr.Edge(),
+			Reverse: processor.patternItem.ToLeft,
+		}}}
 		processor.result = path
 		ctx.recordStepResult(processor)
 		if err := next.Run(ctx); err != nil {
-- 
2.43.0


From e0bfa4f8b165e26d770075e7ad1a3ec1e5aabd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 21/37] fix: variable length edges matched backwards are
 reported completely

The result path contained only the first edge of every variable length edge
that the plan traversed backwards, so it was cut short or disconnected.
---
 pattern.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pattern.go b/pattern.go
index 38ca19e..7258562 100644
--- a/pattern.go
+++ b/pattern.go
@@ -568,8 +568,10 @@ func (plan MatchPlan) GetCurrentPath() *Path {
 	revPathOut := &Path{}
 	for i := len(plan.steps) - 1; i >= plan.nForward; i-- {
 		if path, ok := plan.steps[i].GetResult().(*Path); ok {
-			revPathOut.Append(PathElement{Edge: path.path[0].Edge, Reverse: !path.path[0].Reverse})
-			// revPathOut.AppendPath(path)
+			// This was traversed from its last node to its first
+			for k := len(path.path) - 1; k >= 0; k-- {
+				revPathOut.Append(PathElement{Edge: path.path[k].Edge, Reverse: !path.path[k].Reverse})
+			}
 		}
 	}
 	return revPathOut.AppendPath(out)
-- 
2.43.0


From 7676d680c3282a8e52d0172f1557b38fdea24f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 22/37] fix: an undirected pattern edge matches a loop once

A loop is among both the incoming and the outgoing edges of its node, so
fixed-length undirected pattern edges reported it twice.
---
 planprocessors.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planprocessors.go b/planprocessors.go
index 6624ace..0010f2b 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -154,6 +154,10 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 	if processor.edgeItr == nil {
 		return nil
 	}
+	if processor.dir == AnyEdge {
+		// A loop is both an incoming and an outgoing edge of its node
+		processor.edgeItr = edgeIterator{makeUniqueIterator(processor.edgeItr)}
+	}
 	if processor.patternItem.Min == 1 && processor.patternItem.Max == 1 {
 		for processor.edgeItr.Next() {
 			edge := processor.edgeItr.Edge()
-- 
2.43.0


From 1b7bfe1e60e9083032ee102b6a0cef52f6aa6735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 23/37] fix: appending a single node path keeps both paths
 intact

---
 path.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/path.go b/path.go
index 0a8eb44..cc8a5cd 100644
--- a/path.go
+++ b/path.go
@@ -146,22 +146,17 @@ func (p *Path) Append(path ...PathElement) *Path {
 func (p *Path) AppendPath(path *Path) *Path {
 	switch p.NumNodes() {
 	case 0:
+		p.only = path.only
 		p.path = make([]PathElement, len(path.path))
 		copy(p.path, path.path)
 		return p
 	case 1:
+		if path.NumEdges() == 0 {
+			return p
+		}
 		if p.only != nil {
 			p.only = nil
 		}
-	default:
-		switch path.NumNodes() {
-		case 0:
-			return p
-		case 1:
-			if path.only != nil {
-				path.only = nil
-			}
-		}
 	}
 	return p.Append(path.path...)
 }
-- 
2.43.0


From 5b2e5fcc302d28c86e46fe485b790024302c8d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 24/37] fix: an edge property index anchors patterns without
 edge labels

---
 pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pattern.go b/pattern.go
index 7258562..fa6ea91 100644
--- a/pattern.go
+++ b/pattern.go
@@ -193,7 +193,7 @@ func (p PatternItem) estimateEdgeSize(g *Graph, symbols map[string]*PatternSymbo
 			if maxSize == -1 {
 				continue
 			}
-			if maxSize < max {
+			if max == -1 || maxSize < max {
 				max = maxSize
 				ret = itr
 			}
-- 
2.43.0


From a8f459b6c45f778825a44a66f528b6785db894d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:49 +0000
Subject: [PATCH 25/37] fix: edge label iterators have a size hint

GetEdgesWithAnyLabel reported an unknown size, so FindEdges preferred any
indexed property, however frequent its value, to a rare label, and patterns
never started at the edges with a rare label.
---
 edgemap.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edgemap.go b/edgemap.go
index b622e9a..d937397 100644
--- a/edgemap.go
+++ b/edgemap.go
@@ -168,7 +168,13 @@ func (em edgeMap) iteratorAnyLabel(labels StringSet, listIndex int) EdgeIterator
 		return edgeIterator{emptyIterator{}}
 	}
 	strings := labels.Slice()
-	return edgeIterator{&funcIterator{
+	size := 0
+	for _, label := range strings {
+		if l := em.labelMap[label]; l != nil {
+			size += l.Value.(*edgeLabelList).edges.n
+		}
+	}
+	itr := &funcIterator{
 		iteratorFunc: func() Iterator {
 			for len(strings) != 0 {
 				if _, found := em.labelMap[strings[0]]; !found {
@@ -181,8 +187,8 @@ func (em edgeMap) iteratorAnyLabel(labels StringSet, listIndex int) EdgeIterator
 			}
 			return nil
 		},
-	},
 	}
+	return edgeIterator{withSize(itr, size)}
 }
 
 type allEdgesItr struct {
-- 
2.43.0


From b96f4beef876f127cc8fd0a4fca7bc4a3ec9d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:13 +0000
Subject: [PATCH 26/37] fix: supplied edge variables restrict the edges of a
 pattern

The edges of a variable were only used when the search started at that
edge and no rarer label or index was found; otherwise every edge matched.
---
 planprocessors.go | 38 ++++++++++++++++++++++++++++++++------
 sets.go           |  4 ++++
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/planprocessors.go b/planprocessors.go
index 0010f2b..5c6f379 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -82,9 +82,8 @@ type iterateEdges struct {
 	initialized bool
 }
 
-func (processor *iterateEdges) init(ctx *MatchContext) {
+func (processor *iterateEdges) init(ctx *MatchContext) error {
 	if !processor.initialized {
-		processor.initialized = true
 		filterFunc := processor.patternItem.getEdgeFilter()
 		processor.itr = edgeIterator{
 			&filterIterator{
@@ -94,11 +93,29 @@ func (processor *iterateEdges) init(ctx *MatchContext) {
 				},
 			},
 		}
+		edges, err := processor.patternItem.isConstrainedEdges(ctx)
+		if err != nil {
+			return err
+		}
+		if edges != nil {
+			processor.itr = edgeIterator{
+				&filterIterator{
+					itr: processor.itr,
+					filter: func(edge interface{}) bool {
+						return edges.Has(edge.(*Edge))
+					},
+				},
+			}
+		}
+		processor.initialized = true
 	}
+	return nil
 }
 
 func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) error {
-	processor.init(ctx)
+	if err := processor.init(ctx); err != nil {
+		return err
+	}
 	for processor.itr.Next() {
 		path := &Path{path: []PathElement{{
 			Edge:    processor.itr.Edge(),
@@ -143,11 +160,21 @@ func (processor *iterateConnectedEdges) init(ctx *MatchContext) {
 
 func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumulator) error {
 	node := processor.source.GetResult().(*Node)
+	constraints, err := processor.patternItem.isConstrainedEdges(ctx)
+	if err != nil {
+		return err
+	}
+	edgeFilter := processor.edgeFilter
+	if constraints != nil {
+		edgeFilter = func(edge *Edge) bool {
+			return constraints.Has(edge) && processor.edgeFilter(edge)
+		}
+	}
 	processor.edgeItr = edgeIterator{
 		&filterIterator{
 			itr: node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels),
 			filter: func(item interface{}) bool {
-				return processor.edgeFilter(item.(*Edge))
+				return edgeFilter(item.(*Edge))
 			},
 		},
 	}
@@ -178,8 +205,7 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 		return nil
 	}
 	logf("IterateConnectedEdges min=%d max=%d %+v\n", processor.patternItem.Min, processor.patternItem.Max, processor.result)
-	var err error
-	CollectAllPaths(ctx.Graph, node, processor.edgeItr, processor.edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
+	CollectAllPaths(ctx.Graph, node, processor.edgeItr, edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
 		processor.result = path
 		logf("IterateConnectedEdges testing len=%d %+v\n", len(path.path), processor.result)
 		ctx.recordStepResult(processor)
diff --git a/sets.go b/sets.go
index 21d2c93..a929148 100644
--- a/sets.go
+++ b/sets.go
@@ -132,6 +132,10 @@ func (set EdgeSet) Remove(edge *Edge) {
 	set.set.remove(edge.id)
 }
 
+func (set EdgeSet) Has(edge *Edge) bool {
+	return set.set.has(edge.id)
+}
+
 func (set EdgeSet) Len() int {
 	return set.set.size()
 }
-- 
2.43.0


From 804d1f8907e3b84e4e5408711a7ed90748474388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:28 +0000
Subject: [PATCH 27/37] fix: the values of edge variables follow the pattern
 direction

A pattern edge matched from its last node reported its edges in the order
they were visited, so the value depended on where the search started.
---
 pattern.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pattern.go b/pattern.go
index fa6ea91..c15945e 100644
--- a/pattern.go
+++ b/pattern.go
@@ -569,21 +569,33 @@ func (plan MatchPlan) GetCurrentPath() *Path {
 	for i := len(plan.steps) - 1; i >= plan.nForward; i-- {
 		if path, ok := plan.steps[i].GetResult().(*Path); ok {
 			// This was traversed from its last node to its first
-			for k := len(path.path) - 1; k >= 0; k-- {
-				revPathOut.Append(PathElement{Edge: path.path[k].Edge, Reverse: !path.path[k].Reverse})
-			}
+			revPathOut.AppendPath(reversePath(path))
 		}
 	}
 	return revPathOut.AppendPath(out)
 }
 
+// reversePath returns the path from the last node of the path to its first
+func reversePath(path *Path) *Path {
+	ret := &Path{}
+	for k := len(path.path) - 1; k >= 0; k-- {
+		ret.Append(PathElement{Edge: path.path[k].Edge, Reverse: !path.path[k].Reverse})
+	}
+	return ret
+}
+
 // CaptureSymbolValues captures the current symbol values as nodes or []Edges
 func (plan MatchPlan) CaptureSymbolValues() map[string]interface{} {
 	ret := make(map[string]interface{})
-	for _, step := range plan.steps {
+	for i, step := range plan.steps {
 		if len(step.GetPatternItem().Name) > 0 {
 			if _, exists := ret[step.GetPatternItem().Name]; !exists {
-				ret[step.GetPatternItem().Name] = step.GetResult()
+				result := step.GetResult()
+				if path, ok := result.(*Path); ok && i > plan.nForward {
+					// This was traversed from its last node to its first
+					result = reversePath(path)
+				}
+				ret[step.GetPatternItem().Name] = result
 			}
 		}
 	}
-- 
2.43.0


From 0c0c4bddd90b182548bfd39931946372ca2cc1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:26 +0000
Subject: [PATCH 28/37] fix: hash indexes accept values that cannot be hashed

Setting an indexed property to such a value, for example loading a JSON
object, panicked and left the element half indexed.
---
 hashindex.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/hashindex.go b/hashindex.go
index d2b9a5f..52e7f61 100644
--- a/hashindex.go
+++ b/hashindex.go
@@ -56,11 +56,27 @@ func hashKey(value interface{}) interface{} {
 			elements = append(elements, fmt.Sprintf("%T:%#v", x, x))
 		}
 	default:
+		if !hashable(value) {
+			return unhashable{}
+		}
 		return value
 	}
 	return hashedList("[" + strings.Join(elements, ",") + "]")
 }
 
+// unhashable is the key of all the values that cannot be map keys, and
+// those that are not equal to themselves
+type unhashable struct{}
+
+func hashable(value interface{}) (ok bool) {
+	defer func() {
+		if r := recover(); r != nil {
+			ok = false
+		}
+	}()
+	return value == value
+}
+
 func (ix *hashIndex) add(value interface{}, id int, item interface{}) {
 	if ix.values == nil {
 		ix.values = make(map[interface{}]*fastSet)
-- 
2.43.0


From 8779459522846fe2d9b80edf37e1b3d76baf23c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:56 +0000
Subject: [PATCH 29/37] fix: ordered indexes accept values of any type

---
 btreeindex.go | 77 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 76 insertions(+), 1 deletion(-)

diff --git a/btreeindex.go b/btreeindex.go
index 64fc5f1..8b660c4 100644
--- a/btreeindex.go
+++ b/btreeindex.go
@@ -23,9 +23,84 @@ type setTree struct {
 	tree *btree.Tree
 }
 
+// compareKeys orders the keys of the tree. It is ComparePropertyValue
+// for the values that can be compared. Other values are ordered by
+// their types, and the values of all unsupported types are equal.
+func compareKeys(a, b interface{}) int {
+	if n, ok := a.(WithNativeValue); ok {
+		return compareKeys(n.GetNativeValue(), b)
+	}
+	if n, ok := b.(WithNativeValue); ok {
+		return compareKeys(a, n.GetNativeValue())
+	}
+	rank := keyRank(a)
+	if d := rank - keyRank(b); d != 0 {
+		return d
+	}
+	switch rank {
+	case listKey:
+		for i := 0; ; i++ {
+			v1, ok1 := listItem(a, i)
+			v2, ok2 := listItem(b, i)
+			switch {
+			case !ok1 && !ok2:
+				return 0
+			case !ok1:
+				return -1
+			case !ok2:
+				return 1
+			}
+			if d := compareKeys(v1, v2); d != 0 {
+				return d
+			}
+		}
+	case otherKey:
+		return 0
+	}
+	return ComparePropertyValue(a, b)
+}
+
+const (
+	intKey = iota
+	stringKey
+	listKey
+	otherKey
+)
+
+func keyRank(value interface{}) int {
+	switch value.(type) {
+	case int:
+		return intKey
+	case string:
+		return stringKey
+	case []string, []int, []interface{}:
+		return listKey
+	}
+	return otherKey
+}
+
+// listItem returns the i'th item of a slice value, false if there is none
+func listItem(value interface{}, i int) (interface{}, bool) {
+	switch l := value.(type) {
+	case []string:
+		if i < len(l) {
+			return l[i], true
+		}
+	case []int:
+		if i < len(l) {
+			return l[i], true
+		}
+	case []interface{}:
+		if i < len(l) {
+			return l[i], true
+		}
+	}
+	return nil, false
+}
+
 func (s *setTree) add(key interface{}, id int, item interface{}) {
 	if s.tree == nil {
-		s.tree = btree.NewWith(16, ComparePropertyValue)
+		s.tree = btree.NewWith(16, compareKeys)
 	}
 	v, found := s.tree.Get(key)
 	if !found {
-- 
2.43.0


From 84067366a66508fb858fca37761f417850e63d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 30/37] fix: edge labels are escaped in DOT output

---
 dotrenderer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dotrenderer.go b/dotrenderer.go
index 2a0a9fb..6d98053 100644
--- a/dotrenderer.go
+++ b/dotrenderer.go
@@ -17,8 +17,12 @@ package lpg
 import (
 	"fmt"
 	"io"
+	"strings"
 )
 
+// dotEscaper escapes a string to be included in a quoted DOT string
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 // DOTRenderer renders a graph in Graphviz dot format
 type DOTRenderer struct {
 	// NodeRenderer renders a node. If the node is to be excluded, returns false.
@@ -57,7 +61,7 @@ func DefaultDOTNodeRender(ID string, node *Node, w io.Writer) error {
 func DefaultDOTEdgeRender(fromNode, toNode string, edge *Edge, w io.Writer) error {
 	lbl := edge.GetLabel()
 	if len(lbl) != 0 {
-		if _, err := fmt.Fprintf(w, "  %s -> %s [label=\"%s\"];\n", fromNode, toNode, lbl); err != nil {
+		if _, err := fmt.Fprintf(w, "  %s -> %s [label=\"%s\"];\n", fromNode, toNode, dotEscaper.Replace(lbl)); err != nil {
 			return err
 		}
 	} else {
-- 
2.43.0


From 9a68d261241dad31397b9e8e01a740f1baeb9b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 31/37] fix: decoding keeps properties with an empty key

---
 json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 4a431c5..f9fef5f 100644
--- a/json.go
+++ b/json.go
@@ -411,7 +411,9 @@ func (j JSON) unmarshalProperties(input map[string]json.RawMessage) (map[string]
 		if err != nil {
 			return nil, err
 		}
-		if len(k) > 0 {
+		// Only a caller-supplied unmarshaler skips properties by
+		// returning an empty key
+		if len(k) > 0 || j.PropertyUnmarshaler == nil {
 			k = j.Interner.Intern(k)
 			ret[k] = v
 		}
-- 
2.43.0


From b7a30f42bba97a6a645ba70fe7fee4a738597d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:17 +0000
Subject: [PATCH 32/37] fix: removing the last node of a label does not scan
 all labels

---
 maps.go | 75 ++++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/maps.go b/maps.go
index 4177273..7dfd2da 100644
--- a/maps.go
+++ b/maps.go
@@ -15,19 +15,60 @@
 package lpg
 
 import (
-	"github.com/emirpasic/gods/maps/linkedhashmap"
+	"container/list"
 )
 
+// A labelMap keeps the node sets of labels, in the order the labels
+// are added
+type labelMap struct {
+	// Map of labels -> *labelNodes
+	m map[string]*list.Element
+	// list of *labelNodes
+	l *list.List
+}
+
+type labelNodes struct {
+	label string
+	set   *fastSet
+}
+
+func newLabelMap() *labelMap {
+	return &labelMap{
+		m: make(map[string]*list.Element),
+		l: list.New(),
+	}
+}
+
+func (lm *labelMap) Size() int { return len(lm.m) }
+
+func (lm *labelMap) Get(label string) (*fastSet, bool) {
+	el, found := lm.m[label]
+	if !found {
+		return nil, false
+	}
+	return el.Value.(*labelNodes).set, true
+}
+
+func (lm *labelMap) Put(label string, set *fastSet) {
+	lm.m[label] = lm.l.PushBack(&labelNodes{label: label, set: set})
+}
+
+func (lm *labelMap) Remove(label string) {
+	if el, found := lm.m[label]; found {
+		delete(lm.m, label)
+		lm.l.Remove(el)
+	}
+}
+
 // An NodeMap stores nodes indexed by node labels
 type NodeMap struct {
-	// m[string]*fastSet
-	m        *linkedhashmap.Map
+	m        *labelMap
 	nolabels fastSet
 }
 
 func NewNodeMap() *NodeMap {
 	nm := &NodeMap{
-		m: linkedhashmap.New(),
+		m: newLabelMap(),
 	}
 	nm.nolabels.init()
 	return nm
@@ -51,7 +92,7 @@ func (nm *NodeMap) Replace(node *Node, oldLabels, newLabels StringSet) {
 			if !found {
 				continue
 			}
-			set = v.(*fastSet)
+			set = v
 			set.remove(node.id)
 			if set.size() == 0 {
 				nm.m.Remove(label)
@@ -66,7 +107,7 @@ func (nm *NodeMap) Replace(node *Node, oldLabels, newLabels StringSet) {
 				set = newFastSet()
 				nm.m.Put(label, set)
 			} else {
-				set = v.(*fastSet)
+				set = v
 			}
 			set.add(node.id, node)
 		}
@@ -86,7 +127,7 @@ func (nm *NodeMap) Add(node *Node) {
 			set = newFastSet()
 			nm.m.Put(label, set)
 		} else {
-			set = v.(*fastSet)
+			set = v
 		}
 		set.add(node.id, node)
 	}
@@ -103,7 +144,7 @@ func (nm NodeMap) Remove(node *Node) {
 		if !found {
 			continue
 		}
-		set = v.(*fastSet)
+		set = v
 		set.remove(node.id)
 		if set.size() == 0 {
 			nm.m.Remove(label)
@@ -116,7 +157,7 @@ func (nm NodeMap) IsEmpty() bool {
 }
 
 type nodeMapIterator struct {
-	labels     *linkedhashmap.Iterator
+	labels     *list.Element
 	seenLabels []string
 	current    NodeIterator
 }
@@ -131,12 +172,10 @@ func (itr *nodeMapIterator) Next() bool {
 	if itr.labels == nil {
 		return false
 	}
-	if !itr.labels.Next() {
-		return false
-	}
-	itr.seenLabels = append(itr.seenLabels, itr.labels.Key().(string))
-	set := itr.labels.Value().(*fastSet)
-	setItr := set.iterator()
+	label := itr.labels.Value.(*labelNodes)
+	itr.labels = itr.labels.Next()
+	itr.seenLabels = append(itr.seenLabels, label.label)
+	setItr := label.set.iterator()
 	itr.current = nodeIterator{withSize(setItr, -1)}
 	itr.current.Next()
 	return true
@@ -151,9 +190,7 @@ func (itr *nodeMapIterator) Node() *Node {
 }
 
 func (nm NodeMap) Iterator() NodeIterator {
-	i := nm.m.Iterator()
-
-	nmIterator := &nodeMapIterator{labels: &i}
+	nmIterator := &nodeMapIterator{labels: nm.m.l.Front()}
 	return nodeIterator{
 		MultiIterator(
 			&filterIterator{
@@ -189,7 +226,7 @@ func (nm NodeMap) IteratorAllLabels(labels StringSet) NodeIterator {
 		if !found {
 			return nodeIterator{&emptyIterator{}}
 		}
-		mp := v.(*fastSet)
+		mp := v
 		if minSet == nil || minSet.size() > mp.size() {
 			minSet = mp
 		}
-- 
2.43.0


From b92788fc266b19e3151c0de2c808da08cb65aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:32 +0000
Subject: [PATCH 33/37] fix: iterating a node map takes time in proportion to
 its size

---
 maps.go | 41 ++++++++++-------------------------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/maps.go b/maps.go
index 7dfd2da..52400af 100644
--- a/maps.go
+++ b/maps.go
@@ -21,17 +21,12 @@ import (
 // A labelMap keeps the node sets of labels, in the order the labels
 // are added
 type labelMap struct {
-	// Map of labels -> *labelNodes
+	// Map of labels -> *fastSet
 	m map[string]*list.Element
-	// list of *labelNodes
+	// list of *fastSet
 	l *list.List
 }
 
-type labelNodes struct {
-	label string
-	set   *fastSet
-}
-
 func newLabelMap() *labelMap {
 	return &labelMap{
 		m: make(map[string]*list.Element),
@@ -46,11 +41,11 @@ func (lm *labelMap) Get(label string) (*fastSet, bool) {
 	if !found {
 		return nil, false
 	}
-	return el.Value.(*labelNodes).set, true
+	return el.Value.(*fastSet), true
 }
 
 func (lm *labelMap) Put(label string, set *fastSet) {
-	lm.m[label] = lm.l.PushBack(&labelNodes{label: label, set: set})
+	lm.m[label] = lm.l.PushBack(set)
 }
 
 func (lm *labelMap) Remove(label string) {
@@ -157,9 +152,8 @@ func (nm NodeMap) IsEmpty() bool {
 }
 
 type nodeMapIterator struct {
-	labels     *list.Element
-	seenLabels []string
-	current    NodeIterator
+	labels  *list.Element
+	current NodeIterator
 }
 
 func (itr *nodeMapIterator) Next() bool {
@@ -172,10 +166,9 @@ func (itr *nodeMapIterator) Next() bool {
 	if itr.labels == nil {
 		return false
 	}
-	label := itr.labels.Value.(*labelNodes)
+	set := itr.labels.Value.(*fastSet)
 	itr.labels = itr.labels.Next()
-	itr.seenLabels = append(itr.seenLabels, label.label)
-	setItr := label.set.iterator()
+	setItr := set.iterator()
 	itr.current = nodeIterator{withSize(setItr, -1)}
 	itr.current.Next()
 	return true
@@ -193,22 +186,8 @@ func (nm NodeMap) Iterator() NodeIterator {
 	nmIterator := &nodeMapIterator{labels: nm.m.l.Front()}
 	return nodeIterator{
 		MultiIterator(
-			&filterIterator{
-				itr: withSize(nmIterator, -1),
-				filter: func(node interface{}) bool {
-					onode := node.(*Node)
-					nSeen := 0
-					for _, l := range nmIterator.seenLabels {
-						if onode.labels.Has(l) {
-							nSeen++
-							if nSeen > 1 {
-								return false
-							}
-						}
-					}
-					return true
-				},
-			},
+			// A node is listed under all of its labels
+			makeUniqueIterator(withSize(nmIterator, -1)),
 			nm.nolabels.iterator(),
 		),
 	}
-- 
2.43.0


From 8c3a43f50dbc7e0ce4eeb8f432fd8db8eb431d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:28 +0000
Subject: [PATCH 34/37] fix: paths made from the same elements do not share
 them

---
 path.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index cc8a5cd..913e4e8 100644
--- a/path.go
+++ b/path.go
@@ -31,7 +31,8 @@ type PathElement struct {
 }
 
 func NewPathFromElements(elements ...PathElement) *Path {
-	return &Path{path: elements}
+	// The elements are the caller's, the path keeps a copy
+	return &Path{path: append([]PathElement(nil), elements...)}
 }
 
 func NewPathElementsFromEdges(edges []*Edge) []PathElement {
-- 
2.43.0


From 5b93c8c724a1af6adfceac99a66a03dbf910b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:29 +0000
Subject: [PATCH 35/37] fix: the variables of a pattern result are paths of
 their own

---
 pattern.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pattern.go b/pattern.go
index c15945e..253daaa 100644
--- a/pattern.go
+++ b/pattern.go
@@ -591,9 +591,14 @@ func (plan MatchPlan) CaptureSymbolValues() map[string]interface{} {
 		if len(step.GetPatternItem().Name) > 0 {
 			if _, exists := ret[step.GetPatternItem().Name]; !exists {
 				result := step.GetResult()
-				if path, ok := result.(*Path); ok && i > plan.nForward {
-					// This was traversed from its last node to its first
-					result = reversePath(path)
+				if path, ok := result.(*Path); ok {
+					if i > plan.nForward {
+						// This was traversed from its last node to its first
+						result = reversePath(path)
+					} else {
+						// The step continues to use its own path
+						result = path.Clone()
+					}
 				}
 				ret[step.GetPatternItem().Name] = result
 			}
-- 
2.43.0


From 769fe28b1c28da076e6759f45699569fe1e5f4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:12 +0000
Subject: [PATCH 36/37] fix: hash indexes forget values no element has any more

---
 hashindex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashindex.go b/hashindex.go
index 52e7f61..ba7dad7 100644
--- a/hashindex.go
+++ b/hashindex.go
@@ -106,6 +106,9 @@ func (ix *hashIndex) remove(value interface{}, id int) {
 		return
 	}
 	fs.remove(id)
+	if fs.size() == 0 {
+		delete(ix.values, value)
+	}
 	ix.elements.Remove(el.(*list.Element))
 }
 
-- 
2.43.0


From a4f6008b86eece1749c851d4b12c36268af0b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:37 +0000
Subject: [PATCH 37/37] fix: a removed node does not keep the nodes removed
 after it

---
 list.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/list.go b/list.go
index 97d30c8..bc27306 100644
--- a/list.go
+++ b/list.go
@@ -119,6 +119,8 @@ func (list *nodeList) remove(node *Node) {
 	} else {
 		list.tail = node.prev
 	}
+	node.next = nil
+	node.prev = nil
 	list.n--
 }
 
-- 
2.43.0

