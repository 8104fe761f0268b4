From 0862ae45210d3663915f258516326d614ad87334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 1/5] fix: Store and LoadOrStore(Lazy) wait for a node that is
 not fully linked

A node found by the search but not yet fully linked is not visible to Load,
Delete and Range. Treating it as present let a Store return and the same
goroutine's Load or Delete miss the key.
---
 gen_func.go        | 27 ++++++++++++---------------
 gen_int.go         | 27 ++++++++++++---------------
 gen_int32.go       | 27 ++++++++++++---------------
 gen_int32desc.go   | 27 ++++++++++++---------------
 gen_int64.go       | 27 ++++++++++++---------------
 gen_int64desc.go   | 27 ++++++++++++---------------
 gen_intdesc.go     | 27 ++++++++++++---------------
 gen_ordered.go     | 27 ++++++++++++---------------
 gen_ordereddesc.go | 27 ++++++++++++---------------
 gen_string.go      | 27 ++++++++++++---------------
 gen_stringdesc.go  | 27 ++++++++++++---------------
 gen_uint.go        | 27 ++++++++++++---------------
 gen_uint32.go      | 27 ++++++++++++---------------
 gen_uint32desc.go  | 27 ++++++++++++---------------
 gen_uint64.go      | 27 ++++++++++++---------------
 gen_uint64desc.go  | 27 ++++++++++++---------------
 gen_uintdesc.go    | 27 ++++++++++++---------------
 skipmap.tpl        | 27 ++++++++++++---------------
 18 files changed, 216 insertions(+), 270 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 8653cae..385dc76 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -123,14 +123,13 @@ func (s *FuncMap[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -289,13 +288,12 @@ func (s *FuncMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual valu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -359,13 +357,12 @@ func (s *FuncMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_int.go b/gen_int.go
index d833df1..cd85939 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -121,14 +121,13 @@ func (s *IntMap[valueT]) Store(key int, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *IntMap[valueT]) LoadOrStore(key int, value valueT) (actual valueT, load
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *IntMap[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual value
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_int32.go b/gen_int32.go
index 0e934b6..b1b489c 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -121,14 +121,13 @@ func (s *Int32Map[valueT]) Store(key int32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *Int32Map[valueT]) LoadOrStore(key int32, value valueT) (actual valueT,
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *Int32Map[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_int32desc.go b/gen_int32desc.go
index 40d61e1..ff09932 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -121,14 +121,13 @@ func (s *Int32MapDesc[valueT]) Store(key int32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *Int32MapDesc[valueT]) LoadOrStore(key int32, value valueT) (actual valu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *Int32MapDesc[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_int64.go b/gen_int64.go
index e089813..987a4da 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -121,14 +121,13 @@ func (s *Int64Map[valueT]) Store(key int64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *Int64Map[valueT]) LoadOrStore(key int64, value valueT) (actual valueT,
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *Int64Map[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 3fa40fa..68759ec 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -121,14 +121,13 @@ func (s *Int64MapDesc[valueT]) Store(key int64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *Int64MapDesc[valueT]) LoadOrStore(key int64, value valueT) (actual valu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *Int64MapDesc[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_intdesc.go b/gen_intdesc.go
index eb274b5..d8a29d3 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -121,14 +121,13 @@ func (s *IntMapDesc[valueT]) Store(key int, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *IntMapDesc[valueT]) LoadOrStore(key int, value valueT) (actual valueT,
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *IntMapDesc[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_ordered.go b/gen_ordered.go
index c1c5abb..fc4f59a 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -121,14 +121,13 @@ func (s *OrderedMap[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (a
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 6a944f9..7d14ba0 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -121,14 +121,13 @@ func (s *OrderedMapDesc[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_string.go b/gen_string.go
index 6e46134..cdc69ef 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -121,14 +121,13 @@ func (s *StringMap[valueT]) Store(key string, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *StringMap[valueT]) LoadOrStore(key string, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *StringMap[valueT]) LoadOrStoreLazy(key string, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index b28a632..bad76d0 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -121,14 +121,13 @@ func (s *StringMapDesc[valueT]) Store(key string, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *StringMapDesc[valueT]) LoadOrStore(key string, value valueT) (actual va
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *StringMapDesc[valueT]) LoadOrStoreLazy(key string, f func() valueT) (ac
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_uint.go b/gen_uint.go
index d266c27..ce3068b 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -121,14 +121,13 @@ func (s *UintMap[valueT]) Store(key uint, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *UintMap[valueT]) LoadOrStore(key uint, value valueT) (actual valueT, lo
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *UintMap[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual val
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_uint32.go b/gen_uint32.go
index 648c8e1..b20ad85 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -121,14 +121,13 @@ func (s *Uint32Map[valueT]) Store(key uint32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *Uint32Map[valueT]) LoadOrStore(key uint32, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *Uint32Map[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index c994276..1bf7c22 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -121,14 +121,13 @@ func (s *Uint32MapDesc[valueT]) Store(key uint32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *Uint32MapDesc[valueT]) LoadOrStore(key uint32, value valueT) (actual va
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *Uint32MapDesc[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (ac
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_uint64.go b/gen_uint64.go
index e29247f..8ecbff6 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -121,14 +121,13 @@ func (s *Uint64Map[valueT]) Store(key uint64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *Uint64Map[valueT]) LoadOrStore(key uint64, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *Uint64Map[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index 9d24953..6d2911e 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -121,14 +121,13 @@ func (s *Uint64MapDesc[valueT]) Store(key uint64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *Uint64MapDesc[valueT]) LoadOrStore(key uint64, value valueT) (actual va
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *Uint64MapDesc[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (ac
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index 106d4e5..cd167a4 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -121,14 +121,13 @@ func (s *UintMapDesc[valueT]) Store(key uint, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -287,13 +286,12 @@ func (s *UintMapDesc[valueT]) LoadOrStore(key uint, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -357,13 +355,12 @@ func (s *UintMapDesc[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
diff --git a/skipmap.tpl b/skipmap.tpl
index 0f6aea7..b49c4ac 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -120,14 +120,13 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Store(key {{.Ke
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -286,13 +285,12 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStore(key
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
@@ -356,13 +354,12 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStoreLazy
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
+				// The mapping is visible, just return the value.
 				return nodeFound.loadVal(), true
 			}
-			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-			// we need to add this node in next loop.
+			// If the node is not fully linked or marked, represents some other goroutines is in the process of
+			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
 			continue
 		}
 
-- 
2.43.0


From f612bee3d8f2b086273996ad9a227c3a01c2f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 2/5] fix: a Store racing LoadAndDelete no longer loses its
 value

Store checked that the node is not marked and then replaced the value. When
LoadAndDelete marked, unlinked and read the node in between, the stored value
was neither returned by it nor left in the map.
---
 gen_func.go        | 28 ++++++++++++++++++++++++----
 gen_int.go         | 28 ++++++++++++++++++++++++----
 gen_int32.go       | 28 ++++++++++++++++++++++++----
 gen_int32desc.go   | 28 ++++++++++++++++++++++++----
 gen_int64.go       | 28 ++++++++++++++++++++++++----
 gen_int64desc.go   | 28 ++++++++++++++++++++++++----
 gen_intdesc.go     | 28 ++++++++++++++++++++++++----
 gen_ordered.go     | 28 ++++++++++++++++++++++++----
 gen_ordereddesc.go | 28 ++++++++++++++++++++++++----
 gen_string.go      | 28 ++++++++++++++++++++++++----
 gen_stringdesc.go  | 28 ++++++++++++++++++++++++----
 gen_uint.go        | 28 ++++++++++++++++++++++++----
 gen_uint32.go      | 28 ++++++++++++++++++++++++----
 gen_uint32desc.go  | 28 ++++++++++++++++++++++++----
 gen_uint64.go      | 28 ++++++++++++++++++++++++----
 gen_uint64desc.go  | 28 ++++++++++++++++++++++++----
 gen_uintdesc.go    | 28 ++++++++++++++++++++++++----
 skipmap.tpl        | 28 ++++++++++++++++++++++++----
 18 files changed, 432 insertions(+), 72 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 385dc76..9ef0110 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -46,6 +46,23 @@ func (n *funcnode[keyT, valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *funcnode[keyT, valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *funcnode[keyT, valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *funcnode[keyT, valueT]) loadNext(i int) *funcnode[keyT, valueT] {
 	return (*funcnode[keyT, valueT])(n.next.load(i))
 }
@@ -123,13 +140,16 @@ func (s *FuncMap[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -269,7 +289,7 @@ func (s *FuncMap[keyT, valueT]) LoadAndDelete(key keyT) (value valueT, loaded bo
 			nodeToDelete.mu.Unlock()
 			unlockfunc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_int.go b/gen_int.go
index cd85939..dd8a3f2 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -44,6 +44,23 @@ func (n *intnode[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *intnode[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *intnode[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *intnode[valueT]) loadNext(i int) *intnode[valueT] {
 	return (*intnode[valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *IntMap[valueT]) Store(key int, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *IntMap[valueT]) LoadAndDelete(key int) (value valueT, loaded bool) {
 			nodeToDelete.mu.Unlock()
 			unlockint(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_int32.go b/gen_int32.go
index b1b489c..828901a 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -44,6 +44,23 @@ func (n *int32node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *int32node[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *int32node[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *int32node[valueT]) loadNext(i int) *int32node[valueT] {
 	return (*int32node[valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *Int32Map[valueT]) Store(key int32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *Int32Map[valueT]) LoadAndDelete(key int32) (value valueT, loaded bool)
 			nodeToDelete.mu.Unlock()
 			unlockint32(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_int32desc.go b/gen_int32desc.go
index ff09932..22c8a56 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -44,6 +44,23 @@ func (n *int32nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *int32nodeDesc[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *int32nodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *int32nodeDesc[valueT]) loadNext(i int) *int32nodeDesc[valueT] {
 	return (*int32nodeDesc[valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *Int32MapDesc[valueT]) Store(key int32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *Int32MapDesc[valueT]) LoadAndDelete(key int32) (value valueT, loaded bo
 			nodeToDelete.mu.Unlock()
 			unlockint32Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_int64.go b/gen_int64.go
index 987a4da..be6bc20 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -44,6 +44,23 @@ func (n *int64node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *int64node[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *int64node[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *int64node[valueT]) loadNext(i int) *int64node[valueT] {
 	return (*int64node[valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *Int64Map[valueT]) Store(key int64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *Int64Map[valueT]) LoadAndDelete(key int64) (value valueT, loaded bool)
 			nodeToDelete.mu.Unlock()
 			unlockint64(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 68759ec..54d4add 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -44,6 +44,23 @@ func (n *int64nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *int64nodeDesc[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *int64nodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *int64nodeDesc[valueT]) loadNext(i int) *int64nodeDesc[valueT] {
 	return (*int64nodeDesc[valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *Int64MapDesc[valueT]) Store(key int64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *Int64MapDesc[valueT]) LoadAndDelete(key int64) (value valueT, loaded bo
 			nodeToDelete.mu.Unlock()
 			unlockint64Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_intdesc.go b/gen_intdesc.go
index d8a29d3..3d6c248 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -44,6 +44,23 @@ func (n *intnodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *intnodeDesc[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *intnodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *intnodeDesc[valueT]) loadNext(i int) *intnodeDesc[valueT] {
 	return (*intnodeDesc[valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *IntMapDesc[valueT]) Store(key int, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *IntMapDesc[valueT]) LoadAndDelete(key int) (value valueT, loaded bool)
 			nodeToDelete.mu.Unlock()
 			unlockintDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_ordered.go b/gen_ordered.go
index fc4f59a..21ec18d 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -44,6 +44,23 @@ func (n *orderednode[keyT, valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *orderednode[keyT, valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *orderednode[keyT, valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *orderednode[keyT, valueT]) loadNext(i int) *orderednode[keyT, valueT] {
 	return (*orderednode[keyT, valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *OrderedMap[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *OrderedMap[keyT, valueT]) LoadAndDelete(key keyT) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockordered(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 7d14ba0..9e86ebf 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -44,6 +44,23 @@ func (n *orderednodeDesc[keyT, valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *orderednodeDesc[keyT, valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *orderednodeDesc[keyT, valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *orderednodeDesc[keyT, valueT]) loadNext(i int) *orderednodeDesc[keyT, valueT] {
 	return (*orderednodeDesc[keyT, valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *OrderedMapDesc[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadAndDelete(key keyT) (value valueT, lo
 			nodeToDelete.mu.Unlock()
 			unlockorderedDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_string.go b/gen_string.go
index cdc69ef..558d408 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -44,6 +44,23 @@ func (n *stringnode[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *stringnode[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *stringnode[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *stringnode[valueT]) loadNext(i int) *stringnode[valueT] {
 	return (*stringnode[valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *StringMap[valueT]) Store(key string, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *StringMap[valueT]) LoadAndDelete(key string) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockstring(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index bad76d0..e2a3d60 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -44,6 +44,23 @@ func (n *stringnodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *stringnodeDesc[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *stringnodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *stringnodeDesc[valueT]) loadNext(i int) *stringnodeDesc[valueT] {
 	return (*stringnodeDesc[valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *StringMapDesc[valueT]) Store(key string, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *StringMapDesc[valueT]) LoadAndDelete(key string) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockstringDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uint.go b/gen_uint.go
index ce3068b..c1dd6cb 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -44,6 +44,23 @@ func (n *uintnode[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *uintnode[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *uintnode[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *uintnode[valueT]) loadNext(i int) *uintnode[valueT] {
 	return (*uintnode[valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *UintMap[valueT]) Store(key uint, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *UintMap[valueT]) LoadAndDelete(key uint) (value valueT, loaded bool) {
 			nodeToDelete.mu.Unlock()
 			unlockuint(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uint32.go b/gen_uint32.go
index b20ad85..71848ec 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -44,6 +44,23 @@ func (n *uint32node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *uint32node[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *uint32node[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *uint32node[valueT]) loadNext(i int) *uint32node[valueT] {
 	return (*uint32node[valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *Uint32Map[valueT]) Store(key uint32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *Uint32Map[valueT]) LoadAndDelete(key uint32) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockuint32(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index 1bf7c22..e6c6c30 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -44,6 +44,23 @@ func (n *uint32nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *uint32nodeDesc[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *uint32nodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *uint32nodeDesc[valueT]) loadNext(i int) *uint32nodeDesc[valueT] {
 	return (*uint32nodeDesc[valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *Uint32MapDesc[valueT]) Store(key uint32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *Uint32MapDesc[valueT]) LoadAndDelete(key uint32) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockuint32Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uint64.go b/gen_uint64.go
index 8ecbff6..f106863 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -44,6 +44,23 @@ func (n *uint64node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *uint64node[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *uint64node[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *uint64node[valueT]) loadNext(i int) *uint64node[valueT] {
 	return (*uint64node[valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *Uint64Map[valueT]) Store(key uint64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *Uint64Map[valueT]) LoadAndDelete(key uint64) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockuint64(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index 6d2911e..6c11df0 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -44,6 +44,23 @@ func (n *uint64nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *uint64nodeDesc[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *uint64nodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *uint64nodeDesc[valueT]) loadNext(i int) *uint64nodeDesc[valueT] {
 	return (*uint64nodeDesc[valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *Uint64MapDesc[valueT]) Store(key uint64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *Uint64MapDesc[valueT]) LoadAndDelete(key uint64) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockuint64Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index cd167a4..0ddfba0 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -44,6 +44,23 @@ func (n *uintnodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *uintnodeDesc[valueT]) casVal(old unsafe.Pointer, value valueT) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *uintnodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *uintnodeDesc[valueT]) loadNext(i int) *uintnodeDesc[valueT] {
 	return (*uintnodeDesc[valueT])(n.next.load(i))
 }
@@ -121,13 +138,16 @@ func (s *UintMapDesc[valueT]) Store(key uint, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -267,7 +287,7 @@ func (s *UintMapDesc[valueT]) LoadAndDelete(key uint) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockuintDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/skipmap.tpl b/skipmap.tpl
index b49c4ac..ea3230c 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -43,6 +43,23 @@ func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) loadVal() {
 	return *(*{{.ValueType}})(atomic.LoadPointer(&n.value))
 }
 
+// casVal replaces the value if it is still the old one.
+func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) casVal(old unsafe.Pointer, value {{.ValueType}}) bool {
+	return atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value))
+}
+
+// takeVal returns the last value of a marked node. It moves the value to another place,
+// so the goroutines which are going to replace the value by casVal will fail.
+func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) takeVal() {{.ValueType}} {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*{{.ValueType}})(old)
+		if n.casVal(old, value) {
+			return value
+		}
+	}
+}
+
 func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) loadNext(i int) *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}} {
 	return (*{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}})(n.next.load(i))
 }
@@ -120,13 +137,16 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Store(key {{.Ke
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				// The mapping is visible, just replace the value.
-				nodeFound.storeVal(value)
+			// The old value must be read before the flags: if the node is deleted after the check,
+			// LoadAndDelete has replaced the value and this one will not be lost.
+			old := atomic.LoadPointer(&nodeFound.value)
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) && nodeFound.casVal(old, value) {
+				// The mapping is visible, the value has been replaced.
 				return
 			}
 			// If the node is not fully linked or marked, represents some other goroutines is in the process of
 			// inserting or deleting this node, Load and Delete don't see it, we need to search again in next loop.
+			// The same goes for a value that has just been replaced by some other goroutines.
 			continue
 		}
 
@@ -266,7 +286,7 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadAndDelete(k
 			nodeToDelete.mu.Unlock()
 			unlock{{.Name}}(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
-- 
2.43.0


From 6fcc04e0e80759e2e466df1974c4cb26b3569b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 3/5] fix: Len is never negative

An insertion counted its node after publishing it, so a deletion of the node
could be counted first.
---
 gen_func.go        | 6 +++---
 gen_int.go         | 6 +++---
 gen_int32.go       | 6 +++---
 gen_int32desc.go   | 6 +++---
 gen_int64.go       | 6 +++---
 gen_int64desc.go   | 6 +++---
 gen_intdesc.go     | 6 +++---
 gen_ordered.go     | 6 +++---
 gen_ordereddesc.go | 6 +++---
 gen_string.go      | 6 +++---
 gen_stringdesc.go  | 6 +++---
 gen_uint.go        | 6 +++---
 gen_uint32.go      | 6 +++---
 gen_uint32desc.go  | 6 +++---
 gen_uint64.go      | 6 +++---
 gen_uint64desc.go  | 6 +++---
 gen_uintdesc.go    | 6 +++---
 skipmap.tpl        | 6 +++---
 18 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 9ef0110..14ebe08 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -183,9 +183,9 @@ func (s *FuncMap[keyT, valueT]) Store(key keyT, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -357,9 +357,9 @@ func (s *FuncMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual valu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -426,9 +426,9 @@ func (s *FuncMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int.go b/gen_int.go
index dd8a3f2..9f77192 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -181,9 +181,9 @@ func (s *IntMap[valueT]) Store(key int, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *IntMap[valueT]) LoadOrStore(key int, value valueT) (actual valueT, load
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *IntMap[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual value
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int32.go b/gen_int32.go
index 828901a..ff6ec66 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -181,9 +181,9 @@ func (s *Int32Map[valueT]) Store(key int32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *Int32Map[valueT]) LoadOrStore(key int32, value valueT) (actual valueT,
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *Int32Map[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int32desc.go b/gen_int32desc.go
index 22c8a56..9c9dcc4 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -181,9 +181,9 @@ func (s *Int32MapDesc[valueT]) Store(key int32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *Int32MapDesc[valueT]) LoadOrStore(key int32, value valueT) (actual valu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *Int32MapDesc[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int64.go b/gen_int64.go
index be6bc20..c6e2141 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -181,9 +181,9 @@ func (s *Int64Map[valueT]) Store(key int64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *Int64Map[valueT]) LoadOrStore(key int64, value valueT) (actual valueT,
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *Int64Map[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 54d4add..6bb6710 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -181,9 +181,9 @@ func (s *Int64MapDesc[valueT]) Store(key int64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *Int64MapDesc[valueT]) LoadOrStore(key int64, value valueT) (actual valu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *Int64MapDesc[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_intdesc.go b/gen_intdesc.go
index 3d6c248..fcbd978 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -181,9 +181,9 @@ func (s *IntMapDesc[valueT]) Store(key int, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *IntMapDesc[valueT]) LoadOrStore(key int, value valueT) (actual valueT,
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *IntMapDesc[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_ordered.go b/gen_ordered.go
index 21ec18d..17e5aaa 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -181,9 +181,9 @@ func (s *OrderedMap[keyT, valueT]) Store(key keyT, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (a
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 9e86ebf..63970c9 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -181,9 +181,9 @@ func (s *OrderedMapDesc[keyT, valueT]) Store(key keyT, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_string.go b/gen_string.go
index 558d408..730623f 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -181,9 +181,9 @@ func (s *StringMap[valueT]) Store(key string, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *StringMap[valueT]) LoadOrStore(key string, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *StringMap[valueT]) LoadOrStoreLazy(key string, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index e2a3d60..c779a1f 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -181,9 +181,9 @@ func (s *StringMapDesc[valueT]) Store(key string, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *StringMapDesc[valueT]) LoadOrStore(key string, value valueT) (actual va
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *StringMapDesc[valueT]) LoadOrStoreLazy(key string, f func() valueT) (ac
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint.go b/gen_uint.go
index c1dd6cb..a98be42 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -181,9 +181,9 @@ func (s *UintMap[valueT]) Store(key uint, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *UintMap[valueT]) LoadOrStore(key uint, value valueT) (actual valueT, lo
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *UintMap[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual val
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint32.go b/gen_uint32.go
index 71848ec..c584bf4 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -181,9 +181,9 @@ func (s *Uint32Map[valueT]) Store(key uint32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *Uint32Map[valueT]) LoadOrStore(key uint32, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *Uint32Map[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index e6c6c30..5a41240 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -181,9 +181,9 @@ func (s *Uint32MapDesc[valueT]) Store(key uint32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *Uint32MapDesc[valueT]) LoadOrStore(key uint32, value valueT) (actual va
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *Uint32MapDesc[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (ac
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint64.go b/gen_uint64.go
index f106863..b325c37 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -181,9 +181,9 @@ func (s *Uint64Map[valueT]) Store(key uint64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *Uint64Map[valueT]) LoadOrStore(key uint64, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *Uint64Map[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index 6c11df0..cba9865 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -181,9 +181,9 @@ func (s *Uint64MapDesc[valueT]) Store(key uint64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *Uint64MapDesc[valueT]) LoadOrStore(key uint64, value valueT) (actual va
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *Uint64MapDesc[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (ac
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index 0ddfba0..8b4d3ec 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -181,9 +181,9 @@ func (s *UintMapDesc[valueT]) Store(key uint, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -355,9 +355,9 @@ func (s *UintMapDesc[valueT]) LoadOrStore(key uint, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -424,9 +424,9 @@ func (s *UintMapDesc[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/skipmap.tpl b/skipmap.tpl
index ea3230c..1313a35 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -180,9 +180,9 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Store(key {{.Ke
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -354,9 +354,9 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStore(key
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -423,9 +423,9 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStoreLazy
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
-- 
2.43.0


From 1840a6dace10f5b24f90e741d50b0003be390a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 4/5] fix: a panic in the function given to LoadOrStoreLazy
 releases the locks

The locks on the predecessors were kept forever, so later insertions and
deletions next to the key blocked.
---
 gen_func.go        | 15 ++++++++++++++-
 gen_int.go         | 15 ++++++++++++++-
 gen_int32.go       | 15 ++++++++++++++-
 gen_int32desc.go   | 15 ++++++++++++++-
 gen_int64.go       | 15 ++++++++++++++-
 gen_int64desc.go   | 15 ++++++++++++++-
 gen_intdesc.go     | 15 ++++++++++++++-
 gen_ordered.go     | 15 ++++++++++++++-
 gen_ordereddesc.go | 15 ++++++++++++++-
 gen_string.go      | 15 ++++++++++++++-
 gen_stringdesc.go  | 15 ++++++++++++++-
 gen_uint.go        | 15 ++++++++++++++-
 gen_uint32.go      | 15 ++++++++++++++-
 gen_uint32desc.go  | 15 ++++++++++++++-
 gen_uint64.go      | 15 ++++++++++++++-
 gen_uint64desc.go  | 15 ++++++++++++++-
 gen_uintdesc.go    | 15 ++++++++++++++-
 skipmap.tpl        | 15 ++++++++++++++-
 18 files changed, 252 insertions(+), 18 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 14ebe08..c20fd80 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -364,6 +364,19 @@ func (s *FuncMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual valu
 	}
 }
 
+// lazyValuefunc returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValuefunc[keyT any, valueT any](f func() valueT, preds *[maxLevel]*funcnode[keyT, valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockfunc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -420,7 +433,7 @@ func (s *FuncMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (actu
 			unlockfunc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValuefunc(f, &preds, highestLocked)
 		nn := newFuncNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int.go b/gen_int.go
index 9f77192..72bb2b9 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -362,6 +362,19 @@ func (s *IntMap[valueT]) LoadOrStore(key int, value valueT) (actual valueT, load
 	}
 }
 
+// lazyValueint returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValueint[valueT any](f func() valueT, preds *[maxLevel]*intnode[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *IntMap[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual value
 			unlockint(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValueint(f, &preds, highestLocked)
 		nn := newIntNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int32.go b/gen_int32.go
index ff6ec66..422a31f 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -362,6 +362,19 @@ func (s *Int32Map[valueT]) LoadOrStore(key int32, value valueT) (actual valueT,
 	}
 }
 
+// lazyValueint32 returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValueint32[valueT any](f func() valueT, preds *[maxLevel]*int32node[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint32(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *Int32Map[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actual v
 			unlockint32(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValueint32(f, &preds, highestLocked)
 		nn := newInt32Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int32desc.go b/gen_int32desc.go
index 9c9dcc4..19b243e 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -362,6 +362,19 @@ func (s *Int32MapDesc[valueT]) LoadOrStore(key int32, value valueT) (actual valu
 	}
 }
 
+// lazyValueint32Desc returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValueint32Desc[valueT any](f func() valueT, preds *[maxLevel]*int32nodeDesc[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint32Desc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *Int32MapDesc[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actu
 			unlockint32Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValueint32Desc(f, &preds, highestLocked)
 		nn := newInt32NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int64.go b/gen_int64.go
index c6e2141..f2eee27 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -362,6 +362,19 @@ func (s *Int64Map[valueT]) LoadOrStore(key int64, value valueT) (actual valueT,
 	}
 }
 
+// lazyValueint64 returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValueint64[valueT any](f func() valueT, preds *[maxLevel]*int64node[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint64(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *Int64Map[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actual v
 			unlockint64(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValueint64(f, &preds, highestLocked)
 		nn := newInt64Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 6bb6710..49ec4ef 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -362,6 +362,19 @@ func (s *Int64MapDesc[valueT]) LoadOrStore(key int64, value valueT) (actual valu
 	}
 }
 
+// lazyValueint64Desc returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValueint64Desc[valueT any](f func() valueT, preds *[maxLevel]*int64nodeDesc[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint64Desc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *Int64MapDesc[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actu
 			unlockint64Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValueint64Desc(f, &preds, highestLocked)
 		nn := newInt64NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_intdesc.go b/gen_intdesc.go
index fcbd978..4738307 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -362,6 +362,19 @@ func (s *IntMapDesc[valueT]) LoadOrStore(key int, value valueT) (actual valueT,
 	}
 }
 
+// lazyValueintDesc returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValueintDesc[valueT any](f func() valueT, preds *[maxLevel]*intnodeDesc[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockintDesc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *IntMapDesc[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual v
 			unlockintDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValueintDesc(f, &preds, highestLocked)
 		nn := newIntNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_ordered.go b/gen_ordered.go
index 17e5aaa..77828fe 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -362,6 +362,19 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual v
 	}
 }
 
+// lazyValueordered returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValueordered[keyT ordered, valueT any](f func() valueT, preds *[maxLevel]*orderednode[keyT, valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockordered(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (a
 			unlockordered(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValueordered(f, &preds, highestLocked)
 		nn := newOrderedNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 63970c9..3048eaf 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -362,6 +362,19 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actu
 	}
 }
 
+// lazyValueorderedDesc returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValueorderedDesc[keyT ordered, valueT any](f func() valueT, preds *[maxLevel]*orderednodeDesc[keyT, valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockorderedDesc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT
 			unlockorderedDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValueorderedDesc(f, &preds, highestLocked)
 		nn := newOrderedNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_string.go b/gen_string.go
index 730623f..cce1a84 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -362,6 +362,19 @@ func (s *StringMap[valueT]) LoadOrStore(key string, value valueT) (actual valueT
 	}
 }
 
+// lazyValuestring returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValuestring[valueT any](f func() valueT, preds *[maxLevel]*stringnode[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockstring(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *StringMap[valueT]) LoadOrStoreLazy(key string, f func() valueT) (actual
 			unlockstring(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValuestring(f, &preds, highestLocked)
 		nn := newStringNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index c779a1f..332119d 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -362,6 +362,19 @@ func (s *StringMapDesc[valueT]) LoadOrStore(key string, value valueT) (actual va
 	}
 }
 
+// lazyValuestringDesc returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValuestringDesc[valueT any](f func() valueT, preds *[maxLevel]*stringnodeDesc[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockstringDesc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *StringMapDesc[valueT]) LoadOrStoreLazy(key string, f func() valueT) (ac
 			unlockstringDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValuestringDesc(f, &preds, highestLocked)
 		nn := newStringNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint.go b/gen_uint.go
index a98be42..d6c1562 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -362,6 +362,19 @@ func (s *UintMap[valueT]) LoadOrStore(key uint, value valueT) (actual valueT, lo
 	}
 }
 
+// lazyValueuint returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValueuint[valueT any](f func() valueT, preds *[maxLevel]*uintnode[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *UintMap[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual val
 			unlockuint(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValueuint(f, &preds, highestLocked)
 		nn := newUintNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint32.go b/gen_uint32.go
index c584bf4..95c5d66 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -362,6 +362,19 @@ func (s *Uint32Map[valueT]) LoadOrStore(key uint32, value valueT) (actual valueT
 	}
 }
 
+// lazyValueuint32 returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValueuint32[valueT any](f func() valueT, preds *[maxLevel]*uint32node[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint32(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *Uint32Map[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (actual
 			unlockuint32(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValueuint32(f, &preds, highestLocked)
 		nn := newUint32Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index 5a41240..6d329d1 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -362,6 +362,19 @@ func (s *Uint32MapDesc[valueT]) LoadOrStore(key uint32, value valueT) (actual va
 	}
 }
 
+// lazyValueuint32Desc returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValueuint32Desc[valueT any](f func() valueT, preds *[maxLevel]*uint32nodeDesc[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint32Desc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *Uint32MapDesc[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (ac
 			unlockuint32Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValueuint32Desc(f, &preds, highestLocked)
 		nn := newUint32NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint64.go b/gen_uint64.go
index b325c37..6bf0e01 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -362,6 +362,19 @@ func (s *Uint64Map[valueT]) LoadOrStore(key uint64, value valueT) (actual valueT
 	}
 }
 
+// lazyValueuint64 returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValueuint64[valueT any](f func() valueT, preds *[maxLevel]*uint64node[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint64(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *Uint64Map[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (actual
 			unlockuint64(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValueuint64(f, &preds, highestLocked)
 		nn := newUint64Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index cba9865..0b2fa22 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -362,6 +362,19 @@ func (s *Uint64MapDesc[valueT]) LoadOrStore(key uint64, value valueT) (actual va
 	}
 }
 
+// lazyValueuint64Desc returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValueuint64Desc[valueT any](f func() valueT, preds *[maxLevel]*uint64nodeDesc[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint64Desc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *Uint64MapDesc[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (ac
 			unlockuint64Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValueuint64Desc(f, &preds, highestLocked)
 		nn := newUint64NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index 8b4d3ec..d25e6cd 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -362,6 +362,19 @@ func (s *UintMapDesc[valueT]) LoadOrStore(key uint, value valueT) (actual valueT
 	}
 }
 
+// lazyValueuintDesc returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValueuintDesc[valueT any](f func() valueT, preds *[maxLevel]*uintnodeDesc[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuintDesc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -418,7 +431,7 @@ func (s *UintMapDesc[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual
 			unlockuintDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValueuintDesc(f, &preds, highestLocked)
 		nn := newUintNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/skipmap.tpl b/skipmap.tpl
index 1313a35..63ba1e8 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -361,6 +361,19 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStore(key
 	}
 }
 
+// lazyValue{{.Name}} returns the value of f. If f panics, the locked preds are unlocked.
+func lazyValue{{.Name}}{{.TypeParam}}(f func() {{.ValueType}}, preds *[maxLevel]*{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}, highestLocked int) (value {{.ValueType}}) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlock{{.Name}}(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // LoadOrStoreLazy returns the existing value for the key if present.
 // Otherwise, it stores and returns the given value from f, f will only be called once.
 // The loaded result is true if the value was loaded, false if stored.
@@ -417,7 +430,7 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStoreLazy
 			unlock{{.Name}}(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := lazyValue{{.Name}}(f, &preds, highestLocked)
 		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
-- 
2.43.0


From fde3e195fdd5774134134a540e2b3ca8b3efe753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 5/5] fix: NaN keys no longer break New and NewDesc maps of
 floats

A NaN compares false with everything, so one NaN key made other keys
unreachable and could be stored again and again. As in NewFloat64, NaN is now
one key that orders before all numbers.
---
 gen.go             |  8 ++++----
 gen_ordered.go     | 12 ++++++------
 gen_ordereddesc.go | 12 ++++++------
 util.go            |  6 ++++++
 4 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/gen.go b/gen.go
index 2c57612..9914883 100644
--- a/gen.go
+++ b/gen.go
@@ -71,10 +71,10 @@ func main() {
 		StructSuffix:    "",
 		Funcs: template.FuncMap{
 			"Less": func(i, j string) string {
-				return fmt.Sprintf("(%s < %s)", i, j)
+				return fmt.Sprintf("(%[1]s < %[2]s || isNaN(%[1]s) && !isNaN(%[2]s))", i, j)
 			},
 			"Equal": func(i, j string) string {
-				return fmt.Sprintf("%s == %s", i, j)
+				return fmt.Sprintf("(%[1]s == %[2]s || isNaN(%[1]s) && isNaN(%[2]s))", i, j)
 			},
 		},
 	}
@@ -84,10 +84,10 @@ func main() {
 	base.Path = "gen_ordereddesc.go"
 	base.Funcs = template.FuncMap{
 		"Less": func(i, j string) string {
-			return fmt.Sprintf("(%s > %s)", i, j)
+			return fmt.Sprintf("(%[1]s > %[2]s || isNaN(%[1]s) && !isNaN(%[2]s))", i, j)
 		},
 		"Equal": func(i, j string) string {
-			return fmt.Sprintf("%s == %s", i, j)
+			return fmt.Sprintf("(%[1]s == %[2]s || isNaN(%[1]s) && isNaN(%[2]s))", i, j)
 		},
 	}
 	generate(base)
diff --git a/gen_ordered.go b/gen_ordered.go
index 77828fe..3e2f2a8 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -84,7 +84,7 @@ func (s *OrderedMap[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orderedn
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key < key) {
+		for succ != nil && (succ.key < key || isNaN(succ.key) && !isNaN(key)) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -92,7 +92,7 @@ func (s *OrderedMap[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orderedn
 		succs[i] = succ
 
 		// Check if the key already in the skipmap.
-		if succ != nil && succ.key == key {
+		if succ != nil && (succ.key == key || isNaN(succ.key) && isNaN(key)) {
 			return succ
 		}
 	}
@@ -106,7 +106,7 @@ func (s *OrderedMap[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel]*or
 	lFound, x := -1, s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key < key) {
+		for succ != nil && (succ.key < key || isNaN(succ.key) && !isNaN(key)) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -114,7 +114,7 @@ func (s *OrderedMap[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel]*or
 		succs[i] = succ
 
 		// Check if the key already in the skip list.
-		if lFound == -1 && succ != nil && succ.key == key {
+		if lFound == -1 && succ != nil && (succ.key == key || isNaN(succ.key) && isNaN(key)) {
 			lFound = i
 		}
 	}
@@ -212,13 +212,13 @@ func (s *OrderedMap[keyT, valueT]) Load(key keyT) (value valueT, ok bool) {
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		nex := x.atomicLoadNext(i)
-		for nex != nil && (nex.key < key) {
+		for nex != nil && (nex.key < key || isNaN(nex.key) && !isNaN(key)) {
 			x = nex
 			nex = x.atomicLoadNext(i)
 		}
 
 		// Check if the key already in the skip list.
-		if nex != nil && nex.key == key {
+		if nex != nil && (nex.key == key || isNaN(nex.key) && isNaN(key)) {
 			if nex.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nex.loadVal(), true
 			}
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 3048eaf..7e34cac 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -84,7 +84,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orde
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key > key) {
+		for succ != nil && (succ.key > key || isNaN(succ.key) && !isNaN(key)) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -92,7 +92,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orde
 		succs[i] = succ
 
 		// Check if the key already in the skipmap.
-		if succ != nil && succ.key == key {
+		if succ != nil && (succ.key == key || isNaN(succ.key) && isNaN(key)) {
 			return succ
 		}
 	}
@@ -106,7 +106,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel
 	lFound, x := -1, s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key > key) {
+		for succ != nil && (succ.key > key || isNaN(succ.key) && !isNaN(key)) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -114,7 +114,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel
 		succs[i] = succ
 
 		// Check if the key already in the skip list.
-		if lFound == -1 && succ != nil && succ.key == key {
+		if lFound == -1 && succ != nil && (succ.key == key || isNaN(succ.key) && isNaN(key)) {
 			lFound = i
 		}
 	}
@@ -212,13 +212,13 @@ func (s *OrderedMapDesc[keyT, valueT]) Load(key keyT) (value valueT, ok bool) {
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		nex := x.atomicLoadNext(i)
-		for nex != nil && (nex.key > key) {
+		for nex != nil && (nex.key > key || isNaN(nex.key) && !isNaN(key)) {
 			x = nex
 			nex = x.atomicLoadNext(i)
 		}
 
 		// Check if the key already in the skip list.
-		if nex != nil && nex.key == key {
+		if nex != nil && (nex.key == key || isNaN(nex.key) && isNaN(key)) {
 			if nex.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nex.loadVal(), true
 			}
diff --git a/util.go b/util.go
index f6ce1a4..88cb0d2 100644
--- a/util.go
+++ b/util.go
@@ -29,3 +29,9 @@ type ordered interface {
 		~float32 | ~float64 | // float
 		~string
 }
+
+// isNaN reports whether x is a NaN, which orders before all other keys.
+// It is always false if keyT is not a float.
+func isNaN[keyT ordered](x keyT) bool {
+	return x != x
+}
-- 
2.43.0

