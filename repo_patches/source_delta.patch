From 1cf0e90035c8bc7982e9d2b8aebbaa6fd96f925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 01/95] fix: ContainsAll must find all elements of the argument
 in the receiver

---
 internal/array.go   | 3 ++-
 internal/ternary.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index db7cacb..c76cab8 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -977,7 +977,8 @@ func (v *array) deepContainsAll(seen []dgo.Value, other dgo.Iterable) bool {
 	// Keep track of elements that have been found equal using a copy
 	// where such elements are set to nil. This avoids excessive calls
 	// to Equals
-	for i := range vs {
+	a, vs = vs, util.SliceCopy(a) // all elements of other must be found in the receiver, not vice versa
+	for i := range a {
 		ea := a[i]
 		f := false
 		for j := range vs {
diff --git a/internal/ternary.go b/internal/ternary.go
index aeddc80..4785120 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -153,7 +153,7 @@ func (t *allOfValueType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	if ot, ok := other.(*allOfValueType); ok {
 		// Safe since explicit values only are assignable to themselves and excess elements
 		// in other only adds to the constraint
-		return (*array)(t).ContainsAll((*array)(ot))
+		return (*array)(ot).ContainsAll((*array)(t))
 	}
 	if ot, ok := other.(*allOfType); ok {
 		return lessRestrictive(guard, typeSlice(ts, valueAsType), typeSlice(ot.slice, typeAsType))
-- 
2.43.0


From 1087994de48d6a79fd163c9b38812e9514392f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 02/95] fix: Slice must not reveal unset positions beyond the
 end of the array

---
 internal/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index c76cab8..a0cfdb0 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1274,7 +1274,7 @@ func (v *array) Slice(i, j int) dgo.Array {
 	if v.frozen && i == 0 && j == len(v.slice) {
 		return v
 	}
-	ss := v.slice[i:j]
+	ss := v.slice[:len(v.slice):len(v.slice)][i:j] // never beyond the length, regardless of capacity
 	if !v.frozen {
 		// a copy is needed. Two non frozen arrays cannot share the same slice storage
 		ss = util.SliceCopy(ss)
-- 
2.43.0


From de415972f616d7d563131bdf9c856be9ee2a0f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 03/95] fix: arrays created by With and WithValues must not
 share storage with other arrays

---
 internal/array.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index a0cfdb0..ac8d0a6 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1424,7 +1424,7 @@ func (v *array) Pop() (dgo.Value, bool) {
 }
 
 func (v *array) With(vi interface{}) dgo.Array {
-	return &array{slice: append(v.slice, Value(vi)), frozen: v.frozen}
+	return v.WithValues(vi)
 }
 
 func (v *array) WithAll(values dgo.Iterable) dgo.Array {
@@ -1444,7 +1444,8 @@ func (v *array) WithValues(values ...interface{}) dgo.Array {
 	if len(values) == 0 {
 		return v
 	}
-	return &array{slice: append(v.slice, valueSlice(values, v.frozen)...), frozen: v.frozen}
+	vs := v.slice[:len(v.slice):len(v.slice)] // capacity is limited so that append makes a copy
+	return &array{slice: append(vs, valueSlice(values, v.frozen)...), frozen: v.frozen}
 }
 
 // ReplaceNil performs an in-place replacement of nil interfaces with the NilValue
-- 
2.43.0


From 04007cabf79cb75fd411d9902684882c044c2cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 04/95] fix: WithAll on a frozen array must not return an array
 with mutable elements

---
 internal/array.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index ac8d0a6..96c2a8c 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1436,7 +1436,10 @@ func (v *array) WithAll(values dgo.Iterable) dgo.Array {
 		values = values.FrozenCopy().(dgo.Iterable)
 	}
 	c.AddAll(values)
-	c.(*array).frozen = v.frozen
+	if v.frozen {
+		// the thawed copy also thawed nested collections
+		return c.FrozenCopy().(dgo.Array)
+	}
 	return c
 }
 
-- 
2.43.0


From f37e85b010732eba3fe7c82429d921679ed72e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 05/95] fix: collections derived from frozen collections must
 be frozen recursively

---
 internal/array.go | 3 +++
 internal/map.go   | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/internal/array.go b/internal/array.go
index 96c2a8c..98e4530 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1143,6 +1143,9 @@ func (v *array) Map(mapper dgo.Mapper) dgo.Array {
 	vs := make([]dgo.Value, len(a))
 	for i := range a {
 		vs[i] = Value(mapper(a[i]))
+		if v.frozen {
+			vs[i] = frozenCopy(vs[i])
+		}
 	}
 	return &array{slice: vs, frozen: v.frozen}
 }
diff --git a/internal/map.go b/internal/map.go
index 6bf7b22..5e944fa 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -577,6 +577,9 @@ func (g *hashMap) Map(mapper dgo.EntryMapper) dgo.Map {
 	g.resize(c, 0)
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
+		if g.frozen {
+			e.value = frozenCopy(e.value)
+		}
 	}
 	return c
 }
@@ -589,6 +592,9 @@ func (g *hashMap) Merge(associations dgo.Map) dgo.Map {
 	if l == 0 {
 		return associations
 	}
+	if g.frozen {
+		associations = associations.FrozenCopy().(dgo.Map)
+	}
 	c := &hashMap{len: l}
 	g.resize(c, l+associations.Len())
 	c.PutAll(associations)
@@ -798,6 +804,9 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 	var c *hashMap
 	key := Value(ki)
 	val := Value(vi)
+	if g.frozen {
+		val = frozenCopy(val)
+	}
 	if g.table == nil {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
-- 
2.43.0


From cfef142a89f11896a9712729b3dbee0e73d50cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 06/95] fix: ThawedCopy of a map entry must thaw the copy
 instead of the original

---
 internal/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 5e944fa..b7a8819 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -134,7 +134,7 @@ func (v *mapEntry) FrozenCopy() dgo.Value {
 func (v *mapEntry) ThawedCopy() dgo.Value {
 	c := &mapEntry{key: v.key, value: v.value}
 	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
+		c.value = f.ThawedCopy()
 	}
 	return c
 }
@@ -151,7 +151,7 @@ func (v *hashNode) FrozenCopy() dgo.Value {
 func (v *hashNode) ThawedCopy() dgo.Value {
 	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
 	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
+		c.value = f.ThawedCopy()
 	}
 	return c
 }
-- 
2.43.0


From c3992821c8cf8ea68aa0222e06e7cf9f9d2fb9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:05 +0000
Subject: [PATCH 07/95] fix: ToMap and ToMapFromEntries must produce maps with
 unique frozen keys that share no nodes

---
 internal/array.go | 38 +++++++-------------------------------
 1 file changed, 7 insertions(+), 31 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 98e4530..9008438 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1317,9 +1317,7 @@ func (v *array) ToMap() dgo.Map {
 	if top%2 != 0 {
 		ts++
 	}
-	tbl := make([]*hashNode, tableSizeFor(ts))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: ts, frozen: v.frozen}
+	m := &hashMap{table: make([]*hashNode, tableSizeFor(ts))}
 
 	for i := 0; i < top; {
 		mk := ms[i]
@@ -1329,25 +1327,16 @@ func (v *array) ToMap() dgo.Map {
 			mv = ms[i]
 			i++
 		}
-		hk := hl & hash(mk.HashCode())
-		nd := &hashNode{mapEntry: mapEntry{key: mk, value: mv}, hashNext: tbl[hk], prev: m.last}
-		if m.first == nil {
-			m.first = nd
-		} else {
-			m.last.next = nd
-		}
-		m.last = nd
-		tbl[hk] = nd
+		m.Put(mk, mv)
 	}
+	m.frozen = v.frozen
 	return m
 }
 
 func (v *array) ToMapFromEntries() (dgo.Map, bool) {
 	ms := v.slice
 	top := len(ms)
-	tbl := make([]*hashNode, tableSizeFor(top))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: top, frozen: v.frozen}
+	m := &hashMap{table: make([]*hashNode, tableSizeFor(top))}
 
 	for i := range ms {
 		nd, ok := ms[i].(*hashNode)
@@ -1358,24 +1347,11 @@ func (v *array) ToMapFromEntries() (dgo.Map, bool) {
 			} else {
 				return nil, false
 			}
-		} else if nd.hashNext != nil {
-			// Copy node, it belongs to another map
-			c := *nd
-			c.next = nil // this one might not get assigned below
-			nd = &c
-		}
-
-		hk := hl & hash(nd.key.HashCode())
-		nd.hashNext = tbl[hk]
-		nd.prev = m.last
-		if m.first == nil {
-			m.first = nd
-		} else {
-			m.last.next = nd
 		}
-		m.last = nd
-		tbl[hk] = nd
+		// Put creates a new node. The given node may belong to another map
+		m.Put(nd.key, nd.value)
 	}
+	m.frozen = v.frozen
 	return m, true
 }
 
-- 
2.43.0


From e5782e79134182cc1cd13377f4d87e1fc27c163d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 08/95] fix: ToMapFromEntries must accept all kinds of map
 entries

---
 internal/array.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 9008438..057ea57 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1339,7 +1339,7 @@ func (v *array) ToMapFromEntries() (dgo.Map, bool) {
 	m := &hashMap{table: make([]*hashNode, tableSizeFor(top))}
 
 	for i := range ms {
-		nd, ok := ms[i].(*hashNode)
+		nd, ok := ms[i].(dgo.MapEntry)
 		if !ok {
 			var ea *array
 			if ea, ok = ms[i].(*array); ok && len(ea.slice) == 2 {
@@ -1349,7 +1349,7 @@ func (v *array) ToMapFromEntries() (dgo.Map, bool) {
 			}
 		}
 		// Put creates a new node. The given node may belong to another map
-		m.Put(nd.key, nd.value)
+		m.Put(nd.Key(), nd.Value())
 	}
 	m.frozen = v.frozen
 	return m, true
-- 
2.43.0


From 15b3aba7d65bfcbf7ec5996c0c56e9eb03ae8eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:45 +0000
Subject: [PATCH 09/95] fix: Map.With must add an association that has a nil
 value

---
 internal/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index b7a8819..42b5859 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -810,7 +810,7 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 	if g.table == nil {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
-		if val.Equals(g.Get(key)) {
+		if old := g.Get(key); old != nil && val.Equals(old) {
 			return g
 		}
 		c = &hashMap{len: g.len}
-- 
2.43.0


From a09f7b1ea404b3b1c0673f5e4e106e5bb59e0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 10/95] fix: a mutable collection must not be returned where a
 new collection is expected

---
 internal/array.go | 12 ++++++------
 internal/map.go   | 15 +++++++++------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 057ea57..5125e9a 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1041,7 +1041,7 @@ func (v *array) Flatten() dgo.Array {
 			return &array{slice: flattenElements(a[i:], fs), frozen: v.frozen}
 		}
 	}
-	return v
+	return v.Slice(0, len(a)) // a mutable array cannot be returned since it would be shared
 }
 
 func flattenElements(elements, receiver []dgo.Value) []dgo.Value {
@@ -1288,7 +1288,7 @@ func (v *array) Slice(i, j int) dgo.Array {
 func (v *array) Sort() dgo.Array {
 	sa := v.slice
 	if len(sa) < 2 {
-		return v
+		return v.Slice(0, len(sa))
 	}
 	sorted := util.SliceCopy(sa)
 	sort.SliceStable(sorted, func(i, j int) bool {
@@ -1365,7 +1365,7 @@ func (v *array) Unique() dgo.Array {
 	a := v.slice
 	top := len(a)
 	if top < 2 {
-		return v
+		return v.Slice(0, top)
 	}
 	tbl := make([]*hashNode, tableSizeFor(int(float64(top)/loadFactor)))
 	hl := len(tbl) - 1
@@ -1386,7 +1386,7 @@ nextVal:
 		ui++
 	}
 	if ui == top {
-		return v
+		return v.Slice(0, top)
 	}
 	return &array{slice: u[:ui], frozen: v.frozen}
 }
@@ -1407,7 +1407,7 @@ func (v *array) With(vi interface{}) dgo.Array {
 }
 
 func (v *array) WithAll(values dgo.Iterable) dgo.Array {
-	if values.Len() == 0 {
+	if values.Len() == 0 && v.frozen {
 		return v
 	}
 	c := v.Copy(false)
@@ -1424,7 +1424,7 @@ func (v *array) WithAll(values dgo.Iterable) dgo.Array {
 
 func (v *array) WithValues(values ...interface{}) dgo.Array {
 	if len(values) == 0 {
-		return v
+		return v.Slice(0, len(v.slice))
 	}
 	vs := v.slice[:len(v.slice):len(v.slice)] // capacity is limited so that append makes a copy
 	return &array{slice: append(vs, valueSlice(values, v.frozen)...), frozen: v.frozen}
diff --git a/internal/map.go b/internal/map.go
index 42b5859..48bb899 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -585,11 +585,14 @@ func (g *hashMap) Map(mapper dgo.EntryMapper) dgo.Map {
 }
 
 func (g *hashMap) Merge(associations dgo.Map) dgo.Map {
-	if associations.Len() == 0 || g == associations {
+	if g.frozen && (associations.Len() == 0 || g == associations) {
 		return g
 	}
 	l := g.len
-	if l == 0 {
+	if l == 0 && g.frozen {
+		if am, ok := associations.(*hashMap); ok {
+			return am.Copy(true)
+		}
 		return associations
 	}
 	if g.frozen {
@@ -810,7 +813,7 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 	if g.table == nil {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
-		if old := g.Get(key); old != nil && val.Equals(old) {
+		if old := g.Get(key); old != nil && g.frozen && val.Equals(old) {
 			return g
 		}
 		c = &hashMap{len: g.len}
@@ -823,7 +826,7 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 
 func (g *hashMap) Without(ki interface{}) dgo.Map {
 	key := Value(ki)
-	if g.Get(key) == nil {
+	if g.frozen && g.Get(key) == nil {
 		return g
 	}
 	c := &hashMap{len: g.len}
@@ -834,13 +837,13 @@ func (g *hashMap) Without(ki interface{}) dgo.Map {
 }
 
 func (g *hashMap) WithoutAll(keys dgo.Array) dgo.Map {
-	if g.len == 0 || keys.Len() == 0 {
+	if g.frozen && (g.len == 0 || keys.Len() == 0) {
 		return g
 	}
 	c := &hashMap{len: g.len}
 	g.resize(c, 0)
 	c.RemoveAll(keys)
-	if g.len == c.len {
+	if g.frozen && g.len == c.len {
 		return g
 	}
 	c.frozen = g.frozen
-- 
2.43.0


From c4ffd57a8b5d68ab4b7fdd47b2864a39391326a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 11/95] fix: maps created from Go maps must have frozen keys,
 and frozen values when the map is frozen

---
 internal/map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 48bb899..ced2f53 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -291,7 +291,10 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 	se := make([][2]dgo.Value, len(keys))
 	for i := range keys {
 		key := keys[i]
-		se[i] = [2]dgo.Value{ValueFromReflected(key), ValueFromReflected(rm.MapIndex(key))}
+		se[i] = [2]dgo.Value{frozenCopy(ValueFromReflected(key)), ValueFromReflected(rm.MapIndex(key))}
+		if frozen {
+			se[i][1] = frozenCopy(se[i][1])
+		}
 	}
 
 	// Sort by key to always get predictable order
-- 
2.43.0


From dd2f705876c54e15bf9df2d97ea53ec980bafc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 12/95] fix: With, Merge and PutAll must not double the size of
 the hash table on each call

---
 internal/map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index ced2f53..080d28c 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -602,7 +602,7 @@ func (g *hashMap) Merge(associations dgo.Map) dgo.Map {
 		associations = associations.FrozenCopy().(dgo.Map)
 	}
 	c := &hashMap{len: l}
-	g.resize(c, l+associations.Len())
+	g.resize(c, 0) // PutAll grows the table when needed
 	c.PutAll(associations)
 	c.frozen = g.frozen
 	return c
@@ -659,7 +659,7 @@ func (g *hashMap) PutAll(associations dgo.Map) {
 	}
 
 	l := g.len
-	if float64(l+al) > float64(l)*loadFactor {
+	if float64(l+al) > float64(len(g.table))*loadFactor {
 		g.resize(g, al)
 	}
 	tbl := g.table
@@ -820,7 +820,7 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 			return g
 		}
 		c = &hashMap{len: g.len}
-		g.resize(c, 1)
+		g.resize(c, 0) // Put grows the table when needed
 	}
 	c.Put(key, val)
 	c.frozen = g.frozen
-- 
2.43.0


From 0813876159cbc9b3d9de6e3d768057275b88e509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 13/95] fix: Go map keys that are equal once converted must
 give one association

---
 internal/map.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 080d28c..301872d 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -287,7 +287,6 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 		ic = initialCapacity
 	}
 	tbl := make([]*hashNode, tableSizeFor(int(float64(ic)/loadFactor)))
-	hl := len(tbl) - 1
 	se := make([][2]dgo.Value, len(keys))
 	for i := range keys {
 		key := keys[i]
@@ -309,20 +308,11 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 		return less
 	})
 
-	m := &hashMap{table: tbl, len: top, frozen: frozen}
+	m := &hashMap{table: tbl}
 	for i := range se {
-		e := se[i]
-		k := e[0]
-		hk := hl & hash(k.HashCode())
-		hn := &hashNode{mapEntry: mapEntry{key: k, value: e[1]}, hashNext: tbl[hk], prev: m.last}
-		if m.last == nil {
-			m.first = hn
-		} else {
-			m.last.next = hn
-		}
-		m.last = hn
-		tbl[hk] = hn
+		m.Put(se[i][0], se[i][1]) // different Go keys may be equal once converted
 	}
+	m.frozen = frozen
 	return m
 }
 
-- 
2.43.0


From c3b1b5cd7bd24fa181d29459d704fd59c583f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 14/95] fix: a string or error must not hand out a pointer to
 its internals, and a map entry must not become its own value

---
 internal/error.go  | 3 ++-
 internal/map.go    | 3 ++-
 internal/string.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/error.go b/internal/error.go
index 66d5944..e051cd0 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -106,7 +106,8 @@ func (e *errw) Error() string {
 
 func (e *errw) ReflectTo(value reflect.Value) {
 	if value.Kind() == reflect.Ptr {
-		value.Set(reflect.ValueOf(&e.error))
+		err := e.error // never expose a pointer to the internal error
+		value.Set(reflect.ValueOf(&err))
 	} else {
 		value.Set(reflect.ValueOf(e.error))
 	}
diff --git a/internal/map.go b/internal/map.go
index 301872d..6d02aa8 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -569,7 +569,8 @@ func (g *hashMap) Map(mapper dgo.EntryMapper) dgo.Map {
 	c := &hashMap{len: g.len, frozen: g.frozen}
 	g.resize(c, 0)
 	for e := c.first; e != nil; e = e.next {
-		e.value = Value(mapper(e))
+		// the mapper must not see the new node. If it did, then the node could become its own value
+		e.value = Value(mapper(&mapEntry{key: e.key, value: e.value}))
 		if g.frozen {
 			e.value = frozenCopy(e.value)
 		}
diff --git a/internal/string.go b/internal/string.go
index f6cd983..2d3c79e 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -600,7 +600,8 @@ func (v *hstring) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(v.s))
 	case reflect.Ptr:
-		value.Set(reflect.ValueOf(&v.s))
+		s := v.s // never expose a pointer to the internal string
+		value.Set(reflect.ValueOf(&s))
 	default:
 		value.SetString(v.s)
 	}
-- 
2.43.0


From 947ddcc67c206da5c0489ea95d2331f9f8b18a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 15/95] fix: a frozen copy of a map entry must not follow the
 mutable map that the entry belongs to

---
 internal/array.go |  4 +---
 internal/map.go   | 37 ++++++++++++++++++++++++++++---------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 5125e9a..59df5c0 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1063,9 +1063,7 @@ func (v *array) Freeze() {
 	v.frozen = true
 	a := v.slice
 	for i := range a {
-		if f, ok := a[i].(dgo.Freezable); ok {
-			f.Freeze()
-		}
+		a[i] = freezeElement(a[i])
 	}
 }
 
diff --git a/internal/map.go b/internal/map.go
index 6d02aa8..d13aeed 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -45,6 +45,7 @@ type (
 
 	hashNode struct {
 		mapEntry
+		owner    *hashMap // the map that the node belongs to, nil when detached
 		hashNext *hashNode
 		next     *hashNode
 		prev     *hashNode
@@ -139,23 +140,41 @@ func (v *mapEntry) ThawedCopy() dgo.Value {
 	return c
 }
 
+// Frozen returns false as long as the node belongs to a mutable map. The map may replace the value.
+func (v *hashNode) Frozen() bool {
+	return (v.owner == nil || v.owner.frozen) && v.mapEntry.Frozen()
+}
+
 func (v *hashNode) FrozenCopy() dgo.Value {
 	if v.Frozen() {
 		return v
 	}
-	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
+	c := v.detached()
 	c.copyFreeze()
 	return c
 }
 
 func (v *hashNode) ThawedCopy() dgo.Value {
-	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		c.value = f.ThawedCopy()
-	}
+	c := v.detached()
+	c.copyThaw()
 	return c
 }
 
+func (v *hashNode) detached() *hashNode {
+	return &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
+}
+
+// freezeElement freezes an element of an array or map that is frozen in place and returns the element to retain
+func freezeElement(e dgo.Value) dgo.Value {
+	if n, ok := e.(*hashNode); ok {
+		e = n.detached() // the map that the node belongs to remains mutable
+	}
+	if f, ok := e.(dgo.Freezable); ok {
+		f.Freeze()
+	}
+	return e
+}
+
 func (v *mapEntry) Key() dgo.Value {
 	return v.key
 }
@@ -481,7 +500,7 @@ func (g *hashMap) Freeze() {
 	if !g.frozen {
 		g.frozen = true
 		for e := g.first; e != nil; e = e.next {
-			e.Freeze()
+			e.value = freezeElement(e.value)
 		}
 	}
 }
@@ -628,7 +647,7 @@ func (g *hashMap) Put(ki, vi interface{}) dgo.Value {
 		hk = (len(tbl) - 1) & hs
 	}
 
-	nd := &hashNode{mapEntry: mapEntry{key: frozenCopy(k), value: v}, hashNext: tbl[hk], prev: g.last}
+	nd := &hashNode{mapEntry: mapEntry{key: frozenCopy(k), value: v}, owner: g, hashNext: tbl[hk], prev: g.last}
 	if g.first == nil {
 		g.first = nd
 	} else {
@@ -665,7 +684,7 @@ func (g *hashMap) PutAll(associations dgo.Map) {
 				return
 			}
 		}
-		nd := &hashNode{mapEntry: mapEntry{key: frozenCopy(key), value: val}, hashNext: tbl[hk], prev: g.last}
+		nd := &hashNode{mapEntry: mapEntry{key: frozenCopy(key), value: val}, owner: g, hashNext: tbl[hk], prev: g.last}
 		if g.first == nil {
 			g.first = nd
 		} else {
@@ -873,7 +892,7 @@ func (g *hashMap) resize(c *hashMap, capInc int) {
 	var prev *hashNode
 	for oe := g.first; oe != nil; oe = oe.next {
 		hk := tl & hash(oe.key.HashCode())
-		ne := &hashNode{mapEntry: mapEntry{key: oe.key, value: oe.value}, hashNext: nt[hk]}
+		ne := &hashNode{mapEntry: mapEntry{key: oe.key, value: oe.value}, owner: c, hashNext: nt[hk]}
 		if prev == nil {
 			c.first = ne
 		} else {
-- 
2.43.0


From 8afbc7e33e27c03ef873ee4dd7b93f276c1ccd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 16/95] fix: tuples and struct maps must accept nil and Go
 function types as element types

---
 internal/array.go     | 4 ++--
 internal/exact.go     | 7 +++++++
 internal/mapstruct.go | 6 +++---
 internal/nil.go       | 4 ++++
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 59df5c0..ca5b8f0 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -120,7 +120,7 @@ func newArrayType(elementType dgo.Type, min, max int) dgo.ArrayType {
 		// Unbounded
 		return DefaultArrayType
 	}
-	if min == 1 && min == max && dgo.IsExact(elementType) {
+	if min == 1 && min == max && isExact(elementType) {
 		return (&array{slice: []dgo.Value{elementType.(dgo.ExactType).ExactValue()}, frozen: true}).Type().(dgo.ArrayType)
 	}
 	return &sizedArrayType{elementType: elementType, min: min, max: max}
@@ -382,7 +382,7 @@ func newTupleType(types []interface{}, variadic bool) dgo.TupleType {
 	es := make([]dgo.Value, l)
 	for i := 0; i < l; i++ {
 		et := types[i].(dgo.Type)
-		if exact && !dgo.IsExact(et) {
+		if exact && !isExact(et) {
 			exact = false
 		}
 		es[i] = et
diff --git a/internal/exact.go b/internal/exact.go
index b635dac..b80938a 100644
--- a/internal/exact.go
+++ b/internal/exact.go
@@ -12,6 +12,13 @@ type deepExactType struct {
 	exactType
 }
 
+// isExact returns true if the given type is exact and can provide its exact value. This is not true for the type of a
+// Go function since that type represents all functions that have the same signature.
+func isExact(t dgo.Type) bool {
+	_, ok := t.(dgo.ExactType)
+	return ok && dgo.IsExact(t)
+}
+
 func (t *exactType) Assignable(other dgo.Type) bool {
 	return t.Equals(other) || CheckAssignableTo(nil, other, t.ExactType)
 }
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index ccee25b..be0d66a 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -37,7 +37,7 @@ func StructMapTypeUnresolved(additional bool, entries []dgo.StructMapEntry) dgo.
 		e := entries[i]
 		kt := e.Key().(dgo.Type)
 		vt := e.Value().(dgo.Type)
-		if exact && !(e.Required() && dgo.IsExact(kt) && dgo.IsExact(vt)) {
+		if exact && !(e.Required() && isExact(kt) && isExact(vt)) {
 			exact = false
 		}
 		keys[i] = kt
@@ -125,7 +125,7 @@ func StructMapTypeFromMap(additional bool, entries dgo.Map) dgo.StructMapType {
 		} else {
 			vt = asType(e.Value())
 		}
-		if exact && !(rq && dgo.IsExact(kt) && dgo.IsExact(vt)) {
+		if exact && !(rq && isExact(kt) && isExact(vt)) {
 			exact = false
 		}
 		keys[i] = kt
@@ -151,7 +151,7 @@ func StructMapTypeFromMap(additional bool, entries dgo.Map) dgo.StructMapType {
 func (t *structType) checkExactKeys() {
 	ks := t.keys.slice
 	for i := range ks {
-		if !dgo.IsExact(ks[i].(dgo.Type)) {
+		if !isExact(ks[i].(dgo.Type)) {
 			panic(`non exact key types is not yet supported`)
 		}
 	}
diff --git a/internal/nil.go b/internal/nil.go
index 41635ca..6e51a74 100644
--- a/internal/nil.go
+++ b/internal/nil.go
@@ -63,6 +63,10 @@ func (t nilType) Equals(v interface{}) bool {
 	return t == v
 }
 
+func (t nilType) ExactValue() dgo.Value {
+	return Nil
+}
+
 func (t nilType) HashCode() int {
 	return int(1 + dgo.TiNil)
 }
-- 
2.43.0


From 697d5ece74c2ca55af57f2770ca2454999f386a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:49 +0000
Subject: [PATCH 17/95] fix: the recursion guard must keep track of pairs and
 be passed on to all nested checks

---
 internal/array.go   |  2 +-
 internal/compare.go | 39 +++++++++++++++++++--------------------
 internal/map.go     |  2 +-
 internal/type.go    |  3 ---
 4 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index ca5b8f0..f03cc71 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -192,7 +192,7 @@ func (t *sizedArrayType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	case defaultArrayType:
 		return false // lacks size
 	case dgo.ArrayType:
-		return t.min <= ot.Min() && ot.Max() <= t.max && t.elementType.Assignable(ot.ElementType())
+		return t.min <= ot.Min() && ot.Max() <= t.max && Assignable(guard, t.elementType, ot.ElementType())
 	}
 	return CheckAssignableTo(guard, other, t)
 }
diff --git a/internal/compare.go b/internal/compare.go
index fc6b237..9e29871 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -12,36 +12,35 @@ type deepEqual interface {
 	deepHashCode(seen []dgo.Value) int
 }
 
+// doubleSeen is a guard that keeps track of the pairs that are currently being compared
 type doubleSeen struct {
-	aSeen   []dgo.Value
-	bSeen   []dgo.Value
-	seenInA bool
-	seenInB bool
+	seen [][2]dgo.Value
+	hit  bool
 }
 
 func (s *doubleSeen) Hit() bool {
-	return s.seenInA && s.seenInB
+	return s.hit
 }
 
 func (s *doubleSeen) Append(a, b dgo.Value) dgo.RecursionGuard {
-	if !s.seenInA {
-		s.seenInA = util.RecursionHit(s.aSeen, a)
-	}
-	if !s.seenInB {
-		s.seenInB = util.RecursionHit(s.bSeen, b)
-	}
-	c := *s
-	if !c.seenInA {
-		c.aSeen = append(c.aSeen, a)
+	if a == b {
+		return &doubleSeen{seen: s.seen, hit: true}
 	}
-	if !c.seenInB {
-		c.bSeen = append(c.bSeen, b)
+	for i := range s.seen {
+		if p := &s.seen[i]; p[0] == a && p[1] == b {
+			return &doubleSeen{seen: s.seen, hit: true}
+		}
 	}
-	return &c
+	l := len(s.seen)
+	return &doubleSeen{seen: append(s.seen[:l:l], [2]dgo.Value{a, b})}
 }
 
 func (s *doubleSeen) Swap() dgo.RecursionGuard {
-	return &doubleSeen{seenInA: s.seenInB, seenInB: s.seenInA, aSeen: s.bSeen, bSeen: s.aSeen}
+	seen := make([][2]dgo.Value, len(s.seen))
+	for i := range seen {
+		seen[i] = [2]dgo.Value{s.seen[i][1], s.seen[i][0]}
+	}
+	return &doubleSeen{seen: seen, hit: s.hit}
 }
 
 type deepCompare interface {
@@ -62,7 +61,7 @@ func Assignable(guard dgo.RecursionGuard, a dgo.Type, b dgo.Type) bool {
 	_, ok = b.(dgo.DeepAssignable)
 	if ok {
 		if guard == nil {
-			guard = &doubleSeen{aSeen: []dgo.Value{a}, bSeen: []dgo.Value{b}}
+			guard = &doubleSeen{seen: [][2]dgo.Value{{a, b}}}
 		} else {
 			guard = guard.Append(a, b)
 			if guard.Hit() {
@@ -84,7 +83,7 @@ func Instance(guard dgo.RecursionGuard, a dgo.Type, b interface{}) bool {
 	if ok {
 		bv := b.(dgo.Value)
 		if guard == nil {
-			guard = &doubleSeen{aSeen: []dgo.Value{a}, bSeen: []dgo.Value{bv}}
+			guard = &doubleSeen{seen: [][2]dgo.Value{{a, bv}}}
 		} else {
 			guard = guard.Append(a, bv)
 			if guard.Hit() {
diff --git a/internal/map.go b/internal/map.go
index d13aeed..d8616e8 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1106,7 +1106,7 @@ func (t *sizedMapType) DeepInstance(guard dgo.RecursionGuard, value interface{})
 				return ov.AllValues(func(v dgo.Value) bool { return Instance(guard, vt, v) })
 			}
 			if DefaultAnyType == vt {
-				return ov.AllKeys(func(k dgo.Value) bool { return kt.Instance(k) })
+				return ov.AllKeys(func(k dgo.Value) bool { return Instance(guard, kt, k) })
 			}
 			return ov.All(func(e dgo.MapEntry) bool { return Instance(guard, kt, e.Key()) && Instance(guard, vt, e.Value()) })
 		}
diff --git a/internal/type.go b/internal/type.go
index 07085ac..e108ebb 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -14,9 +14,6 @@ import (
 // argument. Otherwise, this goFunc returns false
 func CheckAssignableTo(guard dgo.RecursionGuard, t, other dgo.Type) bool {
 	if lt, ok := t.(dgo.ReverseAssignable); ok {
-		if guard != nil {
-			guard = guard.Swap()
-		}
 		return lt.AssignableTo(guard, other)
 	}
 	return false
-- 
2.43.0


From 50f85c24204027aae904fd6c3d9cb78dbf0abe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 18/95] fix: equality and comparison of self-referencing values
 must detect recursion per pair of values

---
 internal/compare.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/internal/compare.go b/internal/compare.go
index 9e29871..e8b2378 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -94,6 +94,16 @@ func Instance(guard dgo.RecursionGuard, a dgo.Type, b interface{}) bool {
 	return da.DeepInstance(guard, b)
 }
 
+// pairHit returns true if the given pair is found in a slice that consists of pairs
+func pairHit(seen []dgo.Value, a, b dgo.Value) bool {
+	for i := 0; i < len(seen); i += 2 {
+		if seen[i] == a && seen[i+1] == b {
+			return true
+		}
+	}
+	return false
+}
+
 func deepHashCode(seen []dgo.Value, e dgo.Value) int {
 	if de, ok := e.(deepEqual); ok {
 		if util.RecursionHit(seen, e) {
@@ -105,7 +115,7 @@ func deepHashCode(seen []dgo.Value, e dgo.Value) int {
 }
 
 // equals performs a deep equality comparison of a and b using the Value.Equals method. The given seen slice
-// is used to prevent endless recursion. The rationale using a slice rather than a map for this is that the
+// contains the pairs that are being compared and is used to prevent endless recursion. The rationale using a slice rather than a map for this is that the
 // depth is typically very limited. The seen slice should be nil at the point where the comparison starts.
 func equals(seen []dgo.Value, a dgo.Value, b interface{}) bool {
 	if a == b {
@@ -118,16 +128,17 @@ func equals(seen []dgo.Value, a dgo.Value, b interface{}) bool {
 	if !ok {
 		return a.Equals(b)
 	}
-	if util.RecursionHit(seen, a) {
-		// Recursion, so assume true
-		return true
-	}
 	db, ok := Value(b).(deepEqual)
 	if !ok {
 		// Must be false since only one implements deepEqual
 		return false
 	}
-	return da.deepEqual(append(seen, a), db)
+	bv := db.(dgo.Value)
+	if pairHit(seen, a, bv) {
+		// Recursion, so assume true
+		return true
+	}
+	return da.deepEqual(append(seen, a, bv), db)
 }
 
 func sliceEquals(seen []dgo.Value, a, b []dgo.Value) bool {
@@ -166,9 +177,9 @@ func compare(seen []dgo.Value, a dgo.Value, b dgo.Value) (int, bool) {
 		return 0, false
 	}
 
-	if util.RecursionHit(seen, a) {
+	if pairHit(seen, a, b) {
 		// Recursion, so assume equal
 		return 0, true
 	}
-	return da.deepCompare(append(seen, a), db)
+	return da.deepCompare(append(seen, a, b), db)
 }
-- 
2.43.0


From 9d4edb1829bc7c61297d1f8bea14bdb6a6df433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 19/95] fix: assignability of array, tuple, map and struct map
 types must consider each element, the remaining elements, and additional keys

---
 internal/array.go     | 21 +++++++++++++++++++++
 internal/map.go       | 20 ++++++++++++++++++--
 internal/mapstruct.go |  7 +++----
 3 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index f03cc71..467d1ef 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -191,6 +191,22 @@ func (t *sizedArrayType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	switch ot := other.(type) {
 	case defaultArrayType:
 		return false // lacks size
+	case *exactArrayType:
+		if et, ok := t.elementType.(*allOfValueType); ok {
+			// element type of an exact array
+			return t.min <= ot.Min() && ot.Max() <= t.max && Assignable(guard, et, ot.ElementType())
+		}
+		return Instance(guard, t, ot.value)
+	case dgo.TupleType:
+		if t.min > ot.Min() || ot.Max() > t.max {
+			return false
+		}
+		for i := 0; i < ot.Len(); i++ {
+			if !Assignable(guard, t.elementType, ot.Element(i)) {
+				return false
+			}
+		}
+		return true
 	case dgo.ArrayType:
 		return t.min <= ot.Min() && ot.Max() <= t.max && Assignable(guard, t.elementType, ot.ElementType())
 	}
@@ -427,6 +443,11 @@ func tupleAssignableTuple(guard dgo.RecursionGuard, t, ot dgo.TupleType) bool {
 		n = on
 	}
 
+	if tv != nil && ov != nil {
+		// the remaining elements must match too
+		n++
+	}
+
 	for i := 0; i < n; i++ {
 		te := tv
 		if i < tn {
diff --git a/internal/map.go b/internal/map.go
index d8616e8..2b8926d 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1050,7 +1050,23 @@ func (t *sizedMapType) Assignable(other dgo.Type) bool {
 }
 
 func (t *sizedMapType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
-	if ot, ok := other.(dgo.MapType); ok {
+	switch ot := other.(type) {
+	case *exactMapType:
+		return Instance(guard, t, ot.value)
+	case *structType:
+		if t.min > ot.Min() || ot.Max() > t.max {
+			return false
+		}
+		if ot.additional && !(Assignable(guard, t.keyType, DefaultAnyType) && Assignable(guard, t.valueType, DefaultAnyType)) {
+			return false
+		}
+		for i := range ot.required {
+			if !(Assignable(guard, t.keyType, ot.keys.slice[i].(dgo.Type)) && Assignable(guard, t.valueType, ot.values.slice[i].(dgo.Type))) {
+				return false
+			}
+		}
+		return true
+	case dgo.MapType:
 		return t.min <= ot.Min() && ot.Max() <= t.max &&
 			Assignable(guard, t.keyType, ot.KeyType()) && Assignable(guard, t.valueType, ot.ValueType())
 	}
@@ -1170,7 +1186,7 @@ const DefaultMapType = defaultMapType(0)
 
 func (t defaultMapType) Assignable(other dgo.Type) bool {
 	switch other.(type) {
-	case defaultMapType, *sizedMapType, *exactMapType:
+	case defaultMapType, *sizedMapType, *exactMapType, *structType:
 		return true
 	}
 	return CheckAssignableTo(nil, other, t)
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index be0d66a..5adb14c 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -197,7 +197,7 @@ func (t *structType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bo
 				return false
 			}
 		}
-		return t.additional || oc == len(oks)
+		return t.additional || !ot.additional && oc == len(oks)
 	case *exactMapType:
 		ov := ot.value
 		return Instance(guard, t, ov)
@@ -298,11 +298,10 @@ func (t *structType) Len() int {
 }
 
 func (t *structType) Max() int {
-	m := len(t.required)
-	if m == 0 || t.additional {
+	if t.additional {
 		return math.MaxInt64
 	}
-	return m
+	return len(t.required)
 }
 
 func (t *structType) Min() int {
-- 
2.43.0


From b97bbbf086ca6254088f229546ca40880193034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:50 +0000
Subject: [PATCH 20/95] fix: negated and exclusive types must not be assignable
 from types that share some values only

---
 internal/not.go     |  2 +-
 internal/ternary.go | 14 ++++++---
 internal/type.go    | 74 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 84 insertions(+), 6 deletions(-)

diff --git a/internal/not.go b/internal/not.go
index 2d0cae2..46f76a7 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -67,7 +67,7 @@ func (t *notType) Assignable(other dgo.Type) bool {
 		}
 		return f
 	default:
-		return !t.negated.Assignable(other)
+		return disjoint(t.negated, other)
 	}
 }
 
diff --git a/internal/ternary.go b/internal/ternary.go
index 4785120..315ed83 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -383,14 +383,18 @@ func (t *oneOfType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) boo
 		_, ok := other.(*oneOfType)
 		return ok
 	}
+	if t.Equals(other) {
+		return true
+	}
 	found := false
 	for i := range ts {
-		if Assignable(guard, ts[i].(dgo.Type), other) {
-			if found {
-				found = false
-				break
-			}
+		tt := ts[i].(dgo.Type)
+		if !found && Assignable(guard, tt, other) {
 			found = true
+		} else if !disjoint(tt, other) {
+			// some instances of other may be an instance of none, or more than one, of the types
+			found = false
+			break
 		}
 	}
 	if !found {
diff --git a/internal/type.go b/internal/type.go
index e108ebb..2ad6111 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -134,3 +134,77 @@ var ParseFile func(am dgo.AliasAdder, fileName, content string) dgo.Value
 
 // TypeString produces the string that represents the given type
 var TypeString func(dgo.Type) string
+
+// disjoint returns true if no value can be an instance of both types. A false return means that this isn't known.
+func disjoint(a, b dgo.Type) bool {
+	all := func(ts []dgo.Value, o dgo.Type) bool {
+		for i := range ts {
+			if !disjoint(ts[i].(dgo.Type), o) {
+				return false
+			}
+		}
+		return true
+	}
+
+	for i := 0; i < 2; i++ {
+		switch at := a.(type) {
+		case *anyOfType:
+			return all(at.slice, b)
+		case *oneOfType:
+			return all(at.slice, b)
+		case *allOfType:
+			for i := range at.slice {
+				if disjoint(at.slice[i].(dgo.Type), b) {
+					return true
+				}
+			}
+			return false
+		case *notType:
+			return at.negated.Assignable(b)
+		}
+		a, b = b, a
+	}
+
+	switch {
+	case isExact(a):
+		return !b.Instance(a.(dgo.ExactType).ExactValue())
+	case isExact(b):
+		return !a.Instance(b.(dgo.ExactType).ExactValue())
+	}
+	if at, ok := a.(dgo.IntegerType); ok {
+		if bt, ok := b.(dgo.IntegerType); ok {
+			return at.Min() > bt.Max() || bt.Min() > at.Max()
+		}
+	}
+	at := exclusiveKind(a.TypeIdentifier())
+	bt := exclusiveKind(b.TypeIdentifier())
+	return at != bt && at != dgo.TiAny && bt != dgo.TiAny
+}
+
+// exclusiveKind maps the identifiers of types that describe the same kind of values to the same identifier. Identifiers
+// of types that may share values with types of another kind are mapped to dgo.TiAny
+func exclusiveKind(ti dgo.TypeIdentifier) dgo.TypeIdentifier {
+	switch ti {
+	case dgo.TiArray, dgo.TiArrayExact, dgo.TiTuple:
+		return dgo.TiArray
+	case dgo.TiBinary, dgo.TiBinaryExact:
+		return dgo.TiBinary
+	case dgo.TiBoolean, dgo.TiBooleanExact:
+		return dgo.TiBoolean
+	case dgo.TiFloat, dgo.TiFloatExact, dgo.TiFloatRange:
+		return dgo.TiFloat
+	case dgo.TiInteger, dgo.TiIntegerExact, dgo.TiIntegerRange:
+		return dgo.TiInteger
+	case dgo.TiMap, dgo.TiMapExact, dgo.TiStruct:
+		return dgo.TiMap
+	case dgo.TiNil:
+		return dgo.TiNil
+	case dgo.TiRegexp, dgo.TiRegexpExact:
+		return dgo.TiRegexp
+	case dgo.TiString, dgo.TiStringExact, dgo.TiStringSized, dgo.TiStringPattern, dgo.TiCiString, dgo.TiDgoString:
+		return dgo.TiString
+	case dgo.TiTime, dgo.TiTimeExact:
+		return dgo.TiTime
+	}
+	return dgo.TiAny
+}
-- 
2.43.0


From 7e7e9fae280fce4d67cf2a20a9b1d6d32f8ed050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 21/95] fix: an array type of bounded length must only be
 checked for the elements that it can have

---
 internal/array.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 467d1ef..f2cd5c6 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -208,7 +208,7 @@ func (t *sizedArrayType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 		}
 		return true
 	case dgo.ArrayType:
-		return t.min <= ot.Min() && ot.Max() <= t.max && Assignable(guard, t.elementType, ot.ElementType())
+		return t.min <= ot.Min() && ot.Max() <= t.max && (ot.Max() == 0 || Assignable(guard, t.elementType, ot.ElementType()))
 	}
 	return CheckAssignableTo(guard, other, t)
 }
@@ -472,12 +472,12 @@ func tupleAssignableArray(guard dgo.RecursionGuard, t dgo.TupleType, ot *sizedAr
 		if t.Variadic() {
 			n--
 		}
-		for i := 0; i < n; i++ {
+		for i := 0; i < n && i < ot.Max(); i++ {
 			if !Assignable(guard, t.Element(i), et) {
 				return false
 			}
 		}
-		return !t.Variadic() || Assignable(guard, t.Element(n), et)
+		return !t.Variadic() || ot.Max() <= n || Assignable(guard, t.Element(n), et)
 	}
 	return false
 }
-- 
2.43.0


From d5d5d0e99fcdfc6294c16677a53f03877d652a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:04 +0000
Subject: [PATCH 22/95] fix: an exact type is disjoint from a type that its
 value isn't an instance of

---
 internal/type.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/type.go b/internal/type.go
index 2ad6111..5d49bb7 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -137,6 +137,13 @@ var TypeString func(dgo.Type) string
 
 // disjoint returns true if no value can be an instance of both types. A false return means that this isn't known.
 func disjoint(a, b dgo.Type) bool {
+	switch {
+	case isExact(a):
+		return !b.Instance(a.(dgo.ExactType).ExactValue())
+	case isExact(b):
+		return !a.Instance(b.(dgo.ExactType).ExactValue())
+	}
+
 	all := func(ts []dgo.Value, o dgo.Type) bool {
 		for i := range ts {
 			if !disjoint(ts[i].(dgo.Type), o) {
@@ -165,12 +172,6 @@ func disjoint(a, b dgo.Type) bool {
 		a, b = b, a
 	}
 
-	switch {
-	case isExact(a):
-		return !b.Instance(a.(dgo.ExactType).ExactValue())
-	case isExact(b):
-		return !a.Instance(b.(dgo.ExactType).ExactValue())
-	}
 	if at, ok := a.(dgo.IntegerType); ok {
 		if bt, ok := b.(dgo.IntegerType); ok {
 			return at.Min() > bt.Max() || bt.Min() > at.Max()
-- 
2.43.0


From c1e50e986e52ea4873a2e5d7c5482fa1c88c27c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:19 +0000
Subject: [PATCH 23/95] fix: nil is less than everything else also in arrays,
 and Go booleans and nil are comparable

---
 internal/boolean.go | 31 ++++++++++++++++---------------
 internal/string.go  |  2 +-
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/internal/boolean.go b/internal/boolean.go
index 24c4c72..54d92a4 100644
--- a/internal/boolean.go
+++ b/internal/boolean.go
@@ -106,24 +106,25 @@ func (t *exactBooleanType) TypeIdentifier() dgo.TypeIdentifier {
 	return dgo.TiBooleanExact
 }
 
-func (v boolean) CompareTo(other interface{}) (r int, ok bool) {
-	ok = true
-	switch ov := other.(type) {
+func (v boolean) CompareTo(other interface{}) (int, bool) {
+	var ov boolean
+	switch other := other.(type) {
 	case boolean:
-		r = 0
-		if v {
-			if !ov {
-				r = 1
-			}
-		} else if ov {
-			r = -1
-		}
-	case nilValue:
-		r = 1
+		ov = other
+	case bool:
+		ov = boolean(other)
+	case nil, nilValue:
+		return 1, true
 	default:
-		ok = false
+		return 0, false
+	}
+	switch {
+	case v == ov:
+		return 0, true
+	case bool(v):
+		return 1, true
 	}
-	return
+	return -1, true
 }
 
 func (v boolean) Equals(other interface{}) bool {
diff --git a/internal/string.go b/internal/string.go
index 2d3c79e..1c62aa3 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -564,7 +564,7 @@ func (v *hstring) CompareTo(other interface{}) (r int, ok bool) {
 		default:
 			r = 0
 		}
-	case nilValue:
+	case nil, nilValue:
 		r = 1
 	default:
 		ok = false
-- 
2.43.0


From f8a3c8a89657c587ac113ee1b1db1348e164fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:32 +0000
Subject: [PATCH 24/95] fix: comparing arrays and sorting put nil first

---
 internal/array.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index f2cd5c6..092706f 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -936,7 +936,7 @@ func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
 	}
 
 	for i := 0; i < max; i++ {
-		if _, ok = a[i].(dgo.Comparable); !ok {
+		if _, ok = a[i].(dgo.Comparable); !ok && b[i] != Nil {
 			r = 0
 			break
 		}
@@ -1313,6 +1313,10 @@ func (v *array) Sort() dgo.Array {
 	sort.SliceStable(sorted, func(i, j int) bool {
 		a := sorted[i]
 		b := sorted[j]
+		if a == Nil || b == Nil {
+			// nil is less than everything else
+			return b != Nil
+		}
 		if ac, ok := a.(dgo.Comparable); ok {
 			var c int
 			if c, ok = ac.CompareTo(b); ok {
-- 
2.43.0


From 38f02357e14f2731a6e8dbb10f38364039283edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:32 +0000
Subject: [PATCH 25/95] fix: generic types of open struct maps, binaries and
 collections of related types

---
 internal/array.go     |  2 +-
 internal/binary.go    |  4 ++++
 internal/mapstruct.go |  4 ++++
 internal/ternary.go   | 23 +++++++++++------------
 4 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 092706f..097edf3 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -321,7 +321,7 @@ func (t *exactArrayType) ElementTypes() dgo.Array {
 }
 
 func (t *exactArrayType) Generic() dgo.Type {
-	return &sizedArrayType{elementType: Generic(t.ElementType()), min: 0, max: math.MaxInt64}
+	return newArrayType(Generic(t.ElementType()), 0, math.MaxInt64)
 }
 
 func (t *exactArrayType) Len() int {
diff --git a/internal/binary.go b/internal/binary.go
index 20c00ab..0643e36 100644
--- a/internal/binary.go
+++ b/internal/binary.go
@@ -147,6 +147,10 @@ func (t *binaryType) Unbounded() bool {
 	return t.min == 0 && t.max == math.MaxInt64
 }
 
+func (v *exactBinaryType) Generic() dgo.Type {
+	return DefaultBinaryType
+}
+
 func (v *exactBinaryType) IsInstance(b []byte) bool {
 	return bytes.Equal(v.value.bytes, b)
 }
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 5adb14c..a19b9d9 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -229,6 +229,10 @@ func (t *structType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func (t *structType) Generic() dgo.Type {
+	if t.additional {
+		// keys and values that aren't described by the type are accepted
+		return DefaultMapType
+	}
 	return newMapType(Generic(t.KeyType()), Generic(t.ValueType()), 0, math.MaxInt64)
 }
 
diff --git a/internal/ternary.go b/internal/ternary.go
index 315ed83..543d914 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -486,22 +486,21 @@ func (t *oneOfType) TypeIdentifier() dgo.TypeIdentifier {
 // commonGeneric returns the least generic type that is assignable from all types given
 // in the slice.
 func commonGeneric(s []dgo.Value, fc func(dgo.Value) dgo.Type) dgo.Type {
-	var prev dgo.Type
+	gs := make([]dgo.Type, len(s))
 	for i := range s {
-		rt := Generic(fc(s[i]))
-		if prev != nil {
-			if prev.Assignable(rt) {
-				// prev is equal or more generic
-				continue
-			}
-			if !prev.Assignable(rt) {
-				// prev is not compatible. Fall back to Any
-				return DefaultAnyType
+		gs[i] = Generic(fc(s[i]))
+	}
+nextType:
+	for i := range gs {
+		for j := range gs {
+			if !gs[i].Assignable(gs[j]) {
+				continue nextType
 			}
 		}
-		prev = rt // make prev more generic
+		return gs[i]
 	}
-	return prev
+	// no type is assignable from all the others
+	return DefaultAnyType
 }
 
 func commonReflectTo(s []dgo.Value, fc func(dgo.Value) dgo.Type) reflect.Type {
-- 
2.43.0


From d6c7dd9bc23af668fa52a7b075d5292c46a9c812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:41 +0000
Subject: [PATCH 26/95] fix: hash code of native types and uintptr natives

---
 internal/native.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/native.go b/internal/native.go
index 2c08475..973112f 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -46,6 +46,9 @@ func (t *nativeType) Equals(other interface{}) bool {
 }
 
 func (t *nativeType) HashCode() int {
+	if t.rt == nil {
+		return int(dgo.TiNative)
+	}
 	return util.StringHash(t.rt.Name())*31 + int(dgo.TiNative)
 }
 
@@ -119,7 +122,10 @@ func (v *native) HashCode() int {
 		}
 		p := rv.Pointer()
 		return int(p ^ (p >> 32))
-	case reflect.Chan, reflect.Uintptr:
+	case reflect.Uintptr:
+		p := rv.Uint()
+		return int(p ^ (p >> 32))
+	case reflect.Chan:
 		p := rv.Pointer()
 		return int(p ^ (p >> 32))
 	case reflect.Struct:
-- 
2.43.0


From f567cad781389663533f397ac83acc92d51f132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:41 +0000
Subject: [PATCH 27/95] fix: hash codes of equal ternary types are equal
 irrespective of operand order

---
 internal/ternary.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/ternary.go b/internal/ternary.go
index 543d914..4aa3260 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -96,7 +96,7 @@ func (t *allOfType) HashCode() int {
 }
 
 func (t *allOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAllOf)
+	return unorderedHashCode(seen, t.slice, typeAsType)*7 + int(dgo.TiAllOf)
 }
 
 func (t *allOfType) Instance(value interface{}) bool {
@@ -200,7 +200,7 @@ func (t *allOfValueType) HashCode() int {
 }
 
 func (t *allOfValueType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAllOfValue)
+	return unorderedHashCode(seen, t.slice, valueAsType)*7 + int(dgo.TiAllOf) // must be equal to the hash code of an equal allOfType
 }
 
 func (t *allOfValueType) Instance(value interface{}) bool {
@@ -308,7 +308,7 @@ func (t *anyOfType) HashCode() int {
 }
 
 func (t *anyOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAnyOf)
+	return unorderedHashCode(seen, t.slice, typeAsType)*7 + int(dgo.TiAnyOf)
 }
 
 func (t *anyOfType) Instance(value interface{}) bool {
@@ -430,7 +430,7 @@ func (t *oneOfType) HashCode() int {
 }
 
 func (t *oneOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiOneOf)
+	return unorderedHashCode(seen, t.slice, typeAsType)*7 + int(dgo.TiOneOf)
 }
 
 func (t *oneOfType) Instance(value interface{}) bool {
@@ -530,6 +530,15 @@ func typeSlice(s []dgo.Value, fc func(dgo.Value) dgo.Type) []dgo.Type {
 	return ts
 }
 
+// unorderedHashCode computes a hash code that doesn't depend on the order of the operands
+func unorderedHashCode(seen []dgo.Value, s []dgo.Value, fc func(dgo.Value) dgo.Type) int {
+	h := 1
+	for i := range s {
+		h += deepHashCode(seen, fc(s[i]))
+	}
+	return h
+}
+
 func sameValues(seen []dgo.Value, a, b dgo.Array, fc func(dgo.Value) dgo.Type) bool {
 	if a.Len() == b.Len() {
 		if fc != nil {
-- 
2.43.0


From 6f6232503ac382dcfe6fd65b10c1288710593702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:41 +0000
Subject: [PATCH 28/95] fix: equality of function types, tuples and arguments
 is symmetric

---
 internal/array.go    |  8 +++++++-
 internal/function.go | 25 +++++++++++++++++--------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 097edf3..c85d252 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -536,6 +536,9 @@ func (t *tupleType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func tupleEquals(seen []dgo.Value, t dgo.TupleType, other interface{}) bool {
+	if _, ok := other.(dgo.ExactType); ok {
+		return false
+	}
 	if ot, ok := other.(dgo.TupleType); ok {
 		n := t.Len()
 		if t.Variadic() == ot.Variadic() && n == ot.Len() {
@@ -1037,7 +1040,10 @@ func (v *array) Equals(other interface{}) bool {
 }
 
 func (v *array) deepEqual(seen []dgo.Value, other deepEqual) bool {
-	if ov, ok := other.(*array); ok {
+	switch ov := other.(type) {
+	case *array:
+		return sliceEquals(seen, v.slice, ov.slice)
+	case *arguments:
 		return sliceEquals(seen, v.slice, ov.slice)
 	}
 	return false
diff --git a/internal/function.go b/internal/function.go
index bf3bbb1..40e1852 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -139,16 +139,28 @@ func (t exactFunctionType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Ty
 }
 
 func (t exactFunctionType) Equals(other interface{}) bool {
-	if ot, ok := Value(other).(dgo.FunctionType); ok {
-		return t.In().Equals(ot.In()) && t.Out().Equals(ot.Out())
+	return equals(nil, t, other)
+}
+
+func (t exactFunctionType) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	return functionTypeEquals(seen, t, other)
+}
+
+func functionTypeEquals(seen []dgo.Value, t dgo.FunctionType, other deepEqual) bool {
+	if ot, ok := other.(dgo.FunctionType); ok {
+		return equals(seen, t.In(), ot.In()) && equals(seen, t.Out(), ot.Out())
 	}
 	return false
 }
 
 func (t exactFunctionType) HashCode() int {
+	return deepHashCode(nil, t)
+}
+
+func (t exactFunctionType) deepHashCode(seen []dgo.Value) int {
 	h := int(dgo.TiFunction)
-	h = h*31 + t.In().HashCode()
-	h = h*31 + t.Out().HashCode()
+	h = h*31 + deepHashCode(seen, t.In())
+	h = h*31 + deepHashCode(seen, t.Out())
 	return h
 }
 
@@ -226,10 +238,7 @@ func (t *functionType) Equals(other interface{}) bool {
 }
 
 func (t *functionType) deepEqual(seen []dgo.Value, other deepEqual) bool {
-	if ot, ok := other.(*functionType); ok {
-		return equals(seen, t.arguments, ot.arguments) && equals(seen, t.returns, ot.returns)
-	}
-	return false
+	return functionTypeEquals(seen, t, other)
 }
 
 func (t *functionType) HashCode() int {
-- 
2.43.0


From fb49a66c05ee731d1e14962410525e6f78e37585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 29/95] fix: validation of open struct maps reports keys that
 the type accepts as unknown

---
 internal/mapstruct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index a19b9d9..772f4e8 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -391,7 +391,7 @@ func validate(t dgo.StructMapType, keyLabel func(key dgo.Value) string, value in
 		}
 	})
 	pm.EachKey(func(k dgo.Value) {
-		if t.Get(k) == nil {
+		if !t.Additional() && t.Get(k.Type()) == nil {
 			errs = append(errs, fmt.Errorf(`unknown %s`, keyLabel(k)))
 		}
 	})
@@ -430,7 +430,7 @@ func validateVerbose(t dgo.StructMapType, value interface{}, out dgo.Indenter) b
 		out.NewLine()
 	})
 	pm.EachKey(func(k dgo.Value) {
-		if t.Get(k) == nil {
+		if !t.Additional() && t.Get(k.Type()) == nil {
 			ok = false
 			out.Printf(`Validating '%s'`, k)
 			inner.NewLine()
-- 
2.43.0


From e550963e8fc04a21011b483498fdf0fbe526f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 30/95] fix: a key with a question mark that isn't followed by
 a colon is silently accepted and optional keys that are types are parsed as
 strings

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index caaba22..4ecf514 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -388,7 +388,7 @@ func (p *parser) params() {
 func (p *parser) arrayElement(t *Token, expectEntry int) int {
 	var key dgo.Value
 	nt := p.PeekToken()
-	if t.Type == identifier && nt.Type == ':' || nt.Type == '?' {
+	if t.Type == identifier && (nt.Type == ':' || nt.Type == '?') {
 		if expectEntry == 0 {
 			panic(errors.New(`mix of elements and map entries`))
 		}
@@ -401,6 +401,9 @@ func (p *parser) arrayElement(t *Token, expectEntry int) int {
 	optional := nt.Type == '?'
 	if optional {
 		p.NextToken()
+		if p.PeekToken().Type != ':' {
+			panic(badSyntax(nt, exListComma))
+		}
 	}
 
 	if p.PeekToken().Type == ':' {
-- 
2.43.0


From 25f5ae9a1eea4853b227a3d1775b6e7ab1ff496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:52 +0000
Subject: [PATCH 31/95] fix: printed strings with escapes other than \\n, \\r,
 \\t and printed float ranges with an exponent cannot be parsed

---
 parser/lexer.go | 46 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index cd0ffdc..2c3b24b 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -7,6 +7,8 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/lyraproj/dgo/internal"
 
@@ -159,6 +161,9 @@ func consumeUnsignedInteger(sr *util.StringReader, buf io.Writer) {
 	for {
 		r := sr.Peek()
 		switch {
+		case r == '.' && sr.Peek2() == '.':
+			// Start of a range operator
+			return
 		case r == '.' || IsLetter(r):
 			panic(badToken(r))
 		case IsDigit(r):
@@ -332,7 +337,7 @@ func ConsumeString(sr *util.StringReader, end rune) string {
 		case 0:
 			panic(errors.New("unterminated string"))
 		case '\\':
-			consumeEscape(sr.Next(), buf, end)
+			consumeEscape(sr, buf, end)
 		case '\n':
 			panic(errors.New("unterminated string"))
 		default:
@@ -341,7 +346,8 @@ func ConsumeString(sr *util.StringReader, end rune) string {
 	}
 }
 
-func consumeEscape(r rune, buf io.Writer, end rune) {
+func consumeEscape(sr *util.StringReader, buf io.Writer, end rune) {
+	r := sr.Next()
 	switch r {
 	case 0:
 		panic(errors.New("unterminated string"))
@@ -351,6 +357,22 @@ func consumeEscape(r rune, buf io.Writer, end rune) {
 		r = '\r'
 	case 't':
 		r = '\t'
+	case 'a':
+		r = '\a'
+	case 'b':
+		r = '\b'
+	case 'f':
+		r = '\f'
+	case 'v':
+		r = '\v'
+	case 'x':
+		// The code of one byte. The bytes of the string aren't necessarily valid UTF-8
+		util.WriteByte(buf, byte(consumeHexCode(sr, r, 2)))
+		return
+	case 'u':
+		r = consumeHexCode(sr, r, 4)
+	case 'U':
+		r = consumeHexCode(sr, r, 8)
 	case '\\':
 	default:
 		if r != end {
@@ -360,6 +382,26 @@ func consumeEscape(r rune, buf io.Writer, end rune) {
 	util.WriteRune(buf, r)
 }
 
+// consumeHexCode consumes exactly n hexadecimal digits and returns the code that they denote
+func consumeHexCode(sr *util.StringReader, esc rune, n int) rune {
+	code := uint32(0)
+	for i := 0; i < n; i++ {
+		r := sr.Next()
+		if r == 0 {
+			panic(errors.New("unterminated string"))
+		}
+		if !IsHex(r) {
+			panic(fmt.Errorf("illegal escape '\\%c'", esc))
+		}
+		d, _ := strconv.ParseUint(string(r), 16, 8)
+		code = code<<4 | uint32(d)
+	}
+	if n > 2 && (code > unicode.MaxRune || !utf8.ValidRune(rune(code))) {
+		panic(fmt.Errorf("illegal escape '\\%c'", esc))
+	}
+	return rune(code)
+}
+
 func consumeRawString(sr *util.StringReader) string {
 	buf := bytes.NewBufferString(``)
 	for {
-- 
2.43.0


From 0107260c5ceb551765a959854702a4ddcc819f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:52 +0000
Subject: [PATCH 32/95] fix: the printed form of functions in combinations and
 of elements that are exclusive ranges without lower limit is parsed as
 another type

---
 stringer/typestring.go | 70 ++++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 20 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 7a87702..f2d558d 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -225,17 +225,34 @@ func (sb *typeBuilder) meta(typ dgo.Type, prio int) {
 
 func (sb *typeBuilder) function(typ dgo.Type, prio int) {
 	ft := typ.(dgo.FunctionType)
+	out := ft.Out()
+	single := ``
+	if out.Len() == 1 && !out.Variadic() {
+		single = sb.render(out.Element(0), commaPrio)
+		if strings.HasPrefix(single, `(`) || strings.HasPrefix(single, `...`) {
+			// Would be parsed as a list of return types or as something variadic
+			single = ``
+		}
+	}
+
+	// A return type without parentheses extends to the end of the expression
+	paren := single != `` && prio > commaPrio
+	if paren {
+		util.WriteByte(sb, '(')
+	}
 	util.WriteString(sb, `func`)
 	sb.writeTupleArgs(ft.In(), '(', ')')
-	out := ft.Out()
 	if out.Len() > 0 {
 		util.WriteByte(sb, ' ')
-		if out.Len() == 1 && !out.Variadic() {
-			sb.buildTypeString(out.Element(0), prio)
+		if single != `` {
+			util.WriteString(sb, single)
 		} else {
-			sb.writeTupleArgs(ft.Out(), '(', ')')
+			sb.writeTupleArgs(out, '(', ')')
 		}
 	}
+	if paren {
+		util.WriteByte(sb, ')')
+	}
 }
 
 func (sb *typeBuilder) errorExact(typ dgo.Type, _ int) {
@@ -293,10 +310,6 @@ func newTypeBuilder(w io.Writer, am dgo.AliasMap) *typeBuilder {
 	return sb
 }
 
-func (sb *typeBuilder) joinTypes(v dgo.Iterable, s string, prio int) {
-	sb.joinX(v, typeAsType, s, prio)
-}
-
 func (sb *typeBuilder) joinValueTypes(v dgo.Iterable, s string, prio int) {
 	sb.joinX(v, valueAsType, s, prio)
 }
@@ -368,23 +381,40 @@ func (sb *typeBuilder) writeFloatRange(min, max float64, inclusive bool) {
 
 func (sb *typeBuilder) writeTupleArgs(tt dgo.TupleType, leftSep, rightSep byte) {
 	es := tt.ElementTypes()
+	n := es.Len()
 	if tt.Variadic() {
-		n := es.Len() - 1
-		sep := leftSep
-		for i := 0; i < n; i++ {
-			util.WriteByte(sb, sep)
-			sep = ','
-			sb.buildTypeString(es.Get(i).(dgo.Type), commaPrio)
+		n--
+	}
+	util.WriteByte(sb, leftSep)
+	for i := 0; i < n; i++ {
+		if i > 0 {
+			util.WriteByte(sb, ',')
+		}
+		s := sb.render(es.Get(i).(dgo.Type), commaPrio)
+		if strings.HasPrefix(s, `...`) {
+			// Would be parsed as something variadic
+			s = `(` + s + `)`
+		}
+		util.WriteString(sb, s)
+	}
+	if tt.Variadic() {
+		if n > 0 {
+			util.WriteByte(sb, ',')
 		}
-		util.WriteByte(sb, sep)
 		util.WriteString(sb, `...`)
 		sb.buildTypeString(es.Get(n).(dgo.Type), commaPrio)
-		util.WriteByte(sb, rightSep)
-	} else {
-		util.WriteByte(sb, leftSep)
-		sb.joinTypes(es, `,`, commaPrio)
-		util.WriteByte(sb, rightSep)
 	}
+	util.WriteByte(sb, rightSep)
+}
+
+// render returns what buildTypeString would write
+func (sb *typeBuilder) render(typ dgo.Type, prio int) string {
+	w := sb.Writer
+	s := strings.Builder{}
+	sb.Writer = &s
+	sb.buildTypeString(typ, prio)
+	sb.Writer = w
+	return s.String()
 }
 
 func (sb *typeBuilder) writeTernary(typ dgo.Type, tc func(dgo.Value) dgo.Type, prio int, op string, opPrio int) {
-- 
2.43.0


From 1cf121bb9697048beb0a9aecf30c5736831d6b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:52 +0000
Subject: [PATCH 33/95] fix: the parser swallows the token that follows a float
 range without upper limit

---
 parser/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4ecf514..bc01528 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -658,7 +658,6 @@ func (p *parser) float(t *Token) dgo.Value {
 			p.NextToken()
 			tp = internal.FloatType(f, tokenFloat(n), inclusive)
 		} else {
-			p.NextToken()
 			tp = internal.FloatType(f, math.MaxFloat64, inclusive) // Unbounded at upper end
 		}
 	} else {
-- 
2.43.0


From dbb38f0e91b9521a3f2763c33f1c7cd8d431ad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:52 +0000
Subject: [PATCH 34/95] fix: negations and case insensitive strings cannot be
 parsed as element and value types

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index bc01528..38dbdcb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -523,7 +523,7 @@ func (p *parser) mapExpression() dgo.Value {
 		panic(badSyntax(n, exRightBracket))
 	}
 
-	p.typeExpression(p.NextToken())
+	p.unary(p.NextToken())
 	params := internal.WrapSlice([]dgo.Value{keyType, p.PopLastType()})
 	if szc != nil {
 		params.AddAll(szc)
@@ -710,7 +710,7 @@ func (p *parser) dotRange(t *Token) dgo.Value {
 func (p *parser) array() dgo.Value {
 	p.params()
 	params := p.PopLast().(dgo.Array)
-	p.typeExpression(p.NextToken())
+	p.unary(p.NextToken())
 	params.Insert(0, p.PopLastType())
 	return internal.ArrayType(params.InterfaceSlice())
 }
-- 
2.43.0


From 9c382f15b1769de0dc86ed197cde64d1db47083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:52 +0000
Subject: [PATCH 35/95] fix: boolean and nil keys are parsed as strings

---
 parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 38dbdcb..6282e3e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -392,7 +392,12 @@ func (p *parser) arrayElement(t *Token, expectEntry int) int {
 		if expectEntry == 0 {
 			panic(errors.New(`mix of elements and map entries`))
 		}
-		key = internal.String(t.Value)
+		switch t.Value {
+		case `true`, `false`, `nil`:
+			key = identifierToTypeMap[t.Value] // literal value
+		default:
+			key = internal.String(t.Value)
+		}
 	} else {
 		p.anyOf(t)
 		nt = p.PeekToken()
-- 
2.43.0


From d0e776d978a5969413dae30995243e40d200b367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:42 +0000
Subject: [PATCH 36/95] fix: integer and float literals out of range and
 malformed octal integers are silently parsed as another number

---
 parser/parser.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6282e3e..e46d2f1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -796,12 +796,21 @@ func (p *parser) typeExpression(t *Token) {
 }
 
 func tokenInt(t *Token) int64 {
-	i, _ := strconv.ParseInt(t.Value, 0, 64)
+	i, err := strconv.ParseInt(t.Value, 0, 64)
+	if err != nil {
+		panic(err)
+	}
 	return i
 }
 
 func tokenFloat(t *Token) float64 {
-	f, _ := strconv.ParseFloat(t.Value, 64)
+	if t.Type == integer {
+		return float64(tokenInt(t))
+	}
+	f, err := strconv.ParseFloat(t.Value, 64)
+	if err != nil {
+		panic(err)
+	}
 	return f
 }
 
-- 
2.43.0


From 28522928401bd465942173e750223fbca37d03c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 37/95] fix: text after a NUL character is ignored, U+FFFD is
 rejected and error positions are outside of the text

---
 parser/parser.go | 17 +++++++++++------
 util/reader.go   | 19 ++++++++++++-------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e46d2f1..f9f8b4d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"regexp"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/internal"
@@ -151,21 +152,24 @@ func DoParse(p Parser, fileName string) dgo.Value {
 			if err, ok := r.(error); ok {
 				es = err.Error()
 			}
-			tl := 1
-			lt := p.LastToken()
-			if lt != nil && lt.Value != `` {
-				tl = len(lt.Value)
-			}
 			fn := ``
 			if fileName != `` {
 				fn = fmt.Sprintf(`file: %s, `, fileName)
 			}
 			ln := ``
 			sr := p.StringReader()
+			col := sr.Column() - 1 // column of last character read
+			if lt := p.LastToken(); lt != nil && lt.Value != `` {
+				// column of first character of last token
+				col -= utf8.RuneCountInString(lt.Value) - 1
+			}
+			if col < 1 {
+				col = 1
+			}
 			if fileName != `` || sr.Line() > 1 {
 				ln = fmt.Sprintf(`line: %d, `, sr.Line())
 			}
-			panic(fmt.Errorf("%s: (%s%scolumn: %d)", es, fn, ln, sr.Column()-tl))
+			panic(fmt.Errorf("%s: (%s%scolumn: %d)", es, fn, ln, col))
 		}
 	}()
 	p.Parse(p.NextToken())
@@ -216,6 +220,7 @@ func (p *Base) NextToken() *Token {
 		t = p.pe
 		p.pe = nil
 	} else {
+		p.lt = nil // no last token if lf panics
 		t = p.lf(p.sr)
 	}
 	p.lt = t
diff --git a/util/reader.go b/util/reader.go
index 601b305..a934f43 100644
--- a/util/reader.go
+++ b/util/reader.go
@@ -29,16 +29,20 @@ func (r *StringReader) Next() rune {
 	}
 	c := rune(r.s[r.p])
 	if c < utf8.RuneSelf {
+		if c == 0 {
+			panic(errors.New("unexpected NUL character"))
+		}
 		r.p++
 		if c == '\n' {
 			r.l++
 			r.c = 0
+		} else {
+			r.c++
 		}
-		r.c++
 	} else {
 		var size int
 		c, size = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		if c == utf8.RuneError && size <= 1 {
 			panic(errors.New("unicode error"))
 		}
 		r.p += size
@@ -54,8 +58,9 @@ func (r *StringReader) Peek() rune {
 	}
 	c := rune(r.s[r.p])
 	if c >= utf8.RuneSelf {
-		c, _ = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		var size int
+		c, size = utf8.DecodeRuneInString(r.s[r.p:])
+		if c == utf8.RuneError && size <= 1 {
 			panic(errors.New("unicode error"))
 		}
 	}
@@ -71,7 +76,7 @@ func (r *StringReader) Peek2() rune {
 	var sz int
 	if c >= utf8.RuneSelf {
 		c, sz = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		if c == utf8.RuneError && sz <= 1 {
 			panic(errors.New("unicode error"))
 		}
 	} else {
@@ -85,8 +90,8 @@ func (r *StringReader) Peek2() rune {
 
 	c = rune(r.s[np])
 	if c >= utf8.RuneSelf {
-		c, _ = utf8.DecodeRuneInString(r.s[np:])
-		if c == utf8.RuneError {
+		c, sz = utf8.DecodeRuneInString(r.s[np:])
+		if c == utf8.RuneError && sz <= 1 {
 			panic(errors.New("unicode error"))
 		}
 	}
-- 
2.43.0


From d5a24941cb9f08f4e8beeeac86d6100a6a22c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:44 +0000
Subject: [PATCH 38/95] fix: a nil dereference when an identifier is parsed
 without alias map

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index f9f8b4d..3c22762 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -732,6 +732,9 @@ func (p *parser) aliasReference(t *Token) dgo.Value {
 	if tp := internal.NamedType(t.Value); tp != nil {
 		return tp
 	}
+	if p.sc == nil {
+		panic(fmt.Errorf(`reference to unresolved type '%s'`, t.Value))
+	}
 	vn := internal.String(t.Value)
 	if tp := p.sc.GetType(vn); tp != nil {
 		return tp
@@ -743,6 +746,9 @@ func (p *parser) aliasDeclaration(t *Token) dgo.Value {
 	// Should result in an unknown identifier or name is reserved
 	tp := p.identifier(t, true)
 	if un, ok := tp.(*unknownIdentifier); ok {
+		if p.sc == nil {
+			panic(fmt.Errorf(`no alias map to declare '%s' in`, t.Value))
+		}
 		s := un.Value.(dgo.String)
 		if internal.NamedType(s.GoString()) == nil && p.sc.GetType(s) == nil {
 			p.NextToken() // skip '='
-- 
2.43.0


From 1b6c54bc3241aedc1d61942049d26c9bb69bc65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 39/95] fix: a variadic element that isn't last gives a Go type
 assertion failure or an arbitrary type

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3c22762..c41b261 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -286,6 +286,12 @@ func (p *parser) list(endChar int) {
 			expectEntry = 0
 			p.anyOf(t)
 			t = p.NextToken()
+			if t.Type != endChar {
+				if endChar == ')' {
+					panic(badSyntax(t, exRightParen))
+				}
+				panic(badSyntax(t, exListEnd))
+			}
 			et := internal.ArrayType([]interface{}{p.PopLastType(), 0, math.MaxInt64})
 			p.Append(et)
 		}
-- 
2.43.0


From aec74ab90f3ebf0eeb4d0f1612aee39ad1678a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:18 +0000
Subject: [PATCH 40/95] fix: aliases in function types and in sensitive types
 and values are never resolved

---
 internal/function.go  |  5 +++++
 internal/sensitive.go | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/internal/function.go b/internal/function.go
index 40e1852..4a74a2d 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -273,6 +273,11 @@ func (t *functionType) ReflectType() reflect.Type {
 	panic(errors.New(`unable to build reflect.Type of go func dynamically`))
 }
 
+func (t *functionType) Resolve(ap dgo.AliasAdder) {
+	t.arguments = ap.Replace(t.arguments).(dgo.TupleType)
+	t.returns = ap.Replace(t.returns).(dgo.TupleType)
+}
+
 func (t *functionType) String() string {
 	return TypeString(t)
 }
diff --git a/internal/sensitive.go b/internal/sensitive.go
index b0966d7..c4b5751 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -95,6 +95,12 @@ func (t *sensitiveType) New(arg dgo.Value) dgo.Value {
 	return Sensitive(arg)
 }
 
+func (t *sensitiveType) Resolve(ap dgo.AliasAdder) {
+	tn := t.wrapped
+	t.wrapped = DefaultAnyType
+	t.wrapped = ap.Replace(tn).(dgo.Type)
+}
+
 func (t *sensitiveType) String() string {
 	return TypeString(t)
 }
@@ -158,6 +164,10 @@ func (v *sensitive) deepHashCode(seen []dgo.Value) int {
 	return deepHashCode(seen, v.value) * 7
 }
 
+func (v *sensitive) Resolve(ap dgo.AliasAdder) {
+	v.value = ap.Replace(v.value)
+}
+
 func (v *sensitive) String() string {
 	return `sensitive [value redacted]`
 }
-- 
2.43.0


From 5fed8f3c9e5a7d1f45fa166a0043e2280a02b92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:18 +0000
Subject: [PATCH 41/95] fix: the error for an alias that is declared as itself
 has no position

---
 parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index c41b261..28a87bf 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -761,6 +761,9 @@ func (p *parser) aliasDeclaration(t *Token) dgo.Value {
 			p.sc.Add(NewAlias(s), s)
 			p.anyOf(p.NextToken())
 			tp = p.PopLastType()
+			if a, ok := tp.(dgo.Alias); ok && s.Equals(a.Reference()) {
+				panic(fmt.Errorf(`alias '%s' is declared as itself`, t.Value))
+			}
 			p.sc.Add(tp.(dgo.Type), s)
 			return tp
 		}
-- 
2.43.0


From 15f9f4188b0bf4bc7dc9b016598a1403366ddddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 42/95] fix: resolving aliases in the type of a meta type is a
 nil type assertion

---
 internal/meta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/meta.go b/internal/meta.go
index a34bd8d..bab8edf 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -111,6 +111,9 @@ func (t *metaType) ReflectType() reflect.Type {
 }
 
 func (t *metaType) Resolve(ap dgo.AliasAdder) {
+	if t.tp == nil {
+		return // type of meta type
+	}
 	tp := t.tp
 	t.tp = DefaultAnyType
 	t.tp = ap.Replace(tp).(dgo.Type)
-- 
2.43.0


From 9211f3f9c9070f4d67bfca513acdf947508933f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:53 +0000
Subject: [PATCH 43/95] fix: a range with exclusive end from the smallest to
 the largest number is parsed as an unlimited range

---
 internal/float.go      | 2 +-
 internal/integer.go    | 2 +-
 stringer/typestring.go | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index 9ea6ae9..a09d893 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -48,7 +48,7 @@ func FloatType(min, max float64, inclusive bool) dgo.FloatType {
 		max = min
 		min = t
 	}
-	if min == -math.MaxFloat64 && max == math.MaxFloat64 {
+	if min == -math.MaxFloat64 && max == math.MaxFloat64 && inclusive {
 		return DefaultFloatType
 	}
 	return &floatType{min: min, max: max, inclusive: inclusive}
diff --git a/internal/integer.go b/internal/integer.go
index c2efdd7..fd46282 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -46,7 +46,7 @@ func IntegerType(min, max int64, inclusive bool) dgo.IntegerType {
 		max = min
 		min = t
 	}
-	if min == math.MinInt64 && max == math.MaxInt64 {
+	if min == math.MinInt64 && max == math.MaxInt64 && inclusive {
 		return DefaultIntegerType
 	}
 	return &integerType{min: min, max: max, inclusive: inclusive}
diff --git a/stringer/typestring.go b/stringer/typestring.go
index f2d558d..9344d8e 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -360,7 +360,8 @@ func (sb *typeBuilder) writeIntRange(min, max int64, inclusive bool) {
 		op = `..`
 	}
 	util.WriteString(sb, op)
-	if max != math.MaxInt64 {
+	if max != math.MaxInt64 || min == math.MinInt64 {
+		// A range must have at least one limit
 		util.WriteString(sb, strconv.FormatInt(max, 10))
 	}
 }
@@ -374,7 +375,8 @@ func (sb *typeBuilder) writeFloatRange(min, max float64, inclusive bool) {
 		op = `..`
 	}
 	util.WriteString(sb, op)
-	if max != math.MaxFloat64 {
+	if max != math.MaxFloat64 || min == -math.MaxFloat64 {
+		// A range must have at least one limit
 		util.WriteString(sb, util.Ftoa(max))
 	}
 }
-- 
2.43.0


From 09836afbab8a523f1b52a31125be61b573c6c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:46 +0000
Subject: [PATCH 44/95] fix: stack overflow in hash code, equality, instance
 and assignability of recursive negations, meta types and sensitive types

---
 internal/meta.go      | 18 +++++++++++++-----
 internal/not.go       | 30 +++++++++++++++++++++++-------
 internal/sensitive.go |  6 +++++-
 3 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/internal/meta.go b/internal/meta.go
index bab8edf..6184db7 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -44,19 +44,27 @@ func (t *metaType) Describes() dgo.Type {
 }
 
 func (t *metaType) Equals(v interface{}) bool {
-	if mt, ok := v.(*metaType); ok {
-		if t.tp == nil {
-			return mt.tp == nil
+	return equals(nil, t, v)
+}
+
+func (t *metaType) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	if mt, ok := other.(*metaType); ok {
+		if t.tp == nil || mt.tp == nil {
+			return t.tp == mt.tp
 		}
-		return t.tp.Equals(mt.tp)
+		return equals(seen, t.tp, mt.tp)
 	}
 	return false
 }
 
 func (t *metaType) HashCode() int {
+	return deepHashCode(nil, t)
+}
+
+func (t *metaType) deepHashCode(seen []dgo.Value) int {
 	h := int(dgo.TiMeta) * 1321
 	if t.tp != nil {
-		h += t.tp.HashCode()
+		h += deepHashCode(seen, t.tp)
 	}
 	return h
 }
diff --git a/internal/not.go b/internal/not.go
index 46f76a7..6c4d4f4 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -23,25 +23,37 @@ func NotType(t dgo.Type) dgo.Type {
 }
 
 func (t *notType) Equals(other interface{}) bool {
+	return equals(nil, t, other)
+}
+
+func (t *notType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 	if ot, ok := other.(*notType); ok {
-		return t.negated.Equals(ot.negated)
+		return equals(seen, t.negated, ot.negated)
 	}
 	return false
 }
 
 func (t *notType) HashCode() int {
-	return 1579 + t.negated.HashCode()
+	return deepHashCode(nil, t)
+}
+
+func (t *notType) deepHashCode(seen []dgo.Value) int {
+	return 1579 + deepHashCode(seen, t.negated)
 }
 
 func (t *notType) Assignable(other dgo.Type) bool {
+	return Assignable(nil, t, other)
+}
+
+func (t *notType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
 	switch ot := other.(type) {
 	case *notType:
 		// Reverse order of Negated test
-		return ot.negated.Assignable(t.negated)
+		return Assignable(guard, ot.negated, t.negated)
 	case *anyOfType:
 		ts := ot.slice
 		for i := range ts {
-			if t.Assignable(ts[i].(dgo.Type)) {
+			if Assignable(guard, t, ts[i].(dgo.Type)) {
 				return true
 			}
 		}
@@ -49,7 +61,7 @@ func (t *notType) Assignable(other dgo.Type) bool {
 	case *allOfType:
 		ts := ot.slice
 		for i := range ts {
-			if !t.Assignable(ts[i].(dgo.Type)) {
+			if !Assignable(guard, t, ts[i].(dgo.Type)) {
 				return false
 			}
 		}
@@ -58,7 +70,7 @@ func (t *notType) Assignable(other dgo.Type) bool {
 		f := false
 		ts := ot.slice
 		for i := range ts {
-			if t.Assignable(ts[i].(dgo.Type)) {
+			if Assignable(guard, t, ts[i].(dgo.Type)) {
 				if f {
 					return false
 				}
@@ -72,7 +84,11 @@ func (t *notType) Assignable(other dgo.Type) bool {
 }
 
 func (t *notType) Instance(value interface{}) bool {
-	return !t.negated.Instance(value)
+	return Instance(nil, t, value)
+}
+
+func (t *notType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
+	return !Instance(guard, t.negated, value)
 }
 
 func (t *notType) Operand() dgo.Type {
diff --git a/internal/sensitive.go b/internal/sensitive.go
index c4b5751..5cbce72 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -64,8 +64,12 @@ func (t *sensitiveType) deepHashCode(seen []dgo.Value) int {
 }
 
 func (t *sensitiveType) Instance(value interface{}) bool {
+	return Instance(nil, t, value)
+}
+
+func (t *sensitiveType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
 	if ov, ok := value.(*sensitive); ok {
-		return t.wrapped.Instance(ov.value)
+		return Instance(guard, t.wrapped, ov.value)
 	}
 	return false
 }
-- 
2.43.0


From 26f22cc129229390660c58e4bccdf9d744cbcfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:46 +0000
Subject: [PATCH 45/95] fix: aliases that are operands of themselves are
 accepted although all use of them is a stack overflow

---
 parser/parser.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 28a87bf..dfbfe6c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -761,7 +761,7 @@ func (p *parser) aliasDeclaration(t *Token) dgo.Value {
 			p.sc.Add(NewAlias(s), s)
 			p.anyOf(p.NextToken())
 			tp = p.PopLastType()
-			if a, ok := tp.(dgo.Alias); ok && s.Equals(a.Reference()) {
+			if isOperand(s, tp.(dgo.Type)) {
 				panic(fmt.Errorf(`alias '%s' is declared as itself`, t.Value))
 			}
 			p.sc.Add(tp.(dgo.Type), s)
@@ -771,6 +771,24 @@ func (p *parser) aliasDeclaration(t *Token) dgo.Value {
 	panic(fmt.Errorf(`attempt to redeclare identifier '%s'`, t.Value))
 }
 
+// isOperand returns true if the given type is an alias for the given name, or if such an alias can be reached by
+// traversing nothing but operands of negations and combinations. An alias can only refer to itself from within
+// a type that describes contained values.
+func isOperand(name dgo.String, tp dgo.Type) bool {
+	switch tp := tp.(type) {
+	case dgo.Alias:
+		return name.Equals(tp.Reference())
+	case dgo.TernaryType:
+		return tp.Operands().Any(func(v dgo.Value) bool {
+			ot, ok := v.(dgo.Type)
+			return ok && isOperand(name, ot)
+		})
+	case dgo.UnaryType:
+		return tp.Operator() == dgo.OpNot && isOperand(name, tp.Operand())
+	}
+	return false
+}
+
 func (p *parser) typeExpression(t *Token) {
 	var tp dgo.Value
 
-- 
2.43.0


From 4f968c761c2a43c9a2f8159e01dfdb41b24c1401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:34 +0000
Subject: [PATCH 46/95] fix: format verbs other than %v and %s reveal what a
 sensitive value wraps, e.g. string(sensitive 34, "%t")

---
 internal/sensitive.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index 5cbce72..23e11d5 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -1,13 +1,20 @@
 package internal
 
 import (
+	"fmt"
 	"reflect"
 
 	"github.com/lyraproj/dgo/dgo"
 )
 
 type (
+	// sensitive holds its value by reference so that the fmt package, which doesn't call methods on values found in
+	// unexported fields, prints an address instead of the value.
 	sensitive struct {
+		*secret
+	}
+
+	secret struct {
 		value dgo.Value
 	}
 
@@ -119,7 +126,7 @@ func (t *sensitiveType) TypeIdentifier() dgo.TypeIdentifier {
 
 // Sensitive creates a new Sensitive that wraps the given value
 func Sensitive(v interface{}) dgo.Sensitive {
-	return &sensitive{Value(v)}
+	return &sensitive{&secret{Value(v)}}
 }
 
 func (v *sensitive) Equals(other interface{}) bool {
@@ -133,6 +140,11 @@ func (v *sensitive) deepEqual(seen []dgo.Value, other deepEqual) bool {
 	return false
 }
 
+// Format ensures that no verb or flag makes the fmt package print the wrapped value
+func (v *sensitive) Format(f fmt.State, _ rune) {
+	_, _ = f.Write([]byte(v.String()))
+}
+
 func (v *sensitive) Freeze() {
 	if f, ok := v.value.(dgo.Freezable); ok {
 		f.Freeze()
@@ -148,14 +160,14 @@ func (v *sensitive) Frozen() bool {
 
 func (v *sensitive) FrozenCopy() dgo.Value {
 	if f, ok := v.value.(dgo.Freezable); ok && !f.Frozen() {
-		return &sensitive{f.FrozenCopy()}
+		return &sensitive{&secret{f.FrozenCopy()}}
 	}
 	return v
 }
 
 func (v *sensitive) ThawedCopy() dgo.Value {
 	if f, ok := v.value.(dgo.Freezable); ok {
-		return &sensitive{f.ThawedCopy()}
+		return &sensitive{&secret{f.ThawedCopy()}}
 	}
 	return v
 }
-- 
2.43.0


From f659fad02c5794997efb2cfe71afb8751d61ef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:08 +0000
Subject: [PATCH 47/95] fix: array of a value that isn't an array fails with a
 Go runtime error

---
 internal/array.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index c85d252..6c68de9 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -707,13 +707,23 @@ func Array(value interface{}) dgo.Array {
 			arr[i] = e
 		}
 		return &array{slice: arr, frozen: true}
+	case dgo.Value:
+		panic(illegalArgument(`array`, `array or iterable`, []interface{}{value}, 0))
 	case reflect.Value:
-		return ValueFromReflected(value).(dgo.Array)
+		return arrayFromReflected(value)
 	default:
-		return ValueFromReflected(reflect.ValueOf(value)).(dgo.Array)
+		return arrayFromReflected(reflect.ValueOf(value))
 	}
 }
 
+func arrayFromReflected(vr reflect.Value) dgo.Array {
+	v := ValueFromReflected(vr)
+	if a, ok := v.(dgo.Array); ok {
+		return a
+	}
+	panic(illegalArgument(`array`, `array or iterable`, []interface{}{v}, 0))
+}
+
 // arrayFromIterator creates an array from a size and an iterator goFunc. The
 // iterator goFunc is expected to call its actor exactly size number of times.
 func arrayFromIterator(size int, each func(dgo.Consumer)) *array {
-- 
2.43.0


From 7f61c726a2b7308697535cc36a55f8ae02257199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:08 +0000
Subject: [PATCH 48/95] fix: int of a float that is NaN or out of range
 silently gives a wrong integer

---
 internal/integer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/integer.go b/internal/integer.go
index fd46282..bdece49 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -435,7 +435,10 @@ func intFromConvertible(from dgo.Value, radix int) int64 {
 	case dgo.Integer:
 		return from.GoInt()
 	case dgo.Float:
-		return int64(from.GoFloat())
+		// The limits are exact since they are powers of two. NaN is never within them
+		if f := from.GoFloat(); f >= math.MinInt64 && f < -math.MinInt64 {
+			return int64(f)
+		}
 	case *timeVal:
 		return from.GoTime().Unix()
 	case dgo.Boolean:
-- 
2.43.0


From ebf4edda9340efa36ce60f9dcfff1ca71e00f3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:08 +0000
Subject: [PATCH 49/95] fix: time of a float out of range silently gives a
 wrong time and float of a distant time overflows

---
 internal/time.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/time.go b/internal/time.go
index 6176d89..5d24c68 100644
--- a/internal/time.go
+++ b/internal/time.go
@@ -105,6 +105,9 @@ func newTime(t dgo.Type, arg dgo.Value) dgo.Time {
 		tv = Time(time.Unix(arg.GoInt(), 0))
 	case dgo.Float:
 		s, f := math.Modf(arg.GoFloat())
+		if !(s >= math.MinInt64 && s < -math.MinInt64) {
+			panic(illegalArgument(`time`, `number of seconds that fits in an int64`, []interface{}{arg}, 0))
+		}
 		tv = Time(time.Unix(int64(s), int64(f*1000000000.0)))
 	case dgo.String:
 		tv = TimeFromString(arg.GoString())
@@ -154,8 +157,8 @@ func (v *timeVal) SecondsWithFraction() float64 {
 		return float64(t.UnixNano()) / 1000000000.0
 	}
 	// Fall back to microsecond precision
-	us := t.Unix()*1000000 + int64(t.Nanosecond())/1000
-	return float64(us) / 1000000.0
+	us := int64(t.Nanosecond()) / 1000
+	return float64(t.Unix()) + float64(us)/1000000.0
 }
 
 func (v *timeVal) GoTime() time.Time {
-- 
2.43.0


From edd8bca01268784d557a3c7a09880ac24d20e027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:08 +0000
Subject: [PATCH 50/95] fix: new of a sensitive type gives values that aren't
 instances of it

---
 internal/sensitive.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index 23e11d5..6ccc58f 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -100,10 +100,14 @@ func (t *sensitiveType) New(arg dgo.Value) dgo.Value {
 		args.AssertSize(`sensitive`, 1, 1)
 		arg = args.Get(0)
 	}
-	if s, ok := arg.(dgo.Sensitive); ok {
-		return s
+	s, ok := arg.(dgo.Sensitive)
+	if !ok {
+		s = Sensitive(arg)
 	}
-	return Sensitive(arg)
+	if !t.Instance(s) {
+		panic(IllegalAssignment(t, s))
+	}
+	return s
 }
 
 func (t *sensitiveType) Resolve(ap dgo.AliasAdder) {
-- 
2.43.0


From 12030ecc35d0678729755f53028f8c094ffed08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:08 +0000
Subject: [PATCH 51/95] fix: new of a named or exact named type gives values
 that aren't its instances or fails with a nil dereference

---
 internal/named.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/named.go b/internal/named.go
index 3d4e84d..268095c 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -35,7 +35,12 @@ var namedTypes = sync.Map{}
 
 func defaultAsgChecker(t dgo.NamedType, other dgo.Type) bool {
 	if ot, ok := other.(dgo.NamedType); ok {
-		return ot.ReflectType().AssignableTo(t.AssignableType())
+		at := t.AssignableType()
+		rt := ot.ReflectType()
+		if at == nil || rt == nil {
+			return t.Name() == ot.Name()
+		}
+		return rt.AssignableTo(at)
 	}
 	return false
 }
@@ -259,7 +264,8 @@ func newNamed(rt dgo.NamedType, arg dgo.Value) dgo.Value {
 		panic(fmt.Errorf(`creating new instances of %s is not possible`, rt.Name()))
 	}
 	v := t.ctor(arg)
-	if t.asgChecker == nil || t.asgChecker(rt, v.Type()) {
+	_, exact := rt.(*exactNamed)
+	if !exact && t.asgChecker == nil && t.AssignableType() == nil || rt.Instance(v) {
 		return v
 	}
 	panic(IllegalAssignment(rt, v))
-- 
2.43.0


From 52250a1eb0fb9956c78437faeae321cbe7a757f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:08 +0000
Subject: [PATCH 52/95] fix: new map of a map isn't a copy and new map of odd
 arrays or of other values gives an empty map

---
 internal/map.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 2b8926d..cb78779 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -248,6 +248,10 @@ func newMap(t dgo.Type, arg dgo.Value) dgo.Map {
 	return m
 }
 
+func illegalMapArgument(a0 interface{}) error {
+	return fmt.Errorf(`illegal argument: %v is not a map, a struct, or an array with even number of elements`, a0)
+}
+
 func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 	l := len(args)
 	switch {
@@ -258,13 +262,24 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 		return MapWithCapacity(0)
 	case l == 1:
 		a0 := args[0]
-		if ar, ok := a0.(dgo.Array); ok && ar.Len()%2 == 0 {
+		switch v := a0.(type) {
+		case dgo.Map:
+			return v.Copy(frozen)
+		case dgo.Array:
+			if v.Len()%2 != 0 {
+				panic(illegalMapArgument(v))
+			}
 			if frozen {
-				return ar.FrozenCopy().(dgo.Array).ToMap()
+				return v.FrozenCopy().(dgo.Array).ToMap()
 			}
-			m := ar.ToMap().(*hashMap)
+			m := v.ToMap().(*hashMap)
 			m.frozen = false
 			return m
+		case dgo.Value:
+			// only instances of named types are implemented by structs that aren't internal
+			if _, ok := v.Type().(dgo.NamedType); !ok {
+				panic(illegalMapArgument(v))
+			}
 		}
 		rm := reflect.ValueOf(a0)
 		switch rm.Kind() {
@@ -278,7 +293,7 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 		case reflect.Struct:
 			return FromReflectedStruct(rm)
 		}
-		panic(fmt.Errorf(`illegal argument: %t is not a map, a struct, or an array with even number of elements`, a0))
+		panic(illegalMapArgument(a0))
 	case l%2 == 0:
 		if frozen {
 			return Values(args).ToMap()
-- 
2.43.0


From 9929212798d4029f6c6a30f81ee7d14a0b646240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 53/95] fix: values can't be converted back to pointers to
 pointers, structs, times, errors or named types, a nil *regexp.Regexp gives a
 value that crashes, *time.Time gives a native and a nil element of a
 []dgo.Value crashes the conversion back

---
 internal/array.go   | 15 +++++---------
 internal/binary.go  |  4 +---
 internal/boolean.go |  2 +-
 internal/error.go   |  9 +++++----
 internal/float.go   | 11 ++++------
 internal/integer.go | 49 +++++++++------------------------------------
 internal/map.go     | 14 ++++---------
 internal/native.go  |  6 ++----
 internal/regexp.go  |  4 ++++
 internal/string.go  |  3 +--
 internal/time.go    |  4 ++++
 internal/value.go   | 15 ++++++++++++++
 12 files changed, 55 insertions(+), 81 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 6c68de9..71190c9 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -767,6 +767,7 @@ func ArrayFromReflected(vr reflect.Value, frozen bool) dgo.Value {
 			if frozen {
 				arr = util.SliceCopy(arr)
 			}
+			ReplaceNil(arr)
 		}
 	}
 
@@ -1209,11 +1210,11 @@ func (v *array) Reduce(mi interface{}, reductor func(memo dgo.Value, elem dgo.Va
 }
 
 func (v *array) ReflectTo(value reflect.Value) {
-	vt := value.Type()
-	ptr := vt.Kind() == reflect.Ptr
-	if ptr {
-		vt = vt.Elem()
+	if value.Kind() == reflect.Ptr {
+		reflectToPointer(v, value)
+		return
 	}
+	vt := value.Type()
 	if vt.Kind() == reflect.Interface && vt.Name() == `` {
 		vt = v.Type().ReflectType()
 	}
@@ -1228,12 +1229,6 @@ func (v *array) ReflectTo(value reflect.Value) {
 			ReflectTo(a[i], s.Index(i))
 		}
 	}
-	if ptr {
-		// The created slice cannot be addressed. A pointer to it is necessary
-		x := reflect.New(s.Type())
-		x.Elem().Set(s)
-		s = x
-	}
 	value.Set(s)
 }
 
diff --git a/internal/binary.go b/internal/binary.go
index 0643e36..2e1ba59 100644
--- a/internal/binary.go
+++ b/internal/binary.go
@@ -382,9 +382,7 @@ func (v *binary) HashCode() int {
 func (v *binary) ReflectTo(value reflect.Value) {
 	switch value.Kind() {
 	case reflect.Ptr:
-		x := reflect.New(reflectBinaryType)
-		x.Elem().SetBytes(v.GoBytes())
-		value.Set(x)
+		reflectToPointer(v, value)
 	case reflect.Slice:
 		value.SetBytes(v.GoBytes())
 	default:
diff --git a/internal/boolean.go b/internal/boolean.go
index 54d92a4..522c14a 100644
--- a/internal/boolean.go
+++ b/internal/boolean.go
@@ -154,7 +154,7 @@ func (v boolean) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(b))
 	case reflect.Ptr:
-		value.Set(reflect.ValueOf(&b))
+		reflectToPointer(v, value)
 	default:
 		value.SetBool(b)
 	}
diff --git a/internal/error.go b/internal/error.go
index e051cd0..6cad7e3 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -105,11 +105,12 @@ func (e *errw) Error() string {
 }
 
 func (e *errw) ReflectTo(value reflect.Value) {
-	if value.Kind() == reflect.Ptr {
-		err := e.error // never expose a pointer to the internal error
-		value.Set(reflect.ValueOf(&err))
+	rv := reflect.ValueOf(e.error)
+	if value.Kind() == reflect.Ptr && !rv.Type().AssignableTo(value.Type()) {
+		// never expose a pointer to the internal error
+		reflectToPointer(e, value)
 	} else {
-		value.Set(reflect.ValueOf(e.error))
+		value.Set(rv)
 	}
 }
 
diff --git a/internal/float.go b/internal/float.go
index a09d893..1a62938 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -292,14 +292,11 @@ func (v floatVal) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(float64(v)))
 	case reflect.Ptr:
-		if value.Type().Elem().Kind() == reflect.Float32 {
-			gv := float32(v)
-			value.Set(reflect.ValueOf(&gv))
-		} else {
-			gv := float64(v)
-			value.Set(reflect.ValueOf(&gv))
-		}
+		reflectToPointer(v, value)
 	default:
+		if value.OverflowFloat(float64(v)) {
+			panic(fmt.Errorf(`value %s overflows %s`, v, value.Type()))
+		}
 		value.SetFloat(float64(v))
 	}
 }
diff --git a/internal/integer.go b/internal/integer.go
index bdece49..002f43c 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -306,53 +306,22 @@ func (v intVal) HashCode() int {
 func (v intVal) ReflectTo(value reflect.Value) {
 	switch value.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		if value.OverflowInt(int64(v)) {
+			panic(fmt.Errorf(`value %d overflows %s`, int64(v), value.Type()))
+		}
 		value.SetInt(int64(v))
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if v < 0 || value.OverflowUint(uint64(v)) {
+			panic(fmt.Errorf(`value %d overflows %s`, int64(v), value.Type()))
+		}
 		value.SetUint(uint64(v))
 	case reflect.Ptr:
-		value.Set(v.intPointer(value.Type().Elem().Kind()))
+		reflectToPointer(v, value)
 	default:
 		value.Set(reflect.ValueOf(int64(v)))
 	}
 }
 
-func (v intVal) intPointer(kind reflect.Kind) reflect.Value {
-	var p reflect.Value
-	switch kind {
-	case reflect.Int:
-		gv := int(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int8:
-		gv := int8(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int16:
-		gv := int16(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int32:
-		gv := int32(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint:
-		gv := uint(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint8:
-		gv := uint8(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint16:
-		gv := uint16(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint32:
-		gv := uint32(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint64:
-		gv := uint64(v)
-		p = reflect.ValueOf(&gv)
-	default:
-		gv := int64(v)
-		p = reflect.ValueOf(&gv)
-	}
-	return p
-}
-
 func (v intVal) String() string {
 	return strconv.Itoa(int(v))
 }
@@ -390,12 +359,12 @@ func ToInt(value interface{}) (int64, bool) {
 	case int8:
 		v = int64(value)
 	case uint:
-		if value == math.MaxUint64 {
+		if value > math.MaxInt64 {
 			panic(fmt.Errorf(`value %d overflows int64`, value))
 		}
 		v = int64(value)
 	case uint64:
-		if value == math.MaxUint64 {
+		if value > math.MaxInt64 {
 			panic(fmt.Errorf(`value %d overflows int64`, value))
 		}
 		v = int64(value)
diff --git a/internal/map.go b/internal/map.go
index cb78779..b8fe977 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -713,11 +713,11 @@ func (g *hashMap) PutAll(associations dgo.Map) {
 }
 
 func (g *hashMap) ReflectTo(value reflect.Value) {
-	ht := value.Type()
-	ptr := ht.Kind() == reflect.Ptr
-	if ptr {
-		ht = ht.Elem()
+	if value.Kind() == reflect.Ptr {
+		reflectToPointer(g, value)
+		return
 	}
+	ht := value.Type()
 	if ht.Kind() == reflect.Interface && ht.Name() == `` {
 		ht = g.Type().ReflectType()
 	}
@@ -731,12 +731,6 @@ func (g *hashMap) ReflectTo(value reflect.Value) {
 		ReflectTo(e.Value(), rv)
 		m.SetMapIndex(rk, rv)
 	})
-	if ptr {
-		// The created map cannot be addressed. A pointer to it is necessary
-		x := reflect.New(m.Type())
-		x.Elem().Set(m)
-		m = x
-	}
 	value.Set(m)
 }
 
diff --git a/internal/native.go b/internal/native.go
index 973112f..ced314e 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -145,10 +145,8 @@ func structHash(rv *reflect.Value) int {
 
 func (v *native) ReflectTo(value reflect.Value) {
 	vr := (*reflect.Value)(v)
-	if value.Kind() == reflect.Ptr {
-		p := reflect.New(vr.Type())
-		p.Elem().Set(*vr)
-		value.Set(p)
+	if value.Kind() == reflect.Ptr && !vr.Type().AssignableTo(value.Type()) {
+		reflectToPointer(v, value)
 	} else {
 		value.Set(*vr)
 	}
diff --git a/internal/regexp.go b/internal/regexp.go
index f803e12..7f5a3a1 100644
--- a/internal/regexp.go
+++ b/internal/regexp.go
@@ -117,6 +117,10 @@ func (v *regexpVal) HashCode() int {
 func (v *regexpVal) ReflectTo(value reflect.Value) {
 	rv := reflect.ValueOf((*regexp.Regexp)(v))
 	k := value.Kind()
+	if k == reflect.Ptr && !rv.Type().AssignableTo(value.Type()) {
+		reflectToPointer(v, value)
+		return
+	}
 	if !(k == reflect.Ptr || k == reflect.Interface) {
 		rv = rv.Elem()
 	}
diff --git a/internal/string.go b/internal/string.go
index 1c62aa3..792d526 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -600,8 +600,7 @@ func (v *hstring) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(v.s))
 	case reflect.Ptr:
-		s := v.s // never expose a pointer to the internal string
-		value.Set(reflect.ValueOf(&s))
+		reflectToPointer(v, value)
 	default:
 		value.SetString(v.s)
 	}
diff --git a/internal/time.go b/internal/time.go
index 5d24c68..ddb7be4 100644
--- a/internal/time.go
+++ b/internal/time.go
@@ -172,6 +172,10 @@ func (v *timeVal) HashCode() int {
 func (v *timeVal) ReflectTo(value reflect.Value) {
 	rv := reflect.ValueOf((*time.Time)(v))
 	k := value.Kind()
+	if k == reflect.Ptr && !rv.Type().AssignableTo(value.Type()) {
+		reflectToPointer(v, value)
+		return
+	}
 	if !(k == reflect.Ptr || k == reflect.Interface) {
 		rv = rv.Elem()
 	}
diff --git a/internal/value.go b/internal/value.go
index 8d46ee8..e25ab2a 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -61,9 +61,17 @@ func value(v interface{}) dgo.Value {
 	case []int:
 		dv = Integers(v)
 	case *regexp.Regexp:
+		if v == nil {
+			return Nil
+		}
 		dv = Regexp(v)
 	case time.Time:
 		dv = (*timeVal)(&v)
+	case *time.Time:
+		if v == nil {
+			return Nil
+		}
+		dv = Time(*v)
 	case error:
 		dv = &errw{v}
 	case json.Number:
@@ -163,6 +171,13 @@ func ReflectTo(src dgo.Value, dest reflect.Value) {
 	dest.Set(reflect.ValueOf(src))
 }
 
+// reflectToPointer assigns a pointer to a new Go value to dest. The given dgo.Value is assigned to that Go value
+func reflectToPointer(src dgo.Value, dest reflect.Value) {
+	p := reflect.New(dest.Type().Elem())
+	ReflectTo(src, p.Elem())
+	dest.Set(p)
+}
+
 // Add well known types like regexp, time, etc. here
 var wellKnownTypes = map[reflect.Type]dgo.Type{
 	reflect.TypeOf(&regexp.Regexp{}): DefaultRegexpType,
-- 
2.43.0


From ee858f30721b4328acc2a579365f1b044b0a2d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 54/95] fix: a dgo function can't be passed to a Go function
 that takes a function

---
 internal/function.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/function.go b/internal/function.go
index 4a74a2d..9f74df4 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -367,6 +367,15 @@ func (f *goFunc) Call(args dgo.Array) []dgo.Value {
 	return convertReturn(m.Call(rr))
 }
 
+func (f *goFunc) ReflectTo(value reflect.Value) {
+	rv := *(*reflect.Value)(f)
+	if value.Kind() == reflect.Ptr {
+		reflectToPointer(f, value)
+	} else {
+		value.Set(rv)
+	}
+}
+
 func (f *goFunc) GoFunc() interface{} {
 	return (*reflect.Value)(f).Interface()
 }
-- 
2.43.0


From 37cf7331d955d5b2ee8c0091453a0d951cf6bfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 55/95] fix: a sensitive value or a type can be assigned to a
 pointer (vf.FromValue of a sensitive into *interface{}, call of
 func(*interface{}) with one panicked)

---
 internal/value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/value.go b/internal/value.go
index e25ab2a..2e2c901 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -167,6 +167,10 @@ func ReflectTo(src dgo.Value, dest reflect.Value) {
 			rv.ReflectTo(dest)
 			return
 		}
+		if dest.Kind() == reflect.Ptr && !reflect.TypeOf(src).AssignableTo(dest.Type()) {
+			reflectToPointer(src, dest)
+			return
+		}
 	}
 	dest.Set(reflect.ValueOf(src))
 }
-- 
2.43.0


From b98d20aa5947f21ebad377d9995a665e4ba54c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 56/95] fix: the type of a map that contains itself can be
 printed (stack overflow)

---
 stringer/typestring.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 9344d8e..9bbefca 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -437,14 +437,19 @@ func (sb *typeBuilder) buildTypeString(typ dgo.Type, prio int) {
 
 	ti := typ.TypeIdentifier()
 	if f, ok := sb.complexTypes[ti]; ok {
-		if util.RecursionHit(sb.seen, typ) {
+		var self dgo.Value = typ
+		if ti == dgo.TiArrayExact || ti == dgo.TiMapExact {
+			// the type of a value is created on demand, the value is not
+			self = typ.(dgo.ExactType).ExactValue()
+		}
+		if util.RecursionHit(sb.seen, self) {
 			util.WriteString(sb, `<recursive self reference to `)
 			util.WriteString(sb, ti.String())
 			util.WriteString(sb, ` type>`)
 			return
 		}
 		os := sb.seen
-		sb.seen = append(sb.seen, typ)
+		sb.seen = append(sb.seen, self)
 		f(typ, prio)
 		sb.seen = os
 	} else {
-- 
2.43.0


From f3c4d1250631fe7fb2657af81a0b1a84a4b1cbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 57/95] fix: copying, generic types and reflected types of
 values and types that contain themselves end (FrozenCopy, ThawedCopy, Copy,
 Generic and ReflectType exhausted the stack, the value type of an exact map
 type copied its values)

---
 internal/array.go     | 62 +++++++++++++++++++++---------
 internal/compare.go   | 25 ++++++++++++
 internal/map.go       | 89 +++++++++++++++++++++++--------------------
 internal/mapstruct.go | 17 ++++++++-
 internal/sensitive.go | 28 ++++++++++----
 internal/ternary.go   | 57 ++++++++++++++++++++++-----
 internal/type.go      | 53 ++++++++++++++++++++++++++
 7 files changed, 252 insertions(+), 79 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 71190c9..1351dfb 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -277,7 +277,11 @@ func (t *sizedArrayType) Resolve(ap dgo.AliasAdder) {
 }
 
 func (t *sizedArrayType) ReflectType() reflect.Type {
-	return reflect.SliceOf(t.elementType.ReflectType())
+	return t.deepReflectType(nil)
+}
+
+func (t *sizedArrayType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflectSliceOf(seen, t, t.elementType)
 }
 
 func (t *sizedArrayType) String() string {
@@ -321,7 +325,18 @@ func (t *exactArrayType) ElementTypes() dgo.Array {
 }
 
 func (t *exactArrayType) Generic() dgo.Type {
-	return newArrayType(Generic(t.ElementType()), 0, math.MaxInt64)
+	return t.deepGeneric(nil)
+}
+
+func (t *exactArrayType) deepGeneric(seen []dgo.Value) dgo.Type {
+	if util.RecursionHit(seen, t.value) {
+		return DefaultAnyType
+	}
+	var et dgo.Type = DefaultAnyType
+	if es := t.value.slice; len(es) > 0 {
+		et = commonGeneric(append(seen, t.value), es, genericValueType)
+	}
+	return newArrayType(et, 0, math.MaxInt64)
 }
 
 func (t *exactArrayType) Len() int {
@@ -341,7 +356,11 @@ func (t *exactArrayType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *exactArrayType) ReflectType() reflect.Type {
-	return reflect.SliceOf(t.ElementType().ReflectType())
+	return t.deepReflectType(nil)
+}
+
+func (t *exactArrayType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflectSliceOf(seen, t.value, t.ElementType())
 }
 
 func (t *exactArrayType) Resolve(ap dgo.AliasAdder) {
@@ -554,7 +573,14 @@ func tupleEquals(seen []dgo.Value, t dgo.TupleType, other interface{}) bool {
 }
 
 func (t *tupleType) Generic() dgo.Type {
-	return newArrayType(Generic(t.ElementType()), 0, math.MaxInt64)
+	return t.deepGeneric(nil)
+}
+
+func (t *tupleType) deepGeneric(seen []dgo.Value) dgo.Type {
+	if util.RecursionHit(seen, t) {
+		return DefaultAnyType
+	}
+	return newArrayType(genericType(append(seen, t), t.ElementType()), 0, math.MaxInt64)
 }
 
 func (t *tupleType) HashCode() int {
@@ -657,7 +683,11 @@ func tupleMin(t dgo.TupleType) int {
 }
 
 func (t *tupleType) ReflectType() reflect.Type {
-	return reflect.SliceOf(t.ElementType().ReflectType())
+	return t.deepReflectType(nil)
+}
+
+func (t *tupleType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflectSliceOf(seen, t, t.ElementType())
 }
 
 func (t *tupleType) Resolve(ap dgo.AliasAdder) {
@@ -968,24 +998,20 @@ func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
 }
 
 func (v *array) Copy(frozen bool) dgo.Array {
+	return v.deepCopy(nil, frozen).(dgo.Array)
+}
+
+func (v *array) deepCopy(seen []dgo.Value, frozen bool) dgo.Value {
 	if frozen && v.frozen {
 		return v
 	}
 	cp := util.SliceCopy(v.slice)
-	if frozen {
-		for i := range cp {
-			if f, ok := cp[i].(dgo.Freezable); ok {
-				cp[i] = f.FrozenCopy()
-			}
-		}
-	} else {
-		for i := range cp {
-			if f, ok := cp[i].(dgo.Freezable); ok {
-				cp[i] = f.ThawedCopy()
-			}
-		}
+	c := &array{slice: cp, frozen: frozen}
+	seen = append(seen, v, c)
+	for i := range cp {
+		cp[i] = copyValue(seen, cp[i], frozen)
 	}
-	return &array{slice: cp, frozen: frozen}
+	return c
 }
 
 func (v *array) ContainsAll(other dgo.Iterable) bool {
diff --git a/internal/compare.go b/internal/compare.go
index e8b2378..d99184a 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -183,3 +183,28 @@ func compare(seen []dgo.Value, a dgo.Value, b dgo.Value) (int, bool) {
 	}
 	return da.deepCompare(append(seen, a, b), db)
 }
+
+// deepCopy is implemented by values that may contain themselves.
+type deepCopy interface {
+	deepCopy(seen []dgo.Value, frozen bool) dgo.Value
+}
+
+// copyValue returns a frozen or thawed copy of the given value. The given seen slice contains pairs of the values that
+// are being copied and their copies. It is used to prevent endless recursion.
+func copyValue(seen []dgo.Value, v dgo.Value, frozen bool) dgo.Value {
+	if dc, ok := v.(deepCopy); ok {
+		for i := 0; i < len(seen); i += 2 {
+			if seen[i] == v {
+				return seen[i+1]
+			}
+		}
+		return dc.deepCopy(seen, frozen)
+	}
+	if f, ok := v.(dgo.Freezable); ok {
+		if frozen {
+			return f.FrozenCopy()
+		}
+		return f.ThawedCopy()
+	}
+	return v
+}
diff --git a/internal/map.go b/internal/map.go
index b8fe977..8d04eee 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -124,19 +124,19 @@ func (v *mapEntry) Frozen() bool {
 }
 
 func (v *mapEntry) FrozenCopy() dgo.Value {
-	if v.Frozen() {
-		return v
-	}
-	c := &mapEntry{key: v.key, value: v.value}
-	c.copyFreeze()
-	return c
+	return v.deepCopy(nil, true)
 }
 
 func (v *mapEntry) ThawedCopy() dgo.Value {
-	c := &mapEntry{key: v.key, value: v.value}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		c.value = f.ThawedCopy()
+	return v.deepCopy(nil, false)
+}
+
+func (v *mapEntry) deepCopy(seen []dgo.Value, frozen bool) dgo.Value {
+	if frozen && v.Frozen() {
+		return v
 	}
+	c := &mapEntry{key: v.key}
+	c.value = copyValue(append(seen, v, c), v.value, frozen)
 	return c
 }
 
@@ -146,17 +146,19 @@ func (v *hashNode) Frozen() bool {
 }
 
 func (v *hashNode) FrozenCopy() dgo.Value {
-	if v.Frozen() {
-		return v
-	}
-	c := v.detached()
-	c.copyFreeze()
-	return c
+	return v.deepCopy(nil, true)
 }
 
 func (v *hashNode) ThawedCopy() dgo.Value {
+	return v.deepCopy(nil, false)
+}
+
+func (v *hashNode) deepCopy(seen []dgo.Value, frozen bool) dgo.Value {
+	if frozen && v.Frozen() {
+		return v
+	}
 	c := v.detached()
-	c.copyThaw()
+	c.value = copyValue(append(seen, v, c), v.value, frozen)
 	return c
 }
 
@@ -193,18 +195,6 @@ func (v *mapEntry) Value() dgo.Value {
 	return v.value
 }
 
-func (v *mapEntry) copyFreeze() {
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.FrozenCopy()
-	}
-}
-
-func (v *mapEntry) copyThaw() {
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
-}
-
 var emptyMap = &hashMap{frozen: true}
 
 // Map creates an immutable dgo.Map from the given slice which must have 0, 1, or an
@@ -445,20 +435,19 @@ func (g *hashMap) ContainsKey(key interface{}) bool {
 }
 
 func (g *hashMap) Copy(frozen bool) dgo.Map {
+	return g.deepCopy(nil, frozen).(dgo.Map)
+}
+
+func (g *hashMap) deepCopy(seen []dgo.Value, frozen bool) dgo.Value {
 	if frozen && g.frozen {
 		return g
 	}
 
 	c := &hashMap{len: g.len, frozen: frozen}
 	g.resize(c, 0)
-	if frozen {
-		for e := c.first; e != nil; e = e.next {
-			e.copyFreeze()
-		}
-	} else {
-		for e := c.first; e != nil; e = e.next {
-			e.copyThaw()
-		}
+	seen = append(seen, g, c)
+	for e := c.first; e != nil; e = e.next {
+		e.value = copyValue(seen, e.value, frozen)
 	}
 	return c
 }
@@ -1156,7 +1145,11 @@ func (t *sizedMapType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *sizedMapType) ReflectType() reflect.Type {
-	return reflect.MapOf(t.KeyType().ReflectType(), t.ValueType().ReflectType())
+	return t.deepReflectType(nil)
+}
+
+func (t *sizedMapType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflectMapOf(seen, t, t.KeyType(), t.ValueType())
 }
 
 func (t *sizedMapType) Resolve(ap dgo.AliasAdder) {
@@ -1265,8 +1258,16 @@ func (t *exactMapType) Each(actor func(dgo.StructMapEntry)) {
 }
 
 func (t *exactMapType) Generic() dgo.Type {
-	kt := Generic(t.KeyType())
-	vt := Generic(t.ValueType())
+	return t.deepGeneric(nil)
+}
+
+func (t *exactMapType) deepGeneric(seen []dgo.Value) dgo.Type {
+	if util.RecursionHit(seen, t.value) {
+		return DefaultAnyType
+	}
+	seen = append(seen, t.value)
+	kt := genericType(seen, t.KeyType())
+	vt := genericType(seen, t.ValueType())
 	if kt == DefaultAnyType && vt == DefaultAnyType {
 		return DefaultMapType
 	}
@@ -1313,7 +1314,11 @@ func (t *exactMapType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *exactMapType) ReflectType() reflect.Type {
-	return reflect.MapOf(t.KeyType().ReflectType(), t.ValueType().ReflectType())
+	return t.deepReflectType(nil)
+}
+
+func (t *exactMapType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflectMapOf(seen, t.value, t.KeyType(), t.ValueType())
 }
 
 func (t *exactMapType) Resolve(ap dgo.AliasAdder) {
@@ -1343,7 +1348,9 @@ func (t *exactMapType) ValueType() dgo.Type {
 	if l == 0 {
 		return DefaultAnyType
 	}
-	return (*allOfValueType)(arrayFromIterator(l, t.value.EachValue))
+	vs := make([]dgo.Value, 0, l)
+	t.value.EachValue(func(v dgo.Value) { vs = append(vs, v) })
+	return (*allOfValueType)(&array{slice: vs, frozen: true})
 }
 
 func frozenMap(f string) error {
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 772f4e8..52af9d0 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/util"
 )
 
 type (
@@ -229,11 +230,19 @@ func (t *structType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func (t *structType) Generic() dgo.Type {
+	return t.deepGeneric(nil)
+}
+
+func (t *structType) deepGeneric(seen []dgo.Value) dgo.Type {
 	if t.additional {
 		// keys and values that aren't described by the type are accepted
 		return DefaultMapType
 	}
-	return newMapType(Generic(t.KeyType()), Generic(t.ValueType()), 0, math.MaxInt64)
+	if util.RecursionHit(seen, t) {
+		return DefaultAnyType
+	}
+	seen = append(seen, t)
+	return newMapType(genericType(seen, t.KeyType()), genericType(seen, t.ValueType()), 0, math.MaxInt64)
 }
 
 func (t *structType) HashCode() int {
@@ -324,7 +333,11 @@ func (t *structType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *structType) ReflectType() reflect.Type {
-	return reflect.MapOf(t.KeyType().ReflectType(), t.ValueType().ReflectType())
+	return t.deepReflectType(nil)
+}
+
+func (t *structType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflectMapOf(seen, t, t.KeyType(), t.ValueType())
 }
 
 func (t *structType) Resolve(ap dgo.AliasAdder) {
diff --git a/internal/sensitive.go b/internal/sensitive.go
index 6ccc58f..a55bcb3 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/util"
 )
 
 type (
@@ -163,17 +164,21 @@ func (v *sensitive) Frozen() bool {
 }
 
 func (v *sensitive) FrozenCopy() dgo.Value {
-	if f, ok := v.value.(dgo.Freezable); ok && !f.Frozen() {
-		return &sensitive{&secret{f.FrozenCopy()}}
-	}
-	return v
+	return v.deepCopy(nil, true)
 }
 
 func (v *sensitive) ThawedCopy() dgo.Value {
-	if f, ok := v.value.(dgo.Freezable); ok {
-		return &sensitive{&secret{f.ThawedCopy()}}
+	return v.deepCopy(nil, false)
+}
+
+func (v *sensitive) deepCopy(seen []dgo.Value, frozen bool) dgo.Value {
+	f, ok := v.value.(dgo.Freezable)
+	if !ok || frozen && f.Frozen() {
+		return v
 	}
-	return v
+	c := &sensitive{&secret{}}
+	c.value = copyValue(append(seen, v, c), v.value, frozen)
+	return c
 }
 
 func (v *sensitive) HashCode() int {
@@ -193,7 +198,14 @@ func (v *sensitive) String() string {
 }
 
 func (v *sensitive) Type() dgo.Type {
-	return &sensitiveType{wrapped: Generic(v.value.Type())}
+	return v.deepType(nil)
+}
+
+func (v *sensitive) deepType(seen []dgo.Value) dgo.Type {
+	if util.RecursionHit(seen, v) {
+		return DefaultAnyType
+	}
+	return &sensitiveType{wrapped: genericValueType(append(seen, v), v.value)}
 }
 
 func (v *sensitive) Unwrap() dgo.Value {
diff --git a/internal/ternary.go b/internal/ternary.go
index 4aa3260..3111a73 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -4,6 +4,7 @@ import (
 	"reflect"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/util"
 )
 
 type (
@@ -88,7 +89,14 @@ func (t *allOfType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func (t *allOfType) Generic() dgo.Type {
-	return commonGeneric(t.slice, typeAsType)
+	return t.deepGeneric(nil)
+}
+
+func (t *allOfType) deepGeneric(seen []dgo.Value) dgo.Type {
+	if util.RecursionHit(seen, t) {
+		return DefaultAnyType
+	}
+	return commonGeneric(append(seen, t), t.slice, genericType)
 }
 
 func (t *allOfType) HashCode() int {
@@ -122,7 +130,14 @@ func (t *allOfType) Operator() dgo.TypeOp {
 }
 
 func (t *allOfType) ReflectType() reflect.Type {
-	return commonReflectTo(t.slice, typeAsType)
+	return t.deepReflectType(nil)
+}
+
+func (t *allOfType) deepReflectType(seen []dgo.Value) reflect.Type {
+	if util.RecursionHit(seen, t) {
+		return reflectAnyType
+	}
+	return commonReflectTo(append(seen, t), t.slice, reflectType)
 }
 
 func (t *allOfType) Resolve(ap dgo.AliasAdder) {
@@ -178,7 +193,11 @@ func (t *allOfValueType) AssignableTo(guard dgo.RecursionGuard, other dgo.Type)
 }
 
 func (t *allOfValueType) Generic() dgo.Type {
-	return commonGeneric(t.slice, valueAsType)
+	return t.deepGeneric(nil)
+}
+
+func (t *allOfValueType) deepGeneric(seen []dgo.Value) dgo.Type {
+	return commonGeneric(seen, t.slice, genericValueType)
 }
 
 func (t *allOfValueType) Equals(other interface{}) bool {
@@ -226,7 +245,11 @@ func (t *allOfValueType) Operator() dgo.TypeOp {
 }
 
 func (t *allOfValueType) ReflectType() reflect.Type {
-	return commonReflectTo(t.slice, valueAsType)
+	return t.deepReflectType(nil)
+}
+
+func (t *allOfValueType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return commonReflectTo(seen, t.slice, reflectValueTypeOf)
 }
 
 func (t *allOfValueType) String() string {
@@ -334,7 +357,14 @@ func (t *anyOfType) Operator() dgo.TypeOp {
 }
 
 func (t *anyOfType) ReflectType() reflect.Type {
-	return commonReflectTo(t.slice, typeAsType)
+	return t.deepReflectType(nil)
+}
+
+func (t *anyOfType) deepReflectType(seen []dgo.Value) reflect.Type {
+	if util.RecursionHit(seen, t) {
+		return reflectAnyType
+	}
+	return commonReflectTo(append(seen, t), t.slice, reflectType)
 }
 
 func (t *anyOfType) Resolve(ap dgo.AliasAdder) {
@@ -461,7 +491,14 @@ func (t *oneOfType) Operator() dgo.TypeOp {
 }
 
 func (t *oneOfType) ReflectType() reflect.Type {
-	return commonReflectTo(t.slice, typeAsType)
+	return t.deepReflectType(nil)
+}
+
+func (t *oneOfType) deepReflectType(seen []dgo.Value) reflect.Type {
+	if util.RecursionHit(seen, t) {
+		return reflectAnyType
+	}
+	return commonReflectTo(append(seen, t), t.slice, reflectType)
 }
 
 func (t *oneOfType) Resolve(ap dgo.AliasAdder) {
@@ -485,10 +522,10 @@ func (t *oneOfType) TypeIdentifier() dgo.TypeIdentifier {
 
 // commonGeneric returns the least generic type that is assignable from all types given
 // in the slice.
-func commonGeneric(s []dgo.Value, fc func(dgo.Value) dgo.Type) dgo.Type {
+func commonGeneric(seen []dgo.Value, s []dgo.Value, fc func([]dgo.Value, dgo.Value) dgo.Type) dgo.Type {
 	gs := make([]dgo.Type, len(s))
 	for i := range s {
-		gs[i] = Generic(fc(s[i]))
+		gs[i] = fc(seen, s[i])
 	}
 nextType:
 	for i := range gs {
@@ -503,10 +540,10 @@ nextType:
 	return DefaultAnyType
 }
 
-func commonReflectTo(s []dgo.Value, fc func(dgo.Value) dgo.Type) reflect.Type {
+func commonReflectTo(seen []dgo.Value, s []dgo.Value, fc func([]dgo.Value, dgo.Value) reflect.Type) reflect.Type {
 	var prev reflect.Type
 	for i := range s {
-		rt := fc(s[i]).ReflectType()
+		rt := fc(seen, s[i])
 		if prev != nil {
 			if rt.AssignableTo(prev) {
 				// prev is equal or more generic
diff --git a/internal/type.go b/internal/type.go
index 5d49bb7..8a7092f 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/util"
 )
 
 // CheckAssignableTo checks if the given type t implements the ReverseAssignable interface and if
@@ -79,6 +80,58 @@ func Generic(t dgo.Type) dgo.Type {
 	return t
 }
 
+// deepGeneric is implemented by types that may contain themselves. The given seen slice contains the types and values that
+// are being made generic. It is used to prevent endless recursion. A recursive reference becomes the any type.
+type deepGeneric interface {
+	deepGeneric(seen []dgo.Value) dgo.Type
+}
+
+func genericType(seen []dgo.Value, t dgo.Value) dgo.Type {
+	if dg, ok := t.(deepGeneric); ok {
+		return dg.deepGeneric(seen)
+	}
+	return Generic(t.(dgo.Type))
+}
+
+func genericValueType(seen []dgo.Value, v dgo.Value) dgo.Type {
+	if s, ok := v.(*sensitive); ok {
+		return s.deepType(seen)
+	}
+	return genericType(seen, v.Type())
+}
+
+// deepReflectType is implemented by types that may contain themselves. The given seen slice contains the types and values
+// that are being reflected. It is used to prevent endless recursion. A recursive reference becomes interface{}.
+type deepReflectType interface {
+	deepReflectType(seen []dgo.Value) reflect.Type
+}
+
+func reflectType(seen []dgo.Value, t dgo.Value) reflect.Type {
+	if dr, ok := t.(deepReflectType); ok {
+		return dr.deepReflectType(seen)
+	}
+	return t.(dgo.Type).ReflectType()
+}
+
+func reflectValueTypeOf(seen []dgo.Value, v dgo.Value) reflect.Type {
+	return reflectType(seen, v.Type())
+}
+
+func reflectSliceOf(seen []dgo.Value, t dgo.Value, e dgo.Type) reflect.Type {
+	if util.RecursionHit(seen, t) {
+		return reflectAnyType
+	}
+	return reflect.SliceOf(reflectType(append(seen, t), e))
+}
+
+func reflectMapOf(seen []dgo.Value, t dgo.Value, k, v dgo.Type) reflect.Type {
+	if util.RecursionHit(seen, t) {
+		return reflectAnyType
+	}
+	seen = append(seen, t)
+	return reflect.MapOf(reflectType(seen, k), reflectType(seen, v))
+}
+
 func illegalArgument(name, expected interface{}, args []interface{}, argno int) error {
 	if len(args) == 1 {
 		return fmt.Errorf(`illegal argument for %s. Expected %s, got %s`, name, expected, Value(args[argno]))
-- 
2.43.0


From 6e187791b61518c970263c713d8b5bec9fba03a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 58/95] fix: a Go type that contains itself can be converted to
 a type (stack overflow)

---
 internal/type.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/type.go b/internal/type.go
index 8a7092f..8bc9757 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -22,18 +22,31 @@ func CheckAssignableTo(guard dgo.RecursionGuard, t, other dgo.Type) bool {
 
 // TypeFromReflected returns the dgo.Type that represents the given reflected type
 func TypeFromReflected(vt reflect.Type) dgo.Type {
+	return typeFromReflected(nil, vt)
+}
+
+// typeFromReflected keeps track of the types that are being converted in seen. A Go type that contains itself has no
+// corresponding type so the recursive reference becomes the any type.
+func typeFromReflected(seen []reflect.Type, vt reflect.Type) dgo.Type {
 	if pt, ok := wellKnownTypes[vt]; ok {
 		return pt
 	}
 
+	for i := range seen {
+		if seen[i] == vt {
+			return DefaultAnyType
+		}
+	}
+	seen = append(seen, vt)
+
 	kind := vt.Kind()
 	switch kind {
 	case reflect.Slice, reflect.Array:
-		return ArrayType([]interface{}{TypeFromReflected(vt.Elem()), 0, math.MaxInt64})
+		return ArrayType([]interface{}{typeFromReflected(seen, vt.Elem()), 0, math.MaxInt64})
 	case reflect.Map:
-		return MapType([]interface{}{TypeFromReflected(vt.Key()), TypeFromReflected(vt.Elem()), 0, math.MaxInt64})
+		return MapType([]interface{}{typeFromReflected(seen, vt.Key()), typeFromReflected(seen, vt.Elem()), 0, math.MaxInt64})
 	case reflect.Ptr:
-		return OneOfType([]interface{}{TypeFromReflected(vt.Elem()), DefaultNilType})
+		return OneOfType([]interface{}{typeFromReflected(seen, vt.Elem()), DefaultNilType})
 	case reflect.Func:
 		return exactFunctionType{vt}
 	case reflect.Interface:
-- 
2.43.0


From 7d851a508f2c156130b346b70be513c5e499f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 59/95] fix: a float without fraction is an integer after
 MarshalJSON and UnmarshalJSON

---
 streamer/json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamer/json.go b/streamer/json.go
index 3b362c8..9c31341 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -226,7 +226,10 @@ func (j *jsonEncoder) write(e dgo.Value) {
 	case dgo.String:
 		v, err = json.Marshal(e.GoString())
 	case dgo.Float:
-		v, err = json.Marshal(e.GoFloat())
+		if v, err = json.Marshal(e.GoFloat()); err == nil && !bytes.ContainsAny(v, `.e`) {
+			// retain the distinction between floats and integers
+			v = append(v, '.', '0')
+		}
 	case dgo.Integer:
 		v, err = json.Marshal(e.GoInt())
 	case dgo.Boolean:
-- 
2.43.0


From 43d4866bca8b7f5d255adba80f4fc2297f9af7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 60/95] fix: MarshalJSON writes references of the dgo dialect
 when another dialect is given, so that they can't be read

---
 streamer/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer/json.go b/streamer/json.go
index 9c31341..94bf276 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -25,7 +25,7 @@ func MarshalJSON(v interface{}, dialect Dialect) []byte {
 	if dialect != nil {
 		opts.Dialect = dialect
 	}
-	New(nil, opts).Stream(vf.Value(v), JSON(&b))
+	New(nil, opts).Stream(vf.Value(v), &jsonEncoder{out: &b, state: firstInArray, dialect: opts.Dialect})
 	return b.Bytes()
 }
 
-- 
2.43.0


From 30b0e6eb4b1fa943f5290f0ca65991ae207a0fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 61/95] fix: UnmarshalJSON ignores everything that follows the
 first value

---
 streamer/json.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/streamer/json.go b/streamer/json.go
index 94bf276..21ad02c 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -3,6 +3,7 @@ package streamer
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 
@@ -48,6 +49,12 @@ func UnmarshalJSON(b []byte, dialect Dialect) dgo.Value {
 
 	j := &jsonDecoder{consumer: vc, refKey: opts.Dialect.RefKey().GoString(), decoder: je}
 	j.decode()
+	if _, err := je.Token(); err != io.EOF {
+		if err == nil {
+			err = errors.New(`unexpected data after end of value`)
+		}
+		panic(err)
+	}
 	return vc.Value()
 }
 
-- 
2.43.0


From e8e04650cccd7ff89ef5eaa7dee832f700773386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 62/95] fix: UnmarshalJSON decodes a number that is out of
 range as infinity

---
 streamer/json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamer/json.go b/streamer/json.go
index 21ad02c..6d62515 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -84,7 +84,8 @@ func (j *jsonDecoder) decodeElem(end json.Delim) bool {
 		if i, err := t.Int64(); err == nil {
 			j.consumer.Add(vf.Integer(i))
 		} else {
-			f, _ := t.Float64()
+			f, err := t.Float64()
+			assertOk(0, err)
 			j.consumer.Add(vf.Float(f))
 		}
 	case bool:
-- 
2.43.0


From f949ba22121f5308d6bde812d242dfd758e57d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 63/95] fix: a reference to a value that doesn't exist causes a
 runtime error (index out of range)

---
 streamer/basiccollector.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/streamer/basiccollector.go b/streamer/basiccollector.go
index 1b89ba1..013bd8a 100644
--- a/streamer/basiccollector.go
+++ b/streamer/basiccollector.go
@@ -1,6 +1,8 @@
 package streamer
 
 import (
+	"fmt"
+
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/vf"
 )
@@ -61,6 +63,9 @@ func (c *BasicCollector) Add(element dgo.Value) {
 
 // AddRef adds the nth value of the values that has been added once again.
 func (c *BasicCollector) AddRef(ref int) {
+	if ref < 0 || ref >= c.Values.Len() {
+		panic(fmt.Errorf(`reference %d is out of range, %d values have been added`, ref, c.Values.Len()))
+	}
 	c.StackTop().Add(c.Values.Get(ref))
 }
 
-- 
2.43.0


From 3aa98fb37616f84c8ab956d41b480564c6cc491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 64/95] fix: rich data of the wrong kind
 ({"__type":"binary","__value":3}) causes a runtime error in the decoder

---
 streamer/decoder.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 9cd2b36..15aace5 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -54,7 +54,7 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 
 	switch {
 	case ts.Equals(dl.MapTypeName()):
-		nm := mv.(dgo.Array).ToMap()
+		nm := d.arrayValue(ts, mv, 0).ToMap()
 		// Replace all occurrences of m in the new map recursively with the new map as it
 		// might contain references to itself
 		replaceInstance(m, nm, nm)
@@ -62,18 +62,19 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 	case ts.Equals(dl.SensitiveTypeName()):
 		v = vf.Sensitive(mv)
 	case ts.Equals(dl.BinaryTypeName()):
-		v = vf.BinaryFromString(mv.(dgo.String).GoString())
+		v = vf.BinaryFromString(d.stringValue(ts, mv).GoString())
 	case ts.Equals(dl.TimeTypeName()):
-		t, err := time.Parse(time.RFC3339Nano, mv.(dgo.String).GoString())
+		t, err := time.Parse(time.RFC3339Nano, d.stringValue(ts, mv).GoString())
 		if err != nil {
 			panic(err)
 		}
 		v = vf.Time(t)
 	case ts.Equals(dl.AliasTypeName()):
-		ad := mv.(dgo.Array)
-		v = dl.ParseType(nil, ad.Get(1).(dgo.String))
+		ad := d.arrayValue(ts, mv, 2)
+		name := d.stringValue(ts, ad.Get(0))
+		v = dl.ParseType(nil, d.stringValue(ts, ad.Get(1)))
 		if d.aliasMap != nil {
-			d.aliasMap.Add(v.(dgo.Type), ad.Get(0).(dgo.String))
+			d.aliasMap.Add(v.(dgo.Type), name)
 		}
 	default:
 		tp := tf.Named(ts.GoString())
@@ -85,6 +86,22 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 	return v
 }
 
+// stringValue asserts that the given value is a string
+func (d *dataDecoder) stringValue(ts dgo.String, v dgo.Value) dgo.String {
+	if s, ok := v.(dgo.String); ok {
+		return s
+	}
+	panic(fmt.Errorf(`unable to decode %s: %s, expected a string, got %s`, d.dialect.TypeKey(), ts, v.Type()))
+}
+
+// arrayValue asserts that the given value is an array with at least min elements
+func (d *dataDecoder) arrayValue(ts dgo.String, v dgo.Value, min int) dgo.Array {
+	if a, ok := v.(dgo.Array); ok && a.Len() >= min {
+		return a
+	}
+	panic(fmt.Errorf(`unable to decode %s: %s, expected an array, got %s`, d.dialect.TypeKey(), ts, v.Type()))
+}
+
 func replaceInstance(orig, repl, in dgo.Value) (dgo.Value, bool) {
 	if in == orig {
 		return repl, true
-- 
2.43.0


From 7279e3df4fc4899ceb12491204e20aab697fa127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 65/95] fix: a reference to a type, binary, time, sensitive or
 map with non string keys is decoded as the map that represents it

---
 streamer/decoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 15aace5..98e4d77 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -32,11 +32,14 @@ func (d *dataDecoder) Init() {
 // AddMap initializes and adds a new map and then calls the function with is supposed to
 // add an even number of elements as a sequence of key, value, [key, value, ...]
 func (d *dataDecoder) AddMap(cap int, doer dgo.Doer) {
+	ref := d.Values.Len()
 	d.BasicCollector.AddMap(cap, doer)
 	m := d.PeekLast().(dgo.Map)
 	dl := d.dialect
 	if ts, ok := m.Get(dl.TypeKey()).(dgo.String); ok {
-		d.ReplaceLast(d.decode(ts, m))
+		v := d.decode(ts, m)
+		d.ReplaceLast(v)
+		d.Values.Set(ref, v)
 	}
 }
 
-- 
2.43.0


From 02a8165da786278fb24f1c3fae8f7c1bedee0538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 66/95] fix: a cyclic value inside of a map with non string
 keys exhausts the stack of the decoder, a sensitive in a cycle isn't restored

---
 streamer/decoder.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 98e4d77..3c8dc1c 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -2,6 +2,7 @@ package streamer
 
 import (
 	"fmt"
+	"reflect"
 	"time"
 
 	"github.com/lyraproj/dgo/dgo"
@@ -60,10 +61,11 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 		nm := d.arrayValue(ts, mv, 0).ToMap()
 		// Replace all occurrences of m in the new map recursively with the new map as it
 		// might contain references to itself
-		replaceInstance(m, nm, nm)
+		replaceInstance(m, nm, nm, make(map[dgo.Value]dgo.Value))
 		v = nm
 	case ts.Equals(dl.SensitiveTypeName()):
 		v = vf.Sensitive(mv)
+		replaceInstance(m, v, mv, make(map[dgo.Value]dgo.Value))
 	case ts.Equals(dl.BinaryTypeName()):
 		v = vf.BinaryFromString(d.stringValue(ts, mv).GoString())
 	case ts.Equals(dl.TimeTypeName()):
@@ -105,33 +107,46 @@ func (d *dataDecoder) arrayValue(ts dgo.String, v dgo.Value, min int) dgo.Array
 	panic(fmt.Errorf(`unable to decode %s: %s, expected an array, got %s`, d.dialect.TypeKey(), ts, v.Type()))
 }
 
-func replaceInstance(orig, repl, in dgo.Value) (dgo.Value, bool) {
+// replaceInstance replaces all occurrences of orig in the given value with repl. The done map contains the outcome
+// for values that have been visited already. The returned bool is true when the returned value isn't the given one.
+func replaceInstance(orig, repl, in dgo.Value, done map[dgo.Value]dgo.Value) (dgo.Value, bool) {
 	if in == orig {
 		return repl, true
 	}
 
-	replaceHappened := false
+	switch in.(type) {
+	case dgo.Map, dgo.Array, dgo.Sensitive:
+		if !reflect.TypeOf(in).Comparable() {
+			return in, false
+		}
+	default:
+		return in, false
+	}
+
+	if out, ok := done[in]; ok {
+		return out, out != in
+	}
+	done[in] = in
 
 	switch iv := in.(type) {
 	case dgo.Map:
 		iv.EachEntry(func(v dgo.MapEntry) {
-			if re, rh := replaceInstance(orig, repl, v.Value()); rh {
-				replaceHappened = true
+			if re, rh := replaceInstance(orig, repl, v.Value(), done); rh {
 				iv.Put(v.Key(), re)
 			}
 		})
 	case dgo.Array:
 		iv.EachWithIndex(func(v dgo.Value, i int) {
-			if re, rh := replaceInstance(orig, repl, v); rh {
-				replaceHappened = true
+			if re, rh := replaceInstance(orig, repl, v, done); rh {
 				iv.Set(i, re)
 			}
 		})
 	case dgo.Sensitive:
-		if rw, rh := replaceInstance(orig, repl, iv.Unwrap()); rh {
-			replaceHappened = true
+		if rw, rh := replaceInstance(orig, repl, iv.Unwrap(), done); rh {
 			in = vf.Sensitive(rw)
+			done[iv] = in
+			return in, true
 		}
 	}
-	return in, replaceHappened
+	return in, false
 }
-- 
2.43.0


From 9248cd5963f7206e3a305589022781321c41ff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 67/95] fix: a type is streamed as rich data when rich data is
 off

---
 streamer/streamer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index b78b8db..0f7e5c2 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -177,6 +177,9 @@ func (sc *context) emitString(value dgo.String) {
 
 func (sc *context) emitType(typ dgo.Type) {
 	sc.process(typ, func() {
+		if !sc.config.RichData {
+			panic(sc.unknownSerialization(typ))
+		}
 		sc.addMap(2, func() {
 			d := sc.config.Dialect
 			sc.addData(d.TypeKey())
-- 
2.43.0


From bcaa0abe29e6e8c80ce0e9f665f1f1f2d5ec2ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 68/95] fix: a type that has no alias is streamed as a key
 without value when aliases are given

---
 streamer/streamer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index 0f7e5c2..dc1e224 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -188,10 +188,10 @@ func (sc *context) emitType(typ dgo.Type) {
 					sc.addData(d.AliasTypeName())
 					sc.addData(d.ValueKey())
 					sc.emitData(vf.Values(tn, typ.String()))
+					return
 				}
-			} else {
-				sc.addData(vf.String(typ.String()))
 			}
+			sc.addData(vf.String(typ.String()))
 		})
 	})
 }
-- 
2.43.0


From e322c9ee04a2dc51ada625551b0b2eaab4b070ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 69/95] fix: a sensitive that is part of a cycle and occurs
 more than once is decoded as a sensitive of the map that represents the
 content

---
 streamer/decoder.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 3c8dc1c..bc50a10 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -40,7 +40,16 @@ func (d *dataDecoder) AddMap(cap int, doer dgo.Doer) {
 	if ts, ok := m.Get(dl.TypeKey()).(dgo.String); ok {
 		v := d.decode(ts, m)
 		d.ReplaceLast(v)
-		d.Values.Set(ref, v)
+
+		// Replace all occurrences of m with the new value. Both the new value and the values that have been
+		// added since the map was added might contain references to m
+		done := make(map[dgo.Value]dgo.Value)
+		replaceInstance(m, v, v, done)
+		for n := d.Values.Len(); ref < n; ref++ {
+			if re, rh := replaceInstance(m, v, d.Values.Get(ref), done); rh {
+				d.Values.Set(ref, re)
+			}
+		}
 	}
 }
 
@@ -58,14 +67,9 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 
 	switch {
 	case ts.Equals(dl.MapTypeName()):
-		nm := d.arrayValue(ts, mv, 0).ToMap()
-		// Replace all occurrences of m in the new map recursively with the new map as it
-		// might contain references to itself
-		replaceInstance(m, nm, nm, make(map[dgo.Value]dgo.Value))
-		v = nm
+		v = d.arrayValue(ts, mv, 0).ToMap()
 	case ts.Equals(dl.SensitiveTypeName()):
 		v = vf.Sensitive(mv)
-		replaceInstance(m, v, mv, make(map[dgo.Value]dgo.Value))
 	case ts.Equals(dl.BinaryTypeName()):
 		v = vf.BinaryFromString(d.stringValue(ts, mv).GoString())
 	case ts.Equals(dl.TimeTypeName()):
-- 
2.43.0


From 9dd3ddb44e0fdc1c927375eaaf9da60fa0032b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:52 +0000
Subject: [PATCH 70/95] fix: a finder result that conflicts with loaded entries
 is added in part, and concurrent loads return values that aren't the loaded
 one

---
 loader/loader.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/loader/loader.go b/loader/loader.go
index 1a2b02a..54efd96 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -189,24 +189,27 @@ func (l *loader) add(key, value dgo.Value) dgo.Value {
 	l.lock.Lock()
 	defer l.lock.Unlock()
 
-	addEntry := func(key, value dgo.Value) {
-		if old := l.entries.Get(key); old == nil {
-			l.entries.Put(key, value)
-		} else if !old.Equals(value) {
-			panic(fmt.Errorf(`attempt to override entry %q`, key))
-		}
+	m, ok := value.(multipleEntries)
+	if !ok {
+		m = multipleEntries{vf.MapWithCapacity(1)}
+		m.Put(key, value)
+	}
+	if m.Get(key) == nil {
+		panic(fmt.Errorf(`map returned from finder doesn't contain original key %q`, key))
 	}
 
-	if m, ok := value.(multipleEntries); ok {
-		value = m.Get(key)
-		if value == nil {
-			panic(fmt.Errorf(`map returned from finder doesn't contain original key %q`, key))
+	// Check all entries before adding any of them.
+	m.EachEntry(func(e dgo.MapEntry) {
+		if old := l.entries.Get(e.Key()); !(old == nil || old.Equals(e.Value())) {
+			panic(fmt.Errorf(`attempt to override entry %q`, e.Key()))
 		}
-		m.EachEntry(func(e dgo.MapEntry) { addEntry(e.Key(), e.Value()) })
-	} else {
-		addEntry(key, value)
-	}
-	return value
+	})
+	m.EachEntry(func(e dgo.MapEntry) {
+		if l.entries.Get(e.Key()) == nil {
+			l.entries.Put(e.Key(), e.Value())
+		}
+	})
+	return l.entries.Get(key)
 }
 
 func (l *loader) Equals(other interface{}) bool {
-- 
2.43.0


From be46ea0406c9e53d002ee928c7aca03c9621abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 71/95] fix: a loader is altered through maps given to or
 obtained from its named type, and its Equals, HashCode and String read
 entries without lock

---
 loader/loader.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/loader/loader.go b/loader/loader.go
index 54efd96..43de80f 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -94,7 +94,7 @@ var Type = tf.NewNamed(`mapLoader`,
 
 func (l *mapLoader) init(im dgo.Map) {
 	l.name = im.Get(`name`).(dgo.String).GoString()
-	l.entries = im.Get(`entries`).(dgo.Map)
+	l.entries = im.Get(`entries`).(dgo.Map).FrozenCopy().(dgo.Map)
 }
 
 func (l *mapLoader) initMap() dgo.Map {
@@ -176,12 +176,23 @@ var MutableType = tf.NewNamed(`loader`,
 
 func (l *loader) init(im dgo.Map) {
 	l.mapLoader.init(im)
-	l.namespaces = im.Get(`namespaces`).(dgo.Map)
+	l.namespaces = im.Get(`namespaces`).(dgo.Map).Copy(false)
+}
+
+// snapshot returns copies of the current entries and namespaces. No locks are held when the copies are used since
+// that may involve locks of other loaders.
+func (l *loader) snapshot() (entries, namespaces dgo.Map) {
+	l.lock.RLock()
+	defer l.lock.RUnlock()
+	return l.entries.Copy(false), l.namespaces.Copy(false)
 }
 
 func (l *loader) initMap() dgo.Map {
-	m := l.mapLoader.initMap()
-	m.Put(`namespaces`, l.namespaces)
+	entries, namespaces := l.snapshot()
+	m := vf.MapWithCapacity(3)
+	m.Put(`name`, l.name)
+	m.Put(`entries`, entries)
+	m.Put(`namespaces`, namespaces)
 	return m
 }
 
@@ -214,13 +225,19 @@ func (l *loader) add(key, value dgo.Value) dgo.Value {
 
 func (l *loader) Equals(other interface{}) bool {
 	if ov, ok := other.(*loader); ok {
-		return l.entries.Equals(ov.entries) && l.namespaces.Equals(ov.namespaces)
+		if l == ov {
+			return true
+		}
+		le, ln := l.snapshot()
+		oe, on := ov.snapshot()
+		return le.Equals(oe) && ln.Equals(on)
 	}
 	return false
 }
 
 func (l *loader) HashCode() int {
-	return l.entries.HashCode()*31 + l.namespaces.HashCode()
+	entries, namespaces := l.snapshot()
+	return entries.HashCode()*31 + namespaces.HashCode()
 }
 
 func (l *loader) Get(ki interface{}) dgo.Value {
-- 
2.43.0


From 6504df0839ce0f9b7db5e889939c3e0f2648b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 72/95] fix: a data race: the hash code of a string is cached
 without synchronization when it is used as a map key

---
 internal/string.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/string.go b/internal/string.go
index 792d526..6483553 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"sync/atomic"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/util"
@@ -44,7 +45,7 @@ type (
 	// hstring is a string that caches the hash value when it is computed
 	hstring struct {
 		s string
-		h int
+		h uintptr // cached hash code, computed on demand and therefore accessed atomically
 	}
 )
 
@@ -589,10 +590,12 @@ func (v *hstring) GoString() string {
 }
 
 func (v *hstring) HashCode() int {
-	if v.h == 0 {
-		v.h = util.StringHash(v.s)
+	h := int(atomic.LoadUintptr(&v.h))
+	if h == 0 {
+		h = util.StringHash(v.s)
+		atomic.StoreUintptr(&v.h, uintptr(h))
 	}
-	return v.h
+	return h
 }
 
 func (v *hstring) ReflectTo(value reflect.Value) {
-- 
2.43.0


From b5781eb3361775f78eac0e06b7ceeb59f2473128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 73/95] fix: concurrent loads from a namespace that isn't
 created yet fail (namespace is already defined) when one of them has already
 loaded a value from it

---
 loader/loader.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/loader/loader.go b/loader/loader.go
index 43de80f..23dae91 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -287,7 +287,7 @@ func (l *loader) Namespace(name string) dgo.Loader {
 		if nil != old {
 			// Either the nsCreator did something wrong that resulted in the creation of this
 			// namespace or a another one has been created from another go routine.
-			if !old.Equals(ns) {
+			if !isDuplicate(old, ns) {
 				panic(fmt.Errorf(`namespace %q is already defined`, name))
 			}
 
@@ -298,6 +298,29 @@ func (l *loader) Namespace(name string) dgo.Loader {
 	return ns
 }
 
+// isDuplicate returns true if the loader ns defines nothing but what the loader old also defines. When values or
+// namespaces are loaded on demand, then old may contain more than ns since it may have been used by other go routines.
+func isDuplicate(old, ns dgo.Value) bool {
+	switch ns := ns.(type) {
+	case *loader:
+		if ol, ok := old.(*loader); ok {
+			oe, on := ol.snapshot()
+			ne, nn := ns.snapshot()
+			return (oe.Len() == ne.Len() || ol.finder != nil) &&
+				(on.Len() == nn.Len() || ol.nsCreator != nil) &&
+				ne.All(func(e dgo.MapEntry) bool { return e.Value().Equals(oe.Get(e.Key())) }) &&
+				nn.All(func(e dgo.MapEntry) bool { return isDuplicate(on.Get(e.Key()), e.Value()) })
+		}
+	case *childLoader:
+		if ol, ok := old.(*childLoader); ok {
+			return isDuplicate(ol.Loader, ns.Loader) && isDuplicate(ol.parent, ns.parent)
+		}
+	default:
+		return ns.Equals(old)
+	}
+	return false
+}
+
 func (l *loader) NewChild(finder dgo.Finder, nsCreator dgo.NsCreator) dgo.Loader {
 	return loaderWithParent(l, finder, nsCreator)
 }
-- 
2.43.0


From 5320eb80a4593a2804ded706d72845cdf393c540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 74/95] fix: the type registered for a child loader is
 registered for the Go type of another loader, so lookup by Go type is
 ambiguous

---
 loader/loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loader/loader.go b/loader/loader.go
index 23dae91..b4ea101 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -343,7 +343,7 @@ var ChildType = tf.NewNamed(`childLoader`,
 	func(v dgo.Value) dgo.Value {
 		return v.(*childLoader).initMap()
 	},
-	reflect.TypeOf(&loader{}),
+	reflect.TypeOf(&childLoader{}),
 	reflect.TypeOf((*dgo.Loader)(nil)).Elem(),
 	nil)
 
-- 
2.43.0


From 7f27cb686f90708aff53c296d67f1d82ba7db067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:08 +0000
Subject: [PATCH 75/95] fix: parsing temporarily alters types that other go
 routines use: resolving the aliases of a type rewrites every type that it
 contains, e.g. the built in alias data

---
 internal/alias.go     | 28 +++++++++++++++++++++++++++-
 internal/array.go     | 18 ++++++------------
 internal/function.go  |  4 ++--
 internal/map.go       | 14 +++++---------
 internal/mapstruct.go | 12 ++----------
 internal/meta.go      |  4 +---
 internal/not.go       |  4 +---
 internal/sensitive.go |  8 ++++----
 internal/ternary.go   | 15 +++------------
 9 files changed, 51 insertions(+), 56 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 8d21fd4..e2469cc 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -20,6 +20,7 @@ type (
 	aliasAdder struct {
 		namedTypes hashMap
 		backingMap dgo.AliasMap
+		resolving  map[dgo.AliasContainer]bool // containers visited by the current call to Replace
 	}
 
 	dType        = dgo.Type // To avoid collision with method named Type
@@ -216,7 +217,32 @@ func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 		}
 		panic(fmt.Errorf(`reference to unresolved type '%s'`, t.Reference()))
 	case dgo.AliasContainer:
-		t.Resolve(a)
+		if a.resolving == nil {
+			a.resolving = make(map[dgo.AliasContainer]bool)
+			defer func() { a.resolving = nil }()
+		}
+		if !a.resolving[t] {
+			a.resolving[t] = true
+			t.Resolve(a)
+		}
 	}
 	return t
 }
+
+// replaceAlias passes v to the given AliasAdder and returns the result and true if v is an alias or a deferred call that
+// the result must replace. Other values are resolved in place. They may be in use by other go routines when they have no
+// unresolved aliases, so an AliasContainer must not assign anything unless this function returns true.
+func replaceAlias(ap dgo.AliasAdder, v dgo.Value) (dgo.Value, bool) {
+	r := ap.Replace(v)
+	switch v.(type) {
+	case dgo.Alias, *deferredCall:
+		return r, true
+	}
+	return v, false
+}
+
+func resolveType(ap dgo.AliasAdder, t *dgo.Type) {
+	if r, replaced := replaceAlias(ap, *t); replaced {
+		*t = r.(dgo.Type)
+	}
+}
diff --git a/internal/array.go b/internal/array.go
index 1351dfb..57b9982 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -271,9 +271,7 @@ func (t *sizedArrayType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *sizedArrayType) Resolve(ap dgo.AliasAdder) {
-	te := t.elementType
-	t.elementType = DefaultAnyType
-	t.elementType = ap.Replace(te).(dgo.Type)
+	resolveType(ap, &t.elementType)
 }
 
 func (t *sizedArrayType) ReflectType() reflect.Type {
@@ -691,10 +689,7 @@ func (t *tupleType) deepReflectType(seen []dgo.Value) reflect.Type {
 }
 
 func (t *tupleType) Resolve(ap dgo.AliasAdder) {
-	s := t.types
-	t.types = nil
-	resolveSlice(s, ap)
-	t.types = s
+	resolveSlice(t.types, ap)
 }
 
 func (t *tupleType) String() string {
@@ -1286,10 +1281,7 @@ func (v *array) RemoveValue(value interface{}) bool {
 }
 
 func (v *array) Resolve(ap dgo.AliasAdder) {
-	a := v.slice
-	for i := range a {
-		a[i] = ap.Replace(a[i])
-	}
+	resolveSlice(v.slice, ap)
 }
 
 func (v *array) Reject(predicate dgo.Predicate) dgo.Array {
@@ -1518,6 +1510,8 @@ func frozenArray(f string) error {
 
 func resolveSlice(ts []dgo.Value, ap dgo.AliasAdder) {
 	for i := range ts {
-		ts[i] = ap.Replace(ts[i])
+		if r, replaced := replaceAlias(ap, ts[i]); replaced {
+			ts[i] = r
+		}
 	}
 }
diff --git a/internal/function.go b/internal/function.go
index 9f74df4..c544f3d 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -274,8 +274,8 @@ func (t *functionType) ReflectType() reflect.Type {
 }
 
 func (t *functionType) Resolve(ap dgo.AliasAdder) {
-	t.arguments = ap.Replace(t.arguments).(dgo.TupleType)
-	t.returns = ap.Replace(t.returns).(dgo.TupleType)
+	ap.Replace(t.arguments)
+	ap.Replace(t.returns)
 }
 
 func (t *functionType) String() string {
diff --git a/internal/map.go b/internal/map.go
index 8d04eee..fe1ce3f 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -797,7 +797,9 @@ func (g *hashMap) RemoveAll(keys dgo.Array) {
 
 func (g *hashMap) Resolve(ap dgo.AliasAdder) {
 	for e := g.first; e != nil; e = e.next {
-		e.value = ap.Replace(e.value)
+		if r, replaced := replaceAlias(ap, e.value); replaced {
+			e.value = r
+		}
 	}
 }
 
@@ -1153,14 +1155,8 @@ func (t *sizedMapType) deepReflectType(seen []dgo.Value) reflect.Type {
 }
 
 func (t *sizedMapType) Resolve(ap dgo.AliasAdder) {
-	kt := t.keyType
-	vt := t.valueType
-	t.keyType = DefaultAnyType
-	t.valueType = DefaultAnyType
-	kt = ap.Replace(kt).(dgo.Type)
-	vt = ap.Replace(vt).(dgo.Type)
-	t.keyType = kt
-	t.valueType = vt
+	resolveType(ap, &t.keyType)
+	resolveType(ap, &t.valueType)
 }
 
 func (t *sizedMapType) String() string {
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 52af9d0..687f62e 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -341,16 +341,8 @@ func (t *structType) deepReflectType(seen []dgo.Value) reflect.Type {
 }
 
 func (t *structType) Resolve(ap dgo.AliasAdder) {
-	ks := t.keys.slice
-	vs := t.values.slice
-	t.keys.slice = []dgo.Value{}
-	t.values.slice = []dgo.Value{}
-	for i := range ks {
-		ks[i] = ap.Replace(ks[i].(dgo.Type))
-		vs[i] = ap.Replace(vs[i].(dgo.Type))
-	}
-	t.keys.slice = ks
-	t.values.slice = vs
+	resolveSlice(t.keys.slice, ap)
+	resolveSlice(t.values.slice, ap)
 	t.checkExactKeys()
 }
 
diff --git a/internal/meta.go b/internal/meta.go
index 6184db7..5b1f340 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -122,9 +122,7 @@ func (t *metaType) Resolve(ap dgo.AliasAdder) {
 	if t.tp == nil {
 		return // type of meta type
 	}
-	tp := t.tp
-	t.tp = DefaultAnyType
-	t.tp = ap.Replace(tp).(dgo.Type)
+	resolveType(ap, &t.tp)
 }
 
 func (t *metaType) String() string {
diff --git a/internal/not.go b/internal/not.go
index 6c4d4f4..6ac839d 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -104,9 +104,7 @@ func (t *notType) ReflectType() reflect.Type {
 }
 
 func (t *notType) Resolve(ap dgo.AliasAdder) {
-	tn := t.negated
-	t.negated = DefaultAnyType
-	t.negated = ap.Replace(tn).(dgo.Type)
+	resolveType(ap, &t.negated)
 }
 
 func (t *notType) String() string {
diff --git a/internal/sensitive.go b/internal/sensitive.go
index a55bcb3..a44cf2a 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -112,9 +112,7 @@ func (t *sensitiveType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *sensitiveType) Resolve(ap dgo.AliasAdder) {
-	tn := t.wrapped
-	t.wrapped = DefaultAnyType
-	t.wrapped = ap.Replace(tn).(dgo.Type)
+	resolveType(ap, &t.wrapped)
 }
 
 func (t *sensitiveType) String() string {
@@ -190,7 +188,9 @@ func (v *sensitive) deepHashCode(seen []dgo.Value) int {
 }
 
 func (v *sensitive) Resolve(ap dgo.AliasAdder) {
-	v.value = ap.Replace(v.value)
+	if r, replaced := replaceAlias(ap, v.value); replaced {
+		v.value = r
+	}
 }
 
 func (v *sensitive) String() string {
diff --git a/internal/ternary.go b/internal/ternary.go
index 3111a73..1b4196d 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -141,10 +141,7 @@ func (t *allOfType) deepReflectType(seen []dgo.Value) reflect.Type {
 }
 
 func (t *allOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *allOfType) String() string {
@@ -368,10 +365,7 @@ func (t *anyOfType) deepReflectType(seen []dgo.Value) reflect.Type {
 }
 
 func (t *anyOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *anyOfType) String() string {
@@ -502,10 +496,7 @@ func (t *oneOfType) deepReflectType(seen []dgo.Value) reflect.Type {
 }
 
 func (t *oneOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *oneOfType) String() string {
-- 
2.43.0


From da3b4b7fa605e1747f6bc1d9f1e519248fe5ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 76/95] fix: let concurrent declarations of aliases see each
 other

---
 internal/alias.go | 50 ++++++++++++++++++++++++++++++++++++-----------
 tf/type.go        |  4 +++-
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index e2469cc..1963f7c 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -21,6 +21,7 @@ type (
 		namedTypes hashMap
 		backingMap dgo.AliasMap
 		resolving  map[dgo.AliasContainer]bool // containers visited by the current call to Replace
+		unknown    map[string]bool             // names that were requested and that didn't exist
 	}
 
 	dType        = dgo.Type // To avoid collision with method named Type
@@ -35,7 +36,7 @@ func BuiltInAliases() dgo.AliasMap {
 	return builtinAliases
 }
 
-var defaultLock = sync.Mutex{}
+var defaultLock = sync.RWMutex{}
 
 // AddDefaultAliases adds the new aliases to the default alias map by passing an AliasAdder to the function
 // The function is safe from a concurrency perspective.
@@ -47,19 +48,35 @@ func AddDefaultAliases(adder func(adder dgo.AliasAdder)) {
 // a copy of the appointed AliasMap, add the entries to that copy, swap the appointed AliasMap for the copy,
 // and finally release the lock.
 //
-// No Locker is locked and no swap will take place if the adder function doesn't add anything.
+// The Locker is not locked during the call to the adder function and no swap will take place if that function doesn't
+// add anything. The function panics if the adder adds a name that it found to be missing, and that has been added by
+// someone else in the meantime.
 func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder dgo.AliasAdder)) {
+	lock.Lock()
 	am := &aliasAdder{backingMap: *mapToReplace}
+	lock.Unlock()
+
 	adder(am)
 	if am.namedTypes.Len() > 0 {
+		// The types are resolved before the lock is taken. It may involve creation of values
+		rs := am.resolve()
+
 		lock.Lock()
 		defer lock.Unlock()
-		*mapToReplace = (*mapToReplace).(*aliasMap).update(am)
+		cm := (*mapToReplace).(*aliasMap)
+		rs.EachKey(func(k dgo.Value) {
+			if n := k.(dgo.String); am.unknown[n.GoString()] && cm.GetType(n) != nil {
+				panic(fmt.Errorf(`attempt to redeclare identifier '%s'`, n))
+			}
+		})
+		*mapToReplace = cm.update(rs)
 	}
 }
 
 // DefaultAliases returns the frozen default dgo.AliasMap
 func DefaultAliases() dgo.AliasMap {
+	defaultLock.RLock()
+	defer defaultLock.RUnlock()
 	return defaultAliases
 }
 
@@ -68,6 +85,8 @@ func DefaultAliases() dgo.AliasMap {
 //
 // This method is intended for testing purposes only
 func ResetDefaultAliases() {
+	defaultLock.Lock()
+	defer defaultLock.Unlock()
 	defaultAliases = builtinAliases
 }
 
@@ -152,22 +171,19 @@ func (a *aliasMap) Collect(adder func(dgo.AliasAdder)) dgo.AliasMap {
 	am := &aliasAdder{backingMap: a}
 	adder(am)
 	if am.namedTypes.Len() > 0 {
-		return a.update(am)
+		return a.update(am.resolve())
 	}
 	return a
 }
 
-func (a *aliasMap) update(am *aliasAdder) dgo.AliasMap {
+// update returns a copy of this map with the given resolved entries added
+func (a *aliasMap) update(rs dgo.Map) dgo.AliasMap {
 	// Create a new alias map with enough room to fit the new entries
 	c := &aliasMap{}
-	ns := am.namedTypes
-	na := ns.Len()
+	na := rs.Len()
 	a.namedTypes.resize(&c.namedTypes, na)
 	a.typeNames.resize(&c.typeNames, na)
 
-	// Resolve the added entries
-	rs := ns.Map(func(e dgo.MapEntry) interface{} { return am.Replace(e.Value()) })
-
 	// Add entries to the new alias map
 	rs.EachEntry(func(e dgo.MapEntry) {
 		name := e.Key().(dgo.String)
@@ -204,7 +220,19 @@ func (a *aliasAdder) GetType(n dgo.String) dgo.Type {
 	if t := a.namedTypes.Get(n); t != nil {
 		return t.(dgo.Type)
 	}
-	return a.backingMap.GetType(n)
+	t := a.backingMap.GetType(n)
+	if t == nil {
+		if a.unknown == nil {
+			a.unknown = make(map[string]bool)
+		}
+		a.unknown[n.GoString()] = true
+	}
+	return t
+}
+
+// resolve returns the added entries with all aliases resolved
+func (a *aliasAdder) resolve() dgo.Map {
+	return a.namedTypes.Map(func(e dgo.MapEntry) interface{} { return a.Replace(e.Value()) })
 }
 
 func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
diff --git a/tf/type.go b/tf/type.go
index f6abf9b..58dce6f 100644
--- a/tf/type.go
+++ b/tf/type.go
@@ -45,7 +45,9 @@ func AddDefaultAliases(adderFunc func(aliasAdder dgo.AliasAdder)) {
 // a copy of the appointed AliasMap, add the entries to that copy, swap the appointed AliasMap for the copy,
 // and finally release the lock.
 //
-// No Locker is locked and no swap will take place if the adder function doesn't add anything.
+// The Locker is not locked during the call to the adder function and no swap will take place if that function doesn't
+// add anything. The function panics if the adder adds a name that it found to be missing, and that has been added by
+// someone else in the meantime.
 func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder dgo.AliasAdder)) {
 	internal.AddAliases(mapToReplace, lock, adder)
 }
-- 
2.43.0


From e8bb241b1c9287f779de79b5429825b1f703e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 77/95] fix: asking if a string is an instance of the type dgo
 declares the aliases of its text in the default aliases

---
 internal/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/string.go b/internal/string.go
index 6483553..1ef0b55 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -122,7 +122,8 @@ func (t defaultDgoStringType) Instance(value interface{}) (ok bool) {
 					ok = false
 				}
 			}()
-			Parse(s)
+			// Aliases that the text declares are for this call only
+			DefaultAliases().Collect(func(a dgo.AliasAdder) { ParseFile(a, ``, s) })
 		}
 	}
 	return
-- 
2.43.0


From af394303ad6dde427cc46c40884516d71aded555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 78/95] fix: the type that validates the map given to
 StructMapFromMap is created without synchronization

---
 internal/mapstruct.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 687f62e..58c20c3 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"sync"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/util"
@@ -76,13 +77,14 @@ func StructMapType(additional bool, entries []dgo.StructMapEntry) dgo.StructMapT
 }
 
 var sfmType dgo.MapType
+var sfmOnce sync.Once
 
 // StructFromMapType returns the map type used when validating the map sent to
 // StructMapTypeFromMap
 func StructFromMapType() dgo.MapType {
-	if sfmType == nil {
+	sfmOnce.Do(func() {
 		sfmType = Parse(`map[string](dgo|type|{type:dgo|type,required?:bool,...})`).(dgo.MapType)
-	}
+	})
 	return sfmType
 }
 
-- 
2.43.0


From 5dbfd9b54a509f85a170ee976bce92ae142cd384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 79/95] fix: a map backed by a struct has the exported fields
 of the struct as keys in all its queries

---
 internal/struct.go | 83 +++++++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 34 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 6c177c9..7f3d7a3 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -18,40 +18,54 @@ type (
 	}
 )
 
-func (v *structVal) AppendTo(w dgo.Indenter) {
-	appendMapTo(v, w)
+// exportedField returns true if the given field is exported. Only exported fields are represented in the map
+func exportedField(f *reflect.StructField) bool {
+	return f.PkgPath == ``
 }
 
-func (v *structVal) All(predicate dgo.EntryPredicate) bool {
+// eachField calls the actor with the name and value of each exported field until it returns false. It returns false
+// if the actor did.
+func (v *structVal) eachField(actor func(name string, field reflect.Value) bool) bool {
 	rv := v.rs
 	rt := rv.Type()
 	for i, n := 0, rt.NumField(); i < n; i++ {
-		if !predicate(&mapEntry{&hstring{s: rt.Field(i).Name}, ValueFromReflected(rv.Field(i))}) {
+		f := rt.Field(i)
+		if exportedField(&f) && !actor(f.Name, rv.Field(i)) {
 			return false
 		}
 	}
 	return true
 }
 
-func (v *structVal) AllKeys(predicate dgo.Predicate) bool {
-	rv := v.rs
-	rt := rv.Type()
-	for i, n := 0, rt.NumField(); i < n; i++ {
-		if !predicate(&hstring{s: rt.Field(i).Name}) {
-			return false
-		}
+// field returns the exported field with the given name. Fields that are promoted from an embedded struct are not
+// fields of the map since the embedded struct is.
+func (v *structVal) field(name string) (reflect.Value, bool) {
+	if f, ok := v.rs.Type().FieldByName(name); ok && len(f.Index) == 1 && exportedField(&f) {
+		return v.rs.Field(f.Index[0]), true
 	}
-	return true
+	return reflect.Value{}, false
+}
+
+func (v *structVal) AppendTo(w dgo.Indenter) {
+	appendMapTo(v, w)
+}
+
+func (v *structVal) All(predicate dgo.EntryPredicate) bool {
+	return v.eachField(func(name string, field reflect.Value) bool {
+		return predicate(&mapEntry{&hstring{s: name}, ValueFromReflected(field)})
+	})
+}
+
+func (v *structVal) AllKeys(predicate dgo.Predicate) bool {
+	return v.eachField(func(name string, _ reflect.Value) bool {
+		return predicate(&hstring{s: name})
+	})
 }
 
 func (v *structVal) AllValues(predicate dgo.Predicate) bool {
-	rv := v.rs
-	for i, n := 0, rv.NumField(); i < n; i++ {
-		if !predicate(ValueFromReflected(rv.Field(i))) {
-			return false
-		}
-	}
-	return true
+	return v.eachField(func(_ string, field reflect.Value) bool {
+		return predicate(ValueFromReflected(field))
+	})
 }
 
 func (v *structVal) Any(predicate dgo.EntryPredicate) bool {
@@ -68,7 +82,8 @@ func (v *structVal) AnyValue(predicate dgo.Predicate) bool {
 
 func (v *structVal) ContainsKey(key interface{}) bool {
 	if s, ok := stringKey(key); ok {
-		return v.rs.FieldByName(s).IsValid()
+		_, ok = v.field(s)
+		return ok
 	}
 	return false
 }
@@ -185,15 +200,14 @@ func (v *structVal) ThawedCopy() dgo.Value {
 }
 
 func (v *structVal) Find(predicate dgo.EntryPredicate) dgo.MapEntry {
-	rv := v.rs
-	rt := rv.Type()
-	for i, n := 0, rt.NumField(); i < n; i++ {
-		e := &mapEntry{&hstring{s: rt.Field(i).Name}, ValueFromReflected(rv.Field(i))}
+	var found dgo.MapEntry
+	v.All(func(e dgo.MapEntry) bool {
 		if predicate(e) {
-			return e
+			found = e
 		}
-	}
-	return nil
+		return found == nil
+	})
+	return found
 }
 
 func stringKey(key interface{}) (string, bool) {
@@ -208,9 +222,7 @@ func stringKey(key interface{}) (string, bool) {
 
 func (v *structVal) Get(key interface{}) dgo.Value {
 	if s, ok := stringKey(key); ok {
-		rv := v.rs
-		fv := rv.FieldByName(s)
-		if fv.IsValid() {
+		if fv, ok := v.field(s); ok {
 			return ValueFromReflected(fv)
 		}
 	}
@@ -222,7 +234,12 @@ func (v *structVal) Keys() dgo.Array {
 }
 
 func (v *structVal) Len() int {
-	return v.rs.NumField()
+	n := 0
+	v.eachField(func(string, reflect.Value) bool {
+		n++
+		return true
+	})
+	return n
 }
 
 func (v *structVal) Map(mapper dgo.EntryMapper) dgo.Map {
@@ -249,9 +266,7 @@ func (v *structVal) Put(key, value interface{}) dgo.Value {
 		panic(frozenMap(`Put`))
 	}
 	if s, ok := stringKey(key); ok {
-		rv := v.rs
-		fv := rv.FieldByName(s)
-		if fv.IsValid() {
+		if fv, ok := v.field(s); ok {
 			old := ValueFromReflected(fv)
 			ReflectTo(Value(value), fv)
 			return old
-- 
2.43.0


From b4c9428b276594c8cc45ec8cd020898fa5d2dbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 80/95] fix: frozen maps and copies of maps backed by a struct
 share slices, maps and pointers with the struct and GoStruct hands out the
 frozen struct

---
 internal/struct.go | 110 +++++++++++++++++++++++++--------------------
 1 file changed, 62 insertions(+), 48 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 7f3d7a3..0a722a4 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -89,16 +89,58 @@ func (v *structVal) ContainsKey(key interface{}) bool {
 }
 
 func (v *structVal) Copy(frozen bool) dgo.Map {
+	return v.deepCopy(nil, frozen).(dgo.Map)
+}
+
+func (v *structVal) deepCopy(seen []dgo.Value, frozen bool) dgo.Value {
 	if frozen && v.frozen {
 		return v
 	}
-	if frozen {
-		return v.FrozenCopy().(dgo.Map)
-	}
-	// Thaw: Perform a by-value copy of the frozen struct
+	c := &structVal{rs: v.shallowCopy(), frozen: frozen}
+	seen = append(seen, v, c)
+	c.replaceFields(func(e dgo.Value) dgo.Value {
+		if _, ok := e.(dgo.Native); ok && !frozen {
+			return e
+		}
+		return copyValue(seen, e, frozen)
+	})
+	return c
+}
+
+// shallowCopy returns a by-value copy of the struct
+func (v *structVal) shallowCopy() reflect.Value {
 	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
 	rs.Set(v.rs)                          // copy v.rs to the zero value
-	return &structVal{rs: rs, frozen: false}
+	return rs
+}
+
+// replaceFields replaces the dgo.Value of each field with the result of calling the replacer with it. Slices, maps, and
+// things pointed to are replaced with copies so that they aren't shared with the struct that the fields were copied from.
+func (v *structVal) replaceFields(replacer func(dgo.Value) dgo.Value) {
+	v.eachField(func(_ string, field reflect.Value) bool {
+		nv := replacer(ValueFromReflected(field))
+		switch field.Kind() {
+		case reflect.Slice, reflect.Map, reflect.Ptr:
+			if !field.IsNil() {
+				ReflectTo(nv, field)
+			}
+		case reflect.Interface:
+			if field.IsNil() {
+				break
+			}
+			if _, ok := field.Interface().(dgo.Value); ok {
+				field.Set(reflect.ValueOf(nv))
+				break
+			}
+			ev := field.Elem()
+			if k := ev.Kind(); k == reflect.Slice || k == reflect.Map || k == reflect.Ptr && ev.Elem().Kind() != reflect.Struct {
+				cv := reflect.New(ev.Type()).Elem() // retain the type of what the interface holds
+				ReflectTo(nv, cv)
+				field.Set(cv)
+			}
+		}
+		return true
+	})
 }
 
 func (v *structVal) Each(actor dgo.Consumer) {
@@ -122,6 +164,10 @@ func (v *structVal) Equals(other interface{}) bool {
 }
 
 func (v *structVal) GoStruct() interface{} {
+	if v.frozen {
+		// Don't expose pointer to frozen struct
+		return v.ThawedCopy().(*structVal).GoStruct()
+	}
 	return v.rs.Addr().Interface()
 }
 
@@ -149,15 +195,11 @@ func (v *structVal) deepHashCode(seen []dgo.Value) int {
 }
 
 func (v *structVal) Freeze() {
-	// Perform a shallow copy of the struct
+	// Perform a copy of the struct
 	if !v.frozen {
 		v.frozen = true
-		v.rs = reflect.ValueOf(v.rs.Interface())
-		v.EachValue(func(e dgo.Value) {
-			if f, ok := e.(dgo.Freezable); ok {
-				f.Freeze()
-			}
-		})
+		v.rs = v.shallowCopy()
+		v.replaceFields(freezeElement)
 	}
 }
 
@@ -166,37 +208,11 @@ func (v *structVal) Frozen() bool {
 }
 
 func (v *structVal) FrozenCopy() dgo.Value {
-	if v.frozen {
-		return v
-	}
-
-	// Perform a by-value copy of the struct
-	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
-	rs.Set(v.rs)                          // copy v.rs to the zero value
-
-	for i, n := 0, rs.NumField(); i < n; i++ {
-		ef := rs.Field(i)
-		ev := ValueFromReflected(ef)
-		if f, ok := ev.(dgo.Freezable); ok && !f.Frozen() {
-			ReflectTo(f.FrozenCopy(), ef)
-		}
-	}
-	return &structVal{rs: rs, frozen: true}
+	return v.deepCopy(nil, true)
 }
 
 func (v *structVal) ThawedCopy() dgo.Value {
-	// Perform a by-value copy of the struct
-	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
-	rs.Set(v.rs)                          // copy v.rs to the zero value
-
-	for i, n := 0, rs.NumField(); i < n; i++ {
-		ef := rs.Field(i)
-		ev := ValueFromReflected(ef)
-		if f, ok := ev.(dgo.Freezable); ok {
-			ReflectTo(f.ThawedCopy(), ef)
-		}
-	}
-	return &structVal{rs: rs, frozen: false}
+	return v.deepCopy(nil, false)
 }
 
 func (v *structVal) Find(predicate dgo.EntryPredicate) dgo.MapEntry {
@@ -280,15 +296,13 @@ func (v *structVal) PutAll(associations dgo.Map) {
 }
 
 func (v *structVal) ReflectTo(value reflect.Value) {
+	if v.frozen {
+		// Don't expose the fields of a frozen struct
+		v.ThawedCopy().(*structVal).ReflectTo(value)
+		return
+	}
 	if value.Kind() == reflect.Ptr {
-		if v.frozen {
-			// Don't expose pointer to frozen struct
-			rs := reflect.New(v.rs.Type()) // create pointer to a zero value
-			rs.Elem().Set(v.rs)            // copy v.rs to the zero value
-			value.Set(rs)
-		} else {
-			value.Set(v.rs.Addr())
-		}
+		value.Set(v.rs.Addr())
 	} else {
 		// copy struct by value
 		value.Set(v.rs)
-- 
2.43.0


From 9206dab99ea56dda35da734fd7feb7910759cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 81/95] fix: vf.Map of a struct that isn't a pointer gives a
 map that can't be modified

---
 internal/map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index fe1ce3f..7f2d839 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -281,7 +281,10 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 				return FromReflectedStruct(re)
 			}
 		case reflect.Struct:
-			return FromReflectedStruct(rm)
+			// the map needs a struct that it can modify
+			rs := reflect.New(rm.Type()).Elem()
+			rs.Set(rm)
+			return FromReflectedStruct(rs)
 		}
 		panic(illegalMapArgument(a0))
 	case l%2 == 0:
-- 
2.43.0


From 0b238a97ac2505cdc90bfdd9ec6917b2523bbfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 82/95] fix: Map and With on a frozen map backed by a struct
 retain mutable values, Values of a mutable one is a frozen array that fails
 for natives

---
 internal/struct.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 0a722a4..77ed2aa 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -261,7 +261,11 @@ func (v *structVal) Len() int {
 func (v *structVal) Map(mapper dgo.EntryMapper) dgo.Map {
 	c := v.toHashMap()
 	for e := c.first; e != nil; e = e.next {
-		e.value = Value(mapper(e))
+		// the mapper must not see the new node. If it did, then the node could become its own value
+		e.value = Value(mapper(&mapEntry{key: e.key, value: e.value}))
+		if v.frozen {
+			e.value = frozenCopy(e.value)
+		}
 	}
 	c.frozen = v.frozen
 	return c
@@ -332,12 +336,18 @@ func (v *structVal) Type() dgo.Type {
 }
 
 func (v *structVal) Values() dgo.Array {
-	return arrayFromIterator(v.Len(), v.EachValue)
+	vs := make([]dgo.Value, 0, v.Len())
+	v.EachValue(func(e dgo.Value) { vs = append(vs, e) })
+	return &array{slice: vs, frozen: v.frozen}
 }
 
 func (v *structVal) With(key, value interface{}) dgo.Map {
+	val := Value(value)
+	if v.frozen {
+		val = frozenCopy(val)
+	}
 	c := v.toHashMap()
-	c.Put(key, value)
+	c.Put(key, val)
 	c.frozen = v.frozen
 	return c
 }
-- 
2.43.0


From 7a169d82df1f1c8bff518464ea55462603f373aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 83/95] fix: an array that wraps a Go slice follows changes of
 the slice after it is frozen

---
 internal/array.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index 57b9982..65f88d4 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1120,7 +1120,8 @@ func (v *array) Freeze() {
 		return
 	}
 	v.frozen = true
-	a := v.slice
+	a := util.SliceCopy(v.slice) // the slice may be a wrapped slice, which can be modified
+	v.slice = a
 	for i := range a {
 		a[i] = freezeElement(a[i])
 	}
-- 
2.43.0


From bba4d57bed4479bb5d53ff2c097f11200b6e9f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 84/95] fix: the type parsers accept some control characters as
 empty literals

---
 parser/lexer.go         | 3 +++
 streamer/pcore/lexer.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 2c3b24b..10e0410 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -152,6 +152,9 @@ func buildToken(r rune, sr *util.StringReader) *Token {
 		buf := bytes.NewBufferString(``)
 		consumeIdentifier(sr, r, buf)
 		return &Token{buf.String(), identifier}
+	case r < ' ':
+		// The codes of control characters are used as token types
+		panic(badToken(r))
 	default:
 		return &Token{Type: int(r)}
 	}
diff --git a/streamer/pcore/lexer.go b/streamer/pcore/lexer.go
index e5750eb..0642bef 100644
--- a/streamer/pcore/lexer.go
+++ b/streamer/pcore/lexer.go
@@ -106,6 +106,9 @@ func buildToken(r rune, sr *util.StringReader) *parser.Token {
 		buf := bytes.NewBufferString(``)
 		consumeIdentifier(sr, r, buf)
 		return &parser.Token{Value: buf.String(), Type: identifier}
+	case r < ' ':
+		// The codes of control characters are used as token types
+		panic(badToken(r))
 	default:
 		return &parser.Token{Type: int(r)}
 	}
-- 
2.43.0


From 07980dcaa0e65da3acac67056b211556a389fe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 85/95] fix: the pcore parser gives another number for one that
 is malformed or out of range

---
 streamer/pcore/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index ec99084..920456e 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -208,10 +208,16 @@ func (p *pcoreParser) element(t *parser.Token) {
 	case '[':
 		p.array()
 	case integer:
-		i, _ := strconv.ParseInt(t.Value, 0, 64)
+		i, err := strconv.ParseInt(t.Value, 0, 64)
+		if err != nil {
+			panic(err)
+		}
 		p.Append(vf.Integer(i))
 	case float:
-		f, _ := strconv.ParseFloat(t.Value, 64)
+		f, err := strconv.ParseFloat(t.Value, 64)
+		if err != nil {
+			panic(err)
+		}
 		p.Append(vf.Float(f))
 	case identifier:
 		p.identifier(t)
-- 
2.43.0


From cc504c7352342ad1c118f3605b40bfc91ec869eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 86/95] fix: Callable and Tuple in the pcore parser fail with
 runtime errors for arguments that are empty or just a size, and a block after
 just a size gives a variadic block

---
 streamer/pcore/parser.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 920456e..f5c9fad 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -319,12 +319,18 @@ func callableType(p *pcoreParser) dgo.Value {
 	args := p.PopLast().(dgo.Array)
 	if args.Len() == 2 {
 		if params, ok := args.Get(0).(dgo.Array); ok {
-			rt = args.Get(1).(dgo.Type)
+			rt = vf.ArgumentsFromArray(args).Arg(`Callable`, 1, typ.Type).(dgo.Type)
 			args = params
 		}
 	}
+	if rt == nil {
+		vf.ArgumentsFromArray(args).AssertSize(`Callable`, 1, math.MaxInt64)
+	}
 
 	argc := args.Len()
+	if argc == 0 {
+		return tf.Function(typ.EmptyTuple, returnType(rt))
+	}
 	if block, ok := args.Get(argc - 1).(dgo.FunctionType); ok && argc > 1 {
 		// In Puppet, if the last argument is a Function, then it is considered
 		// to be a block. Such a block is not a proper argument and may hence
@@ -340,7 +346,7 @@ func callableType(p *pcoreParser) dgo.Value {
 				if n != -1 {
 					args.Set(argc-2, n+1)
 				}
-				if argc > 3 {
+				if argc > 2 {
 					var n2 int64
 					if n2, ok = getIfInt(args, argc-3, 0); ok {
 						args.Set(argc-3, n2+1)
@@ -507,7 +513,11 @@ func tupleFromArgs(args dgo.Array) dgo.TupleType {
 	if n, ok := getIfInt(args, l-1, -1); ok {
 		args.Pop()
 		l--
-		if min, ok = getIfInt(args, l-1, -1); ok {
+		ok = false
+		if l > 0 {
+			min, ok = getIfInt(args, l-1, -1)
+		}
+		if ok {
 			args.Pop()
 			l--
 			max = n
@@ -538,6 +548,10 @@ func tupleFromArgs(args dgo.Array) dgo.TupleType {
 	if min == int64(l) && min == max {
 		return tf.Tuple(ta.InterfaceSlice()...)
 	}
+	if l == 0 {
+		// Only the size is given
+		return typ.Tuple
+	}
 	tps := ta.InterfaceSlice()
 	return tf.VariadicTuple(tps...)
 }
@@ -547,7 +561,9 @@ func tupleType(p *pcoreParser) dgo.Value {
 	if tt == '[' {
 		p.NextToken()
 		p.array()
-		return tupleFromArgs(p.PopLast().(dgo.Array))
+		args := p.PopLast().(dgo.Array)
+		vf.ArgumentsFromArray(args).AssertSize(`Tuple`, 1, math.MaxInt64)
+		return tupleFromArgs(args)
 	}
 	return typ.Tuple
 }
-- 
2.43.0


From d7a587f221d6da0bf8b2e32377dc9edfcfe84b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 87/95] fix: the integers of a pcore Number range are truncated
 or wrapped limits

---
 streamer/pcore/parser.go | 60 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index f5c9fad..dc464b2 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -448,12 +448,62 @@ func integerType(p *pcoreParser) dgo.Value {
 }
 
 func numberType(p *pcoreParser) dgo.Value {
-	tp := floatType(p).(dgo.FloatType)
-	max := int64(math.MaxInt64)
-	if tp.Max() != math.MaxFloat64 {
-		max = int64(tp.Max())
+	if p.PeekToken().Type != '[' {
+		return tf.AnyOf(typ.Integer, typ.Float)
+	}
+	p.NextToken()
+	p.array()
+	args := vf.ArgumentsFromArray(p.PopLast().(dgo.Array))
+	args.AssertSize(`Number`, 1, 2)
+	from := getFloat(`Number`, args, 0, -math.MaxFloat64)
+	to := math.MaxFloat64
+	var first, last dgo.Value = args.Get(0), vf.Nil
+	if args.Len() == 2 {
+		to = getFloat(`Number`, args, 1, math.MaxFloat64)
+		last = args.Get(1)
+	}
+	tp := tf.Float(from, to, true)
+	if from > to {
+		first, last = last, first
+	}
+	min, max, ok := integersBetween(first, last)
+	if !ok {
+		return tp
+	}
+	return tf.AnyOf(tf.Integer(min, max, true), tp)
+}
+
+// integersBetween returns the smallest and largest integers in the range of the given values. A value that isn't a
+// number means that there's no limit. The returned boolean is false if there are no integers in the range.
+func integersBetween(first, last dgo.Value) (min, max int64, ok bool) {
+	min = math.MinInt64
+	max = math.MaxInt64
+	switch v := first.(type) {
+	case dgo.Integer:
+		min = v.GoInt()
+	case dgo.Float:
+		f := math.Ceil(v.GoFloat())
+		if f >= math.MaxInt64 {
+			// as a float64, MaxInt64 is MaxInt64 + 1
+			return 0, 0, false
+		}
+		if f > math.MinInt64 {
+			min = int64(f)
+		}
+	}
+	switch v := last.(type) {
+	case dgo.Integer:
+		max = v.GoInt()
+	case dgo.Float:
+		f := math.Floor(v.GoFloat())
+		if f < math.MinInt64 {
+			return 0, 0, false
+		}
+		if f < math.MaxInt64 {
+			max = int64(f)
+		}
 	}
-	return tf.AnyOf(tf.Integer(int64(tp.Min()), max, true), tp)
+	return min, max, min <= max
 }
 
 func notUndefType(p *pcoreParser) dgo.Value {
-- 
2.43.0


From 9919e42bccf83de3bcb019650963ea1554725a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 88/95] fix: default isn't accepted as a size of a pcore String

---
 streamer/pcore/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index dc464b2..88e7699 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -650,6 +650,9 @@ func stringType(p *pcoreParser) dgo.Value {
 		p.array()
 		args := vf.ArgumentsFromArray(p.PopLast().(dgo.Array))
 		args.AssertSize(`String`, 1, 2)
+		if args.Len() == 2 {
+			return tf.String(getInt(`String`, args, 0, 0), getInt(`String`, args, 1, math.MaxInt64))
+		}
 		return tf.String(args.InterfaceSlice()...)
 	}
 	return typ.String
-- 
2.43.0


From e3eec62f7c15be9ea50fd6177641c75bf84ab69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 89/95] fix: the pcore parser accepts an entry as the key of an
 entry

---
 streamer/pcore/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 88e7699..a11c52c 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -121,7 +121,8 @@ func (p *pcoreParser) list(et int, bs int) {
 			break
 		}
 		p.element(tk)
-		if rockLHS != nil {
+		isEntry := rockLHS != nil
+		if isEntry {
 			// Last two elements is a hash entry
 			p.Append(vf.MapEntry(rockLHS, p.PopLast()))
 			rockLHS = nil
@@ -135,6 +136,9 @@ func (p *pcoreParser) list(et int, bs int) {
 		case ',':
 			continue
 		case rocket:
+			if isEntry {
+				panic(badSyntax(tk, bs))
+			}
 			rockLHS = p.PopLast()
 			continue
 		default:
-- 
2.43.0


From 2fa25403291b7c4c1cfcd010e1c74203d6d0fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 90/95] fix: the pcore parser fails with a runtime error for an
 alias of a value or without alias map, and overflows the stack for one of
 itself

---
 parser/parser.go         | 10 +++++-----
 streamer/pcore/parser.go | 19 ++++++++++++++++---
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index dfbfe6c..52bd3ca 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -761,7 +761,7 @@ func (p *parser) aliasDeclaration(t *Token) dgo.Value {
 			p.sc.Add(NewAlias(s), s)
 			p.anyOf(p.NextToken())
 			tp = p.PopLastType()
-			if isOperand(s, tp.(dgo.Type)) {
+			if IsOperand(s, tp.(dgo.Type)) {
 				panic(fmt.Errorf(`alias '%s' is declared as itself`, t.Value))
 			}
 			p.sc.Add(tp.(dgo.Type), s)
@@ -771,20 +771,20 @@ func (p *parser) aliasDeclaration(t *Token) dgo.Value {
 	panic(fmt.Errorf(`attempt to redeclare identifier '%s'`, t.Value))
 }
 
-// isOperand returns true if the given type is an alias for the given name, or if such an alias can be reached by
+// IsOperand returns true if the given type is an alias for the given name, or if such an alias can be reached by
 // traversing nothing but operands of negations and combinations. An alias can only refer to itself from within
 // a type that describes contained values.
-func isOperand(name dgo.String, tp dgo.Type) bool {
+func IsOperand(name dgo.String, tp dgo.Type) bool {
 	switch tp := tp.(type) {
 	case dgo.Alias:
 		return name.Equals(tp.Reference())
 	case dgo.TernaryType:
 		return tp.Operands().Any(func(v dgo.Value) bool {
 			ot, ok := v.(dgo.Type)
-			return ok && isOperand(name, ot)
+			return ok && IsOperand(name, ot)
 		})
 	case dgo.UnaryType:
-		return tp.Operator() == dgo.OpNot && isOperand(name, tp.Operand())
+		return tp.Operator() == dgo.OpNot && IsOperand(name, tp.Operand())
 	}
 	return false
 }
diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index a11c52c..789e69d 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -193,11 +193,20 @@ func (p *pcoreParser) aliasDeclaration(t *parser.Token) dgo.Value {
 		if tf.Named(n) == nil {
 			s := vf.String(n)
 			am := p.AliasAdder()
+			if am == nil {
+				panic(fmt.Errorf(`no alias map to declare '%s' in`, t.Value))
+			}
 			if am.GetType(s) == nil {
 				am.Add(parser.NewAlias(s), s)
 				p.element(p.NextToken())
-				tp := p.PopLast()
-				am.Add(tp.(dgo.Type), s)
+				tp, ok := p.PopLast().(dgo.Type)
+				if !ok {
+					panic(fmt.Errorf(`alias '%s' must be declared as a type`, t.Value))
+				}
+				if parser.IsOperand(s, tp) {
+					panic(fmt.Errorf(`alias '%s' is declared as itself`, t.Value))
+				}
+				am.Add(tp, s)
 				return tp
 			}
 		}
@@ -791,7 +800,11 @@ func (p *pcoreParser) aliasReference(n string) dgo.Type {
 		return tp
 	}
 	vn := vf.String(n)
-	if tp := p.AliasAdder().GetType(vn); tp != nil {
+	am := p.AliasAdder()
+	if am == nil {
+		panic(fmt.Errorf(`reference to unresolved type '%s'`, n))
+	}
+	if tp := am.GetType(vn); tp != nil {
 		return tp
 	}
 	return parser.NewAlias(vn)
-- 
2.43.0


From aab4d119b81e13aeffc34d9fd3b4738aaab99a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:55 +0000
Subject: [PATCH 91/95] fix: the pcore dialect ignores the alias map given to
 ParseType

---
 streamer/pcore/pcoredialect.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamer/pcore/pcoredialect.go b/streamer/pcore/pcoredialect.go
index cc42c65..5c96260 100644
--- a/streamer/pcore/pcoredialect.go
+++ b/streamer/pcore/pcoredialect.go
@@ -58,5 +58,8 @@ func (d pcoreDialect) TimeTypeName() dgo.String {
 }
 
 func (d pcoreDialect) ParseType(aliasMap dgo.AliasAdder, typeString dgo.String) (dt dgo.Type) {
-	return typ.AsType(Parse(typeString.GoString()))
+	if aliasMap == nil {
+		return ParseType(typeString.GoString())
+	}
+	return typ.AsType(ParseFile(aliasMap, ``, typeString.GoString()))
 }
-- 
2.43.0


From 7e483f73f8ce494f5499bfd2b8e0f3dcd016effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 92/95] fix: NotUndef of a recursive pcore alias accepts nil

---
 streamer/pcore/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 789e69d..f0562e4 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -528,7 +528,8 @@ func notUndefType(p *pcoreParser) dgo.Value {
 		args.AssertSize(`NotUndef`, 1, 1)
 		tp := args.Arg(`Type`, 0, typ.Type).(dgo.Type)
 		if tp != typ.Any {
-			if tp.Assignable(typ.Nil) {
+			// An alias that isn't resolved yet might turn out to accept nil
+			if _, isAlias := tp.(dgo.Alias); isAlias || tp.Assignable(typ.Nil) {
 				tp = tf.AllOf(tf.Not(typ.Nil), tp)
 			}
 			return tp
-- 
2.43.0


From 36182bbdf2e16c756f37db5337082b1ca33510f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 93/95] fix: a negative upper size of a string or binary type
 becomes a negative lower size

---
 internal/binary.go | 3 +++
 internal/string.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/binary.go b/internal/binary.go
index 2e1ba59..1a0e969 100644
--- a/internal/binary.go
+++ b/internal/binary.go
@@ -62,6 +62,9 @@ func SizedBinaryType(min, max int) dgo.BinaryType {
 	if min < 0 {
 		min = 0
 	}
+	if max < 0 {
+		max = 0
+	}
 	if max < min {
 		tmp := max
 		max = min
diff --git a/internal/string.go b/internal/string.go
index 1ef0b55..9d3875a 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -447,6 +447,9 @@ func SizedStringType(min, max int) dgo.StringType {
 	if min < 0 {
 		min = 0
 	}
+	if max < 0 {
+		max = 0
+	}
 	if max < min {
 		tmp := max
 		max = min
-- 
2.43.0


From 12597f1d3e8e28bdbab2102f2dad8787009f5dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 94/95] fix: a type that refers to an alias declared after it
 isn't equal to the type that it is printed as, when that is an exact or
 default type

---
 internal/alias.go     | 22 ++++++++++++++++++--
 internal/array.go     | 47 +++++++++++++++++++++++++++----------------
 internal/function.go  |  8 ++++++--
 internal/map.go       | 10 ++++++---
 internal/mapstruct.go | 30 ++++++++++++++-------------
 5 files changed, 79 insertions(+), 38 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 1963f7c..61ff29f 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -241,6 +241,10 @@ func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 		return New(t.dType, t.args)
 	case dgo.Alias:
 		if ra := a.GetType(t.Reference()); ra != nil {
+			if _, ok := ra.(collapser); ok {
+				// The type may have been declared by means of aliases that aren't resolved yet
+				return a.Replace(ra)
+			}
 			return ra
 		}
 		panic(fmt.Errorf(`reference to unresolved type '%s'`, t.Reference()))
@@ -253,18 +257,32 @@ func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 			a.resolving[t] = true
 			t.Resolve(a)
 		}
+		if c, ok := t.(collapser); ok {
+			return c.collapse()
+		}
 	}
 	return t
 }
 
-// replaceAlias passes v to the given AliasAdder and returns the result and true if v is an alias or a deferred call that
-// the result must replace. Other values are resolved in place. They may be in use by other go routines when they have no
+// A collapser is a type that isn't what its constructor returns when the types that it consists of are the ones that
+// the aliases it was created with denote.
+type collapser interface {
+	dgo.AliasContainer
+
+	// collapse returns the type that the constructor returns, or the type itself if that type is equal to it
+	collapse() dgo.Type
+}
+
+// replaceAlias passes v to the given AliasAdder and returns the result and true if v is an alias, a deferred call, or
+// a type that collapses, and the result must replace it. Other values are resolved in place. They may be in use by other go routines when they have no
 // unresolved aliases, so an AliasContainer must not assign anything unless this function returns true.
 func replaceAlias(ap dgo.AliasAdder, v dgo.Value) (dgo.Value, bool) {
 	r := ap.Replace(v)
 	switch v.(type) {
 	case dgo.Alias, *deferredCall:
 		return r, true
+	case collapser:
+		return r, r != v
 	}
 	return v, false
 }
diff --git a/internal/array.go b/internal/array.go
index 65f88d4..b661657 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -116,14 +116,18 @@ func newArrayType(elementType dgo.Type, min, max int) dgo.ArrayType {
 	if elementType == nil {
 		elementType = DefaultAnyType
 	}
-	if min == 0 && max == math.MaxInt64 && elementType == DefaultAnyType {
+	return (&sizedArrayType{elementType: elementType, min: min, max: max}).collapse().(dgo.ArrayType)
+}
+
+func (t *sizedArrayType) collapse() dgo.Type {
+	if t.min == 0 && t.max == math.MaxInt64 && t.elementType == DefaultAnyType {
 		// Unbounded
 		return DefaultArrayType
 	}
-	if min == 1 && min == max && isExact(elementType) {
-		return (&array{slice: []dgo.Value{elementType.(dgo.ExactType).ExactValue()}, frozen: true}).Type().(dgo.ArrayType)
+	if t.min == 1 && t.min == t.max && isExact(t.elementType) {
+		return (&array{slice: []dgo.Value{t.elementType.(dgo.ExactType).ExactValue()}, frozen: true}).Type()
 	}
-	return &sizedArrayType{elementType: elementType, min: min, max: max}
+	return t
 }
 
 func (t defaultArrayType) Assignable(other dgo.Type) bool {
@@ -408,25 +412,34 @@ func newTupleType(types []interface{}, variadic bool) dgo.TupleType {
 	if l == 0 {
 		return EmptyTupleType
 	}
-	if variadic && l == 1 && DefaultAnyType.Equals(types[0]) {
-		return DefaultTupleType
-	}
-	exact := !variadic
 	es := make([]dgo.Value, l)
 	for i := 0; i < l; i++ {
-		et := types[i].(dgo.Type)
-		if exact && !isExact(et) {
-			exact = false
+		es[i] = types[i].(dgo.Type)
+	}
+	return (&tupleType{types: es, variadic: variadic}).collapse().(dgo.TupleType)
+}
+
+func (t *tupleType) collapse() dgo.Type {
+	l := len(t.types)
+	if t.variadic {
+		if l == 1 && DefaultAnyType.Equals(t.types[0]) {
+			return DefaultTupleType
 		}
-		es[i] = et
+		return t
 	}
-	if exact {
-		for i := 0; i < l; i++ {
-			es[i] = es[i].(dgo.ExactType).ExactValue()
+	if l == 0 {
+		return t
+	}
+	for i := 0; i < l; i++ {
+		if !isExact(t.types[i].(dgo.Type)) {
+			return t
 		}
-		return (&array{slice: es, frozen: true}).Type().(dgo.TupleType)
 	}
-	return &tupleType{types: es, variadic: variadic}
+	es := make([]dgo.Value, l)
+	for i := 0; i < l; i++ {
+		es[i] = t.types[i].(dgo.ExactType).ExactValue()
+	}
+	return (&array{slice: es, frozen: true}).Type()
 }
 
 func (t *tupleType) Assignable(other dgo.Type) bool {
diff --git a/internal/function.go b/internal/function.go
index c544f3d..72ac211 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -274,8 +274,12 @@ func (t *functionType) ReflectType() reflect.Type {
 }
 
 func (t *functionType) Resolve(ap dgo.AliasAdder) {
-	ap.Replace(t.arguments)
-	ap.Replace(t.returns)
+	if r, replaced := replaceAlias(ap, t.arguments); replaced {
+		t.arguments = r.(dgo.TupleType)
+	}
+	if r, replaced := replaceAlias(ap, t.returns); replaced {
+		t.returns = r.(dgo.TupleType)
+	}
 }
 
 func (t *functionType) String() string {
diff --git a/internal/map.go b/internal/map.go
index 7f2d839..a1ccbc1 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1039,13 +1039,17 @@ func newMapType(kt, vt dgo.Type, min, max int) dgo.MapType {
 	if vt == nil {
 		vt = DefaultAnyType
 	}
-	if min == 0 && max == math.MaxInt64 {
+	return (&sizedMapType{keyType: kt, valueType: vt, min: min, max: max}).collapse().(dgo.MapType)
+}
+
+func (t *sizedMapType) collapse() dgo.Type {
+	if t.min == 0 && t.max == math.MaxInt64 {
 		// Unbounded
-		if kt == DefaultAnyType && vt == DefaultAnyType {
+		if t.keyType == DefaultAnyType && t.valueType == DefaultAnyType {
 			return DefaultMapType
 		}
 	}
-	return &sizedMapType{keyType: kt, valueType: vt, min: min, max: max}
+	return t
 }
 
 func (t *sizedMapType) Assignable(other dgo.Type) bool {
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 58c20c3..7af633d 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -31,31 +31,21 @@ type (
 // once they are resolved.
 func StructMapTypeUnresolved(additional bool, entries []dgo.StructMapEntry) dgo.StructMapType {
 	l := len(entries)
-	exact := !additional
 	keys := make([]dgo.Value, l)
 	values := make([]dgo.Value, l)
 	required := make([]bool, l)
 	for i := 0; i < l; i++ {
 		e := entries[i]
-		kt := e.Key().(dgo.Type)
-		vt := e.Value().(dgo.Type)
-		if exact && !(e.Required() && isExact(kt) && isExact(vt)) {
-			exact = false
-		}
-		keys[i] = kt
-		values[i] = vt
+		keys[i] = e.Key().(dgo.Type)
+		values[i] = e.Value().(dgo.Type)
 		required[i] = e.Required()
 	}
 
-	if exact {
-		return createExactMap(keys, values)
-	}
-
-	return &structType{
+	return (&structType{
 		additional: additional,
 		keys:       array{slice: keys, frozen: true},
 		values:     array{slice: values, frozen: true},
-		required:   required}
+		required:   required}).collapse().(dgo.StructMapType)
 }
 
 func createExactMap(keys, values []dgo.Value) dgo.StructMapType {
@@ -67,6 +57,18 @@ func createExactMap(keys, values []dgo.Value) dgo.StructMapType {
 	return m.Type().(dgo.StructMapType)
 }
 
+func (t *structType) collapse() dgo.Type {
+	if t.additional {
+		return t
+	}
+	for i := range t.required {
+		if !(t.required[i] && isExact(t.keys.slice[i].(dgo.Type)) && isExact(t.values.slice[i].(dgo.Type))) {
+			return t
+		}
+	}
+	return createExactMap(t.keys.slice, t.values.slice)
+}
+
 // StructMapType returns a new StructMapType type built from the given StructMapEntries.
 func StructMapType(additional bool, entries []dgo.StructMapEntry) dgo.StructMapType {
 	t := StructMapTypeUnresolved(additional, entries)
-- 
2.43.0


From 88471a75273f173ef971e37ca8e22bb39a798cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:15 +0000
Subject: [PATCH 95/95] fix: typ.Function accepts functions that aren't
 variadic

---
 internal/function.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/function.go b/internal/function.go
index 72ac211..333e3ef 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -221,6 +221,12 @@ func (t *functionType) Assignable(other dgo.Type) bool {
 }
 
 func (t *functionType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
+	if t == DefaultFunctionType {
+		// No constraints on arguments or return value
+		if _, ok := other.(dgo.FunctionType); ok {
+			return true
+		}
+	}
 	return functionTypeAssignable(guard, t, other)
 }
 
-- 
2.43.0

