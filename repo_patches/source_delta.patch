From 170c9fe45912ec3b37a905c9ed049c6f8f84d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 01/21] fix: do not let With on a collision node write into a
 shared backing array

---
 internal/pkg/tree/twig.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index 8c29839..7c1b86d 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -288,7 +288,7 @@ func (l *twig[T]) With(args *CombineArgs[T], v T, depth int, _ hasher) (_ node[T
 			return ret, matches
 		}
 	}
-	return newTwig(append(l.data, v)...).Canonical(depth), matches
+	return newTwig(append(l.cloneWithExtra(1).data, v)...).Canonical(depth), matches
 }
 
 func (l *twig[T]) WithFast(v T, depth int, _ hasher) (_ node[T], matches int) {
@@ -300,7 +300,7 @@ func (l *twig[T]) WithFast(v T, depth int, _ hasher) (_ node[T], matches int) {
 			return ret, matches
 		}
 	}
-	return newTwig(append(l.data, v)...).Canonical(depth), matches
+	return newTwig(append(l.cloneWithExtra(1).data, v)...).Canonical(depth), matches
 }
 
 func (l *twig[T]) Without(v T, depth int, _ hasher) (_ node[T], matches int) {
-- 
2.43.0


From ce2b07e666d771ef476f386f4d3b0ae6d1a44c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 02/21] fix: combine collision nodes with leaves and with each
 other

---
 internal/pkg/tree/leaf1.go |  2 ++
 internal/pkg/tree/leaf2.go |  2 ++
 internal/pkg/tree/twig.go  | 35 ++++++++++-------------------------
 3 files changed, 14 insertions(+), 25 deletions(-)

diff --git a/internal/pkg/tree/leaf1.go b/internal/pkg/tree/leaf1.go
index 9c99baf..c2ba7b6 100644
--- a/internal/pkg/tree/leaf1.go
+++ b/internal/pkg/tree/leaf1.go
@@ -68,6 +68,8 @@ func (l *leaf1[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T
 	switch n := n.(type) {
 	case *branch[T]:
 		return n.Combine(args.Flip(), l, depth)
+	case *twig[T]:
+		return n.Combine(args.Flip(), l, depth)
 	case *leaf2[T]:
 		return n.Combine(args.Flip(), l, depth)
 	case *leaf1[T]:
diff --git a/internal/pkg/tree/leaf2.go b/internal/pkg/tree/leaf2.go
index 1659aab..7177178 100644
--- a/internal/pkg/tree/leaf2.go
+++ b/internal/pkg/tree/leaf2.go
@@ -69,6 +69,8 @@ func (l *leaf2[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T
 	switch n := n.(type) {
 	case *branch[T]:
 		return n.Combine(args.Flip(), l, depth)
+	case *twig[T]:
+		return n.Combine(args.Flip(), l, depth)
 	case *leaf2[T]:
 		l0, l1 := l.data[0], l.data[1]
 		n0, n1 := n.data[0], n.data[1]
diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index 7c1b86d..55fb13f 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -102,47 +102,32 @@ func (l *twig[T]) Canonical(depth int) node[T] {
 	}
 }
 
-func (l *twig[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T], matches int) { //nolint:cyclop
+func (l *twig[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T], matches int) {
 	var ndata []T
 	switch n := n.(type) {
+	case *leaf1[T]:
+		ndata = []T{n.data}
+	case *leaf2[T]:
+		ndata = n.data[:]
 	case *twig[T]:
 		ndata = n.data
 	default:
 		panic(errors.ErrWTF)
 	}
 
-	cloned := false
+	ret := l.cloneWithExtra(len(ndata))
 scanning:
-	for i, e := range ndata {
+	for _, e := range ndata {
 		for j, f := range l.data {
 			if args.eq(f, e) {
-				if !cloned {
-					l = l.cloneWithExtra(0)
-					cloned = true
-				}
-				l.data[j] = args.f(f, e)
+				ret.data[j] = args.f(f, e)
 				matches++
 				continue scanning
 			}
 		}
-		if len(l.data) < maxLeafLen {
-			l = newTwig(append(l.data, e)...)
-		} else {
-			b := &branch[T]{}
-			for _, e := range l.data {
-				_, m := b.Add(args, e, depth, newHasher(e, depth))
-				matches += m
-			}
-			for _, e := range ndata[i:] {
-				_, m := b.Add(args, e, depth, newHasher(e, depth))
-				matches += m
-			}
-		}
-	}
-	if len(l.data) > maxLeafLen {
-		panic(errors.ErrWTF)
+		ret.data = append(ret.data, e)
 	}
-	return l.Canonical(depth), matches
+	return ret.Canonical(depth), matches
 }
 
 func (l *twig[T]) AppendTo(dest []T) []T {
-- 
2.43.0


From 4c4631f802b60b21b43bd9ab513f33cbdd6cc3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 03/21] fix: do not initialise flipped combine arguments from
 parallel workers

---
 internal/pkg/tree/nodeArgs.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/internal/pkg/tree/nodeArgs.go b/internal/pkg/tree/nodeArgs.go
index b5a109e..67863a5 100644
--- a/internal/pkg/tree/nodeArgs.go
+++ b/internal/pkg/tree/nodeArgs.go
@@ -34,18 +34,17 @@ type CombineArgs[T any] struct {
 }
 
 func NewCombineArgs[T any](ea *EqArgs[T], combine func(a, b T) T) *CombineArgs[T] {
-	return &CombineArgs[T]{EqArgs: ea, f: combine}
+	a := &CombineArgs[T]{EqArgs: ea, f: combine}
+	// Flip may be called from parallel workers, so prepare its result up front.
+	a.flipped = &CombineArgs[T]{
+		EqArgs:  ea,
+		f:       func(a, b T) T { return combine(b, a) },
+		flipped: a,
+	}
+	return a
 }
 
 func (a *CombineArgs[T]) Flip() *CombineArgs[T] {
-	if a.flipped == nil {
-		f := a.f
-		a.flipped = &CombineArgs[T]{
-			EqArgs:  a.EqArgs,
-			f:       func(a, b T) T { return f(b, a) },
-			flipped: a,
-		}
-	}
 	return a.flipped
 }
 
-- 
2.43.0


From 1c34430ae7fedf1a0da95c8a9b117ec055cfd774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 04/21] fix: do not update the shared mask from parallel
 combine workers

---
 internal/pkg/tree/branch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pkg/tree/branch.go b/internal/pkg/tree/branch.go
index 8a9aa92..43d5138 100644
--- a/internal/pkg/tree/branch.go
+++ b/internal/pkg/tree/branch.go
@@ -98,9 +98,9 @@ func (b *branch[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[
 		_, matches = args.Parallel(depth, b.p.mask|n.p.mask, func(i int) (_ bool, matches int) {
 			x, y := b.p.data[i], n.p.data[i]
 			if x == nil {
-				ret.p.SetNonNilChild(i, y)
+				ret.p.data[i] = y
 			} else if y == nil {
-				ret.p.SetNonNilChild(i, x)
+				ret.p.data[i] = x
 			} else {
 				var n node[T]
 				n, matches = x.Combine(args, y, depth+1)
-- 
2.43.0


From ee9f1a80843e9b6bf61bc1b9aa0a7797c3ea59ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 05/21] fix: do not hand the internal storage of a node to a
 reducer

---
 internal/pkg/tree/leaf2.go | 3 ++-
 internal/pkg/tree/twig.go  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/pkg/tree/leaf2.go b/internal/pkg/tree/leaf2.go
index 7177178..7c350de 100644
--- a/internal/pkg/tree/leaf2.go
+++ b/internal/pkg/tree/leaf2.go
@@ -168,7 +168,8 @@ func (l *leaf2[T]) Iterator([][]node[T]) Iterator[T] {
 }
 
 func (l *leaf2[T]) Reduce(_ NodeArgs, _ int, r func(values ...T) T) T {
-	return r(l.data[:]...)
+	data := l.data
+	return r(data[:]...)
 }
 
 func (l *leaf2[T]) Remove(v T, _ int, _ hasher) (_ node[T], matches int) {
diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index 55fb13f..a4b00c7 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -199,7 +199,7 @@ func (l *twig[T]) Iterator([][]node[T]) Iterator[T] {
 }
 
 func (l *twig[T]) Reduce(_ NodeArgs, _ int, r func(values ...T) T) T {
-	return r(l.data...)
+	return r(append(([]T)(nil), l.data...)...)
 }
 
 func (l *twig[T]) Remove(v T, depth int, _ hasher) (_ node[T], matches int) {
-- 
2.43.0


From 6bca97f14fe665033d1d140a7e180748652cade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 06/21] fix: do not dereference the missing root when
 formatting an empty tree

---
 internal/pkg/tree/tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/pkg/tree/tree.go b/internal/pkg/tree/tree.go
index 72e6ace..b187331 100644
--- a/internal/pkg/tree/tree.go
+++ b/internal/pkg/tree/tree.go
@@ -41,6 +41,7 @@ func (t Tree[T]) String() string {
 func (t Tree[T]) Format(f fmt.State, verb rune) {
 	if t.root == nil {
 		fu.WriteString(f, "∅")
+		return
 	}
 	t.root.Format(f, verb)
 }
-- 
2.43.0


From 8d775c1effd0716c041bb8e16b989878ff2010ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 07/21] fix: wait for all parallel workers and surface their
 failures in the caller

---
 internal/pkg/depth/gauge.go | 41 ++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/internal/pkg/depth/gauge.go b/internal/pkg/depth/gauge.go
index 821fb43..5f405df 100644
--- a/internal/pkg/depth/gauge.go
+++ b/internal/pkg/depth/gauge.go
@@ -51,24 +51,51 @@ func NewGauge(count int) Gauge {
 func (pd Gauge) Parallel(depth int, mask masker.Masker, f func(i int) (bool, int)) (_ bool, matches int) {
 	if depth < int(pd) {
 		type outcome struct {
-			matches int
-			ok      bool
+			matches  int
+			ok       bool
+			returned bool
+			panicked any
 		}
 		outcomes := make(chan outcome, Fanout)
 		for m := mask; m != 0; m = m.Next() {
 			i := m.FirstIndex()
 			go func() {
-				ok, m := f(i)
-				outcomes <- outcome{matches: m, ok: ok}
+				var o outcome
+				defer func() {
+					if !o.returned {
+						// f panicked, or called runtime.Goexit.
+						o.panicked = recover()
+					}
+					outcomes <- o
+				}()
+				o.ok, o.matches = f(i)
+				o.returned = true
 			}()
 		}
+		// Wait for every worker, so that none outlives the operation, and let
+		// failures surface in the caller's goroutine.
+		ok := true
+		var failed *outcome
 		for m := mask; m != 0; m = m.Next() {
-			if o := <-outcomes; o.ok {
+			o := <-outcomes
+			switch {
+			case !o.returned:
+				failed = &o
+			case !o.ok:
+				ok = false
+			default:
 				matches += o.matches
-			} else {
-				return false, matches
 			}
 		}
+		if failed != nil {
+			if failed.panicked != nil {
+				panic(failed.panicked)
+			}
+			runtime.Goexit()
+		}
+		if !ok {
+			return false, matches
+		}
 	} else {
 		for m := mask; m != 0; m = m.Next() {
 			i := m.FirstIndex()
-- 
2.43.0


From 083728fb2ab69309fc4386df0a33b08a90450c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 08/21] fix: make membership in a lazy difference consult both
 operands

---
 lazy/set_diff.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lazy/set_diff.go b/lazy/set_diff.go
index cb550c6..818ff63 100644
--- a/lazy/set_diff.go
+++ b/lazy/set_diff.go
@@ -18,14 +18,19 @@ func difference(a, b Set) Set {
 }
 
 func (s *differenceSet) Has(el any) bool {
-	return s.a.Has(el) || s.b.Has(el)
+	return s.a.Has(el) && !s.b.Has(el)
 }
 
 func (s *differenceSet) FastHas(el any) (has, ok bool) {
-	if has, ok = s.a.FastHas(el); ok {
-		return
+	aHas, aOk := s.a.FastHas(el)
+	if aOk && !aHas {
+		return false, true
 	}
-	return s.a.FastHas(el)
+	bHas, bOk := s.b.FastHas(el)
+	if bOk && bHas {
+		return false, true
+	}
+	return aOk && bOk, aOk && bOk
 }
 
 func (s *differenceSet) Range() SetIterator {
-- 
2.43.0


From dbf9f978c5236c0023f84c1a3120bf2c7a428b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 09/21] fix: make fast membership in a lazy union consult both
 operands

---
 lazy/set_union.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lazy/set_union.go b/lazy/set_union.go
index f25c009..832466c 100644
--- a/lazy/set_union.go
+++ b/lazy/set_union.go
@@ -32,10 +32,15 @@ func (s *unionSet) Has(el any) bool {
 }
 
 func (s *unionSet) FastHas(el any) (has, ok bool) {
-	if has, ok = s.a.FastHas(el); ok {
-		return has, ok
+	aHas, aOk := s.a.FastHas(el)
+	if aOk && aHas {
+		return true, true
 	}
-	return s.a.FastHas(el)
+	bHas, bOk := s.b.FastHas(el)
+	if bOk && bHas {
+		return true, true
+	}
+	return false, aOk && bOk
 }
 
 func (s *unionSet) Range() SetIterator {
-- 
2.43.0


From d6d998f1c1eb7bc87c97d121989da18aa3f763fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 10/21] fix: do not treat every lazy set as equal to the empty
 one

---
 lazy/set_empty.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy/set_empty.go b/lazy/set_empty.go
index d46248f..cd5f410 100644
--- a/lazy/set_empty.go
+++ b/lazy/set_empty.go
@@ -36,9 +36,9 @@ func (EmptySet) Freeze() Set {
 	return Frozen(frozen.Set[any]{})
 }
 
-func (EmptySet) Equal(set any) bool {
+func (s EmptySet) Equal(set any) bool {
 	if set, ok := set.(Set); ok {
-		return set.EqualSet(set)
+		return s.EqualSet(set)
 	}
 	return false
 }
-- 
2.43.0


From 7e8af59d87b868be3f46a3de5515889316c9d012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:42 +0000
Subject: [PATCH 11/21] fix: hash a lazy set by its elements, not by how it
 enumerates them

---
 lazy/set_base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy/set_base.go b/lazy/set_base.go
index 27b5830..9dfc0d2 100644
--- a/lazy/set_base.go
+++ b/lazy/set_base.go
@@ -75,8 +75,8 @@ func (s *baseSet) EqualSet(t Set) bool {
 
 func (s *baseSet) Hash(seed uintptr) uintptr {
 	h := hash.Uintptr(hashSeed, seed)
-	for i := s.set.Range(); i.Next(); {
-		h = hash.Any(i.Value(), h)
+	for i := memo(s.set).Range(); i.Next(); {
+		h ^= hash.Any(i.Value(), seed)
 	}
 	return h
 }
-- 
2.43.0


From 71d0844aaaff603a7f8096c7df7efa687496846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:42 +0000
Subject: [PATCH 12/21] fix: count each element of a lazy set once

---
 lazy/set_base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_base.go b/lazy/set_base.go
index 9dfc0d2..374265e 100644
--- a/lazy/set_base.go
+++ b/lazy/set_base.go
@@ -43,7 +43,7 @@ func (s *baseSet) CountUpTo(limit int) int {
 		return count
 	}
 	n := 0
-	for i := s.set.Range(); n < limit && i.Next(); {
+	for i := memo(s.set).Range(); n < limit && i.Next(); {
 		n++
 	}
 	return n
-- 
2.43.0


From fa4be0a3feccce9db9912a38a5cbf2e77198b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 13/21] fix: enumerate each element once when building a lazy
 powerset

---
 lazy/set_powerset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index 21482cc..b9f5598 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -12,7 +12,7 @@ type powerSet struct {
 }
 
 func powerset(set Set) Set {
-	s := &powerSet{set: set}
+	s := &powerSet{set: memo(set)}
 	s.baseSet.set = s
 	return memo(s)
 }
-- 
2.43.0


From ea15cdc529cc2a817d0ed03754f6903cc99fa7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:44 +0000
Subject: [PATCH 14/21] fix: recognise the elements a lazy powerset enumerates
 as its members

---
 lazy/set_powerset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index b9f5598..7336d76 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -57,8 +57,8 @@ func (s *powerSet) FastCountUpTo(limit int) (count int, ok bool) {
 }
 
 func (s *powerSet) Has(el any) bool {
-	ss, ok := el.(frozen.Set[any])
-	return ok && Frozen(ss).IsSubsetOf(s.set)
+	ss, ok := el.(Set)
+	return ok && ss.IsSubsetOf(s.set)
 }
 
 func (s *powerSet) Range() SetIterator {
-- 
2.43.0


From 9579ff5c1df66784ccf70a7a28fafef9ce715004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:44 +0000
Subject: [PATCH 15/21] fix: let a lazy powerset iterator be asked again after
 its end

---
 lazy/set_powerset.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index 7336d76..182b0de 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -80,10 +80,8 @@ type powerSetSetIterator struct {
 func (i *powerSetSetIterator) Next() bool {
 	i.mask++
 	if i.mask >= i.end {
-		if i.mask > i.end {
-			panic("called Next() after reaching the end")
-		}
 		if !i.i.Next() {
+			i.mask--
 			return false
 		}
 		i.elems = append(i.elems, i.i.Value())
-- 
2.43.0


From bb0c8a01508380deedec640b3bcdeeaea49c1276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 16/21] fix: publish the memoised contents of a lazy set only
 once per iterator

---
 lazy/set_memo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lazy/set_memo.go b/lazy/set_memo.go
index 3b920fe..0014493 100644
--- a/lazy/set_memo.go
+++ b/lazy/set_memo.go
@@ -41,15 +41,20 @@ type cachingIterator struct {
 	iter SetIterator
 	s    *memoSet
 	seen frozen.SetBuilder[any]
+	done bool
 }
 
 func (i *cachingIterator) Next() bool {
+	if i.done {
+		return false
+	}
 	for i.iter.Next() {
 		if val := i.iter.Value(); !i.seen.Has(val) {
 			i.seen.Add(val)
 			return true
 		}
 	}
+	i.done = true
 	seen := Frozen(i.seen.Finish())
 	atomic.StorePointer(i.s.pointer(), unsafe.Pointer(&seen))
 	return false
-- 
2.43.0


From cbed43071c1c2df16a4989f1911956c523bfec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:50 +0000
Subject: [PATCH 17/21] fix: joining with an empty relation yields an empty
 relation

---
 pkg/rel/relation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/rel/relation.go b/pkg/rel/relation.go
index 3d40aa1..af072f4 100644
--- a/pkg/rel/relation.go
+++ b/pkg/rel/relation.go
@@ -58,9 +58,12 @@ func Join(relations ...Relation) Relation {
 }
 
 func join(s, t Relation) Relation {
-	if s.IsEmpty() || t.IsEmpty() {
+	if s.IsEmpty() {
 		return s
 	}
+	if t.IsEmpty() {
+		return t
+	}
 	if s.Equal(trueSet) {
 		return t
 	}
-- 
2.43.0


From 7ec7b72de0c292b60294adce99be01d48f5c030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 18/21] fix: store negative integers in integer sets

---
 intset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intset.go b/intset.go
index 5fe4545..db6a04f 100644
--- a/intset.go
+++ b/intset.go
@@ -23,7 +23,7 @@ const (
 )
 
 func locateCell[I integer](i I) (cell I, bitMask cellMask) {
-	return i >> cellShift, cellMask(1) << uint(i%cellBits)
+	return i >> cellShift, cellMask(1) << (uint(i) % cellBits)
 }
 
 // NewIntSet returns an IntSet with the values provided.
-- 
2.43.0


From 74c146330105bebb531c4a743324c6e853809977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 19/21] fix: report every failed write when formatting sets,
 maps and pairs

---
 kv.go  | 2 +-
 map.go | 2 +-
 set.go | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kv.go b/kv.go
index 5c71bc5..54dae09 100644
--- a/kv.go
+++ b/kv.go
@@ -33,7 +33,7 @@ func (kv KeyValue[K, V]) String() string {
 // String returns a string representation of a KeyValue[K, V].
 func (kv KeyValue[K, V]) Format(f fmt.State, verb rune) {
 	fu.Format(kv.Key, f, verb)
-	f.Write([]byte{':'}) //nolint:errcheck
+	fu.WriteString(f, ":")
 	fu.Format(kv.Value, f, verb)
 }
 
diff --git a/map.go b/map.go
index 16fee54..0e508e9 100644
--- a/map.go
+++ b/map.go
@@ -245,7 +245,7 @@ func (m Map[K, V]) String() string {
 // Format writes a string representation of the Map into state.
 func (m Map[K, V]) Format(f fmt.State, verb rune) {
 	if verb == 'v' && f.Flag('+') {
-		f.Write([]byte{'M'}) //nolint:errcheck
+		fu.WriteString(f, "M")
 		m.tree.Format(f, verb)
 		return
 	}
diff --git a/set.go b/set.go
index d3b552f..a9d39b2 100644
--- a/set.go
+++ b/set.go
@@ -133,7 +133,7 @@ func (s Set[T]) String() string {
 // Format writes a string representation of the Set into state.
 func (s Set[T]) Format(f fmt.State, verb rune) {
 	if verb == 'v' && f.Flag('+') {
-		f.Write([]byte{'S'}) //nolint:errcheck
+		fu.WriteString(f, "S")
 		s.tree.Format(f, verb)
 		return
 	}
@@ -149,7 +149,7 @@ func (s Set[T]) Format(f fmt.State, verb rune) {
 		if n > 0 {
 			fu.WriteString(f, ", ")
 		}
-		fmt.Fprintf(f, "%v", i.Value())
+		fu.Fprintf(f, "%v", i.Value())
 	}
 	fu.WriteString(f, "}")
 }
-- 
2.43.0


From 8f48840178507c6b1b6e3e2a05cad6a9fdb0becc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 20/21] fix: memoise a lazy set from which nothing is
 subtracted

---
 lazy/set_diff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_diff.go b/lazy/set_diff.go
index 818ff63..ea81dbe 100644
--- a/lazy/set_diff.go
+++ b/lazy/set_diff.go
@@ -10,7 +10,7 @@ func difference(a, b Set) Set {
 		return a
 	}
 	if empty, ok := b.FastIsEmpty(); ok && empty {
-		return a
+		return memo(a)
 	}
 	s := &differenceSet{a: a, b: b}
 	s.baseSet.set = s
-- 
2.43.0


From aa3f2709e3a4903ada1b944ad42b08874ee4213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 21/21] fix: clear only the given bit in BitIterator.Without

&^ and << have the same precedence, so the old expression shifted all
remaining bits instead of clearing bit i.
---
 bititer.go                       | 2 +-
 internal/pkg/iterator/bititer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bititer.go b/bititer.go
index 9535fb9..dc731e5 100644
--- a/bititer.go
+++ b/bititer.go
@@ -30,7 +30,7 @@ func (b BitIterator) With(i int) BitIterator {
 }
 
 func (b BitIterator) Without(i int) BitIterator {
-	return b &^ BitIterator(1) << uint(i)
+	return b &^ (BitIterator(1) << uint(i))
 }
 
 func (b BitIterator) String() string {
diff --git a/internal/pkg/iterator/bititer.go b/internal/pkg/iterator/bititer.go
index a8d4f86..daf38d5 100644
--- a/internal/pkg/iterator/bititer.go
+++ b/internal/pkg/iterator/bititer.go
@@ -30,7 +30,7 @@ func (b BitIterator) With(i int) BitIterator {
 }
 
 func (b BitIterator) Without(i int) BitIterator {
-	return b &^ BitIterator(1) << uint(i)
+	return b &^ (BitIterator(1) << uint(i))
 }
 
 func (b BitIterator) String() string {
-- 
2.43.0

