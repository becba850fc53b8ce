From e5425e37dfdfac9d0ab4f557ab7f9a30c93d864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:45 +0000
Subject: [PATCH 01/51] fix: allow unions of hashable items that cannot be
 compared

Choosing the heaviest root compared (weight, item) pairs, so a tie in
weight compared the items themselves and raised TypeError for items
without a mutual order.
---
 pads/union_find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/union_find.py b/pads/union_find.py
index 320bba1..402b836 100644
--- a/pads/union_find.py
+++ b/pads/union_find.py
@@ -59,7 +59,7 @@ class UnionFind:
     def union(self, *objects):
         """Find the sets containing the objects and merge them all."""
         roots = [self[x] for x in objects]
-        heaviest = max([(self.weights[r], r) for r in roots])[1]
+        heaviest = max(roots, key=lambda r: self.weights[r])
         for r in roots:
             if r != heaviest:
                 self.weights[heaviest] += self.weights[r]
-- 
2.43.0


From 109bd7f332941b370051c086fbf8765db3e129dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:44 +0000
Subject: [PATCH 02/51] fix: remove only the given integer from a bit-vector
 heap

The mask cleared every bit up to and including the given one, so removing
a non-minimal integer also removed all smaller ones.
---
 pads/integer_heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/integer_heap.py b/pads/integer_heap.py
index f851690..206c464 100644
--- a/pads/integer_heap.py
+++ b/pads/integer_heap.py
@@ -83,7 +83,7 @@ class BitVectorHeap:
 
     def remove(self, x):
         """Remove x from the values in the heap."""
-        self._S &= ~ 1 << x
+        self._S &= ~(1 << x)
 
     def min(self):
         """Return the minimum value in the heap."""
-- 
2.43.0


From cacb8174bf22e8d5ea6f62df0a143834a78442e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:47 +0000
Subject: [PATCH 03/51] fix: do not list a re-added member of a sorted set
 twice

Adding an item that is already in the set after an iteration queued it as
a new item, so the next iteration listed it twice.
---
 pads/sorted_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/sorted_set.py b/pads/sorted_set.py
index 82b71c2..e51a45b 100644
--- a/pads/sorted_set.py
+++ b/pads/sorted_set.py
@@ -39,9 +39,9 @@ class SortedSet:
 
     def add(self, item):
         """Add the given item to a sorted set."""
-        self._set.add(item)
-        if self._previous:
+        if self._previous and item not in self._set:
             self._additions.add(item)
+        self._set.add(item)
 
     def remove(self, item):
         """Remove the given item from a sorted set."""
-- 
2.43.0


From 0f7d6f856fc2dab04d9e4362ee00e375f9c9d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:59 +0000
Subject: [PATCH 04/51] fix: refuse to index an empty sequence

Indexing an empty sequence at 0 returned None, or the item removed last. It now raises IndexError like any other index past the end.
---
 pads/sequence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/sequence.py b/pads/sequence.py
index adc3a2b..38bc354 100644
--- a/pads/sequence.py
+++ b/pads/sequence.py
@@ -46,6 +46,8 @@ class Sequence:
 
     def __getitem__(self, i):
         """Return the ith item in the sequence."""
+        if not self._next:
+            raise IndexError("Index out of range")
         item = self._first
         while i:
             item = self._next[item]
-- 
2.43.0


From ccef4213e19a6afc3623555f051adf08a0f2f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:02 +0000
Subject: [PATCH 05/51] fix: use sys.maxsize for ordered sequence tags

sys.maxint does not exist in Python 3, so no item could be added to an ordered sequence.
---
 pads/ordered_sequence.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 9d6a933..5f4e146 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -18,7 +18,7 @@ class SimpleOrderedSequence(Sequence):
     for each item, with the order of tags the same as the sequence order.
     When two tags collide, we renumber the whole sequence; this behavior
     can be changed by overriding the rebalance method.  Renumbers happen
-    infrequently (roughly one in every log(sys.maxint) insertions)
+    infrequently (roughly one in every log(sys.maxsize) insertions)
     but take time proportional to the number of items, so it is preferable
     to use this data structure only for sequences of very few items.
     """
@@ -45,7 +45,7 @@ class SimpleOrderedSequence(Sequence):
         """Add x to the end of the sequence."""
         if not self._next:  # add to empty sequence
             Sequence.append(self, x)
-            self._tag[self.key(x)] = sys.maxint // 2
+            self._tag[self.key(x)] = sys.maxsize // 2
         else:
             self.insertAfter(self._prev[self._first], x)
 
@@ -56,7 +56,7 @@ class SimpleOrderedSequence(Sequence):
         y = self.key(y)
         next = self._next[y]
         if next == self._first:
-            nexttag = sys.maxint
+            nexttag = sys.maxsize
         else:
             nexttag = self._tag[next]
         xtag = self._tag[x]
@@ -77,7 +77,7 @@ class SimpleOrderedSequence(Sequence):
     def rebalance(self, x):
         """Clean up after x and its successor's tags collide."""
         base = 0
-        increment = sys.maxint // len(self)
+        increment = sys.maxsize // len(self)
         for y in self:
             self._tag[y] = base
             base += increment
-- 
2.43.0


From 513fb3cf747a565745d372b4fc2266a50fc5b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:32 +0000
Subject: [PATCH 06/51] fix: append to an ordered sequence that has a key
 function

The key of the last item was passed where the item itself is expected, so the key function was applied twice.
---
 pads/ordered_sequence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 5f4e146..9619454 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -47,7 +47,8 @@ class SimpleOrderedSequence(Sequence):
             Sequence.append(self, x)
             self._tag[self.key(x)] = sys.maxsize // 2
         else:
-            self.insertAfter(self._prev[self._first], x)
+            last = self._prev[self._first]
+            self.insertAfter(self._items.get(last, last), x)
 
     def insertAfter(self, x, y):
         """Add y after x and compute a tag for it."""
-- 
2.43.0


From cee2dd4e9f1776fabb82c5a6b4c8559bc075acd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:50 +0000
Subject: [PATCH 07/51] fix: renumber ordered sequences by item key

Renumbering stored the new tags under the items instead of their keys. Unhashable items failed and other items kept their old tags.
---
 pads/ordered_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 9619454..9855233 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -80,7 +80,7 @@ class SimpleOrderedSequence(Sequence):
         base = 0
         increment = sys.maxsize // len(self)
         for y in self:
-            self._tag[y] = base
+            self._tag[self.key(y)] = base
             base += increment
 
 
-- 
2.43.0


From 01dbdc308f16e9c8e4061642b2d99a9dc5bbd51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:07 +0000
Subject: [PATCH 08/51] fix: assign a position to items inserted before a
 non-first item

Such items were linked into the sequence without a tag. Comparing them, or inserting next to them, raised KeyError.
---
 pads/ordered_sequence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 9855233..4ee38e0 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -67,6 +67,9 @@ class SimpleOrderedSequence(Sequence):
 
     def insertBefore(self, x, y):
         """Add y before x in the sequence."""
+        if self._next and self.key(x) != self._first:
+            self.insertAfter(self.predecessor(x), y)
+            return
         Sequence.insertBefore(self, x, y)
         x = self.key(x)
         y = self.key(y)
-- 
2.43.0


From 0ae16e5111be3cef26474a3fbed0fbf3416fb24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:40 +0000
Subject: [PATCH 09/51] fix: keep the sets of a partition that is frozen twice

Freezing an already frozen set returns the same object, so its entry was stored and then deleted.
---
 pads/partition_refinement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/partition_refinement.py b/pads/partition_refinement.py
index b907d5d..c3f5f48 100644
--- a/pads/partition_refinement.py
+++ b/pads/partition_refinement.py
@@ -87,5 +87,5 @@ class PartitionRefinement:
             F = frozenset(S)
             for x in F:
                 self._partition[x] = F
-            self._sets[id(F)] = F
             del self._sets[id(S)]
+            self._sets[id(F)] = F
-- 
2.43.0


From ffe2f76e312409386b2f1976fd804bde8b6100b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:10 +0000
Subject: [PATCH 10/51] fix: draw SVG rectangles at their own y coordinate

The x coordinate of the corner was written for both x and y.
---
 pads/svg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/svg.py b/pads/svg.py
index 0ebc634..a439293 100644
--- a/pads/svg.py
+++ b/pads/svg.py
@@ -111,11 +111,11 @@ class SVG:
     def rectangle(self, p, q, style={}, **morestyle):
         """Rectangle with corners at points p and q"""
         x = min(p.real, q.real)
-        # y = min(p.imag, q.imag)
+        y = min(p.imag, q.imag)
         width = abs((p - q).real)
         height = abs((p - q).imag)
         self.element('rect x="%s" y="%s" width="%s" height="%s"' %
-                     (_coord(x), _coord(x), _coord(width), _coord(height)),
+                     (_coord(x), _coord(y), _coord(width), _coord(height)),
                      style=style, **morestyle)
 
     def polygon(self, points, style={}, **morestyle):
-- 
2.43.0


From f658d2fe6e198846603c463d84dd332b4a5636f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:36 +0000
Subject: [PATCH 11/51] fix: break matrix search ties by row order, not row
 label

Tied values were compared by row label. Labels not given in increasing order picked a later row, and labels that cannot be compared raised TypeError.
---
 pads/smawk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/smawk.py b/pads/smawk.py
index 948ab4c..16e3db8 100644
--- a/pads/smawk.py
+++ b/pads/smawk.py
@@ -69,7 +69,7 @@ def ConcaveMinima(RowIndices, ColIndices, Matrix):
         while row != lastrow:
             r += 1
             row = RowIndices[r]
-            pair = min(pair, (Matrix(row, col), row))
+            pair = min(pair, (Matrix(row, col), row), key=lambda p: p[0])
         minima[col] = pair
 
     return minima
-- 
2.43.0


From 9fa1a27d27c7ddbfde35ba5a58bf15f0d7f4941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:50 +0000
Subject: [PATCH 12/51] fix: accept the empty string from the final state of a
 regular expression

Making the initial states accepting also accepted every string that can
return to one of them, and accepted nothing when there were none.  Start in
the final state as well instead.
---
 pads/automata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index 590ae02..02ae010 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -389,7 +389,7 @@ class RegExp(NFA):
             self.successor[state].add(final)
         self.final = frozenset([final])
         if epsilon:
-            self.final = self.final | self.initial
+            self.initial = self.initial | self.final
 
     def transition(self, state, c):
         """Implement NFA transition function."""
-- 
2.43.0


From 3228411ce5dbffccc4cc138fa49113a7aa86bfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:53 +0000
Subject: [PATCH 13/51] fix: restore the emptiness test of regular languages

The method had its Python 2 name, so every language was true and every
subset comparison was false; it also asked the state, not the automaton.
---
 pads/automata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index 02ae010..6fb9460 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -94,10 +94,10 @@ class RegularLanguage:
             raise LanguageError("Unable to intersect nonregular language")
         return language(self.recognizer.symmetricDifference(other.recognizer))
 
-    def __nonzero__(self):
-        """Is this the empty language?"""
+    def __bool__(self):
+        """Is this language nonempty?"""
         for x in self.recognizer.states():
-            if x.isfinal():
+            if self.recognizer.isfinal(x):
                 return True
         return False
 
-- 
2.43.0


From 0891d86c1caca308701980f7f827585b9c981822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:57 +0000
Subject: [PATCH 14/51] fix: compare accepting states in DFA equality

Two automata with the same transitions compared equal whatever they accepted.
---
 pads/automata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/automata.py b/pads/automata.py
index 6fb9460..356cfff 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -209,6 +209,8 @@ class DFA(FiniteAutomaton):
         while unprocessed:
             x = unprocessed.pop()
             y = equivalences[x]
+            if bool(self.isfinal(x)) != bool(other.isfinal(y)):
+                return False
             for c in self.alphabet:
                 xc = self.transition(x, c)
                 yc = other.transition(y, c)
-- 
2.43.0


From 3a626d97af64c3d3b864617a82b2c5887ec3b272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:59 +0000
Subject: [PATCH 15/51] fix: print automata with the print function

The Python 2 print statements raised TypeError.
---
 pads/automata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index 356cfff..5bbf333 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -263,12 +263,12 @@ class NFA(FiniteAutomaton):
             if not [c for c in self.alphabet if self.transition(state, c)]:
                 adjectives.append("terminal")
             if not adjectives:
-                print >>output, state
+                print(state, file=output)
             else:
-                print >>output, state, "(" + ", ".join(adjectives) + ")"
+                print(state, "(" + ", ".join(adjectives) + ")", file=output)
             for c in self.alphabet:
                 for neighbor in self.transition(state, c):
-                    print >>output, "  --[" + str(c) + "]-->", neighbor
+                    print("  --[" + str(c) + "]-->", neighbor, file=output)
 
     def RegExp(self):
         """Convert to regular expression and return as a string.
-- 
2.43.0


From a6da2378b6398522ea7c9b70ae8c4f1e0b5deb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:02 +0000
Subject: [PATCH 16/51] fix: write the empty string explicitly in an extracted
 alternative

An empty first alternative left a leading plus sign, which reads back as a
literal symbol.
---
 pads/automata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pads/automata.py b/pads/automata.py
index 5bbf333..e4ce83b 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -312,6 +312,7 @@ class NFA(FiniteAutomaton):
                         if expr[s, y]:
                             xsy += self._parenthesize(expr[s, y])
                         if expr[x, y] is not None:
+                            xsy = xsy or ['()']
                             xsy += ['+', expr[x, y] or '()']
                         expr[x, y] = ''.join(xsy)
         return expr[initial, final]
-- 
2.43.0


From 1777b7a5bd54878722d35f083fd1d10cf7b88d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:21:00 +0000
Subject: [PATCH 17/51] fix: keep the splitter fixed while refining during
 minimization

A part could lose members to its own refinement by one symbol before it was
used for the next, so some distinguishable states stayed merged.
---
 pads/automata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index e4ce83b..a3e89a4 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -587,9 +587,10 @@ class _MinimumDFA(DFA):
         while unrefined:
             part = arbitrary_item(unrefined)
             unrefined.remove(part)
+            splitter = list(part)   # part may be split while we use it
             for symbol in D.alphabet:
                 neighbors = set()
-                for state in part:
+                for state in splitter:
                     neighbors |= N.transition(state, symbol)
                 for new, old in P.refine(neighbors):
                     if old in unrefined or len(new) < len(old):
-- 
2.43.0


From 1bc4c99fcc15b9306422c3866779d47d9836d935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:07 +0000
Subject: [PATCH 18/51] fix: traverse the empty graph in lexicographic order

The partition of no vertices has one empty part, from which the search tried
to take a vertex.
---
 pads/lex_bfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/lex_bfs.py b/pads/lex_bfs.py
index b23d0bd..396c165 100644
--- a/pads/lex_bfs.py
+++ b/pads/lex_bfs.py
@@ -22,7 +22,7 @@ def lex_bfs(G):
     Running time is O(n+m) and additional space usage over G is O(n).
     """
     P = PartitionRefinement(G)
-    S = Sequence(P, key=id)
+    S = Sequence((part for part in P if part), key=id)
     while S:
         set = S[0]
         v = arbitrary_item(set)
-- 
2.43.0


From 590261102eac8e365f4333d6f7aaeda8f9693a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:30:52 +0000
Subject: [PATCH 19/51] fix: refuse to st-orient a graph with isolated vertices

Counting blocks overlooked vertices without edges, so a biconnected graph
plus isolated vertices was oriented with extra sources.
---
 pads/biconnectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/biconnectivity.py b/pads/biconnectivity.py
index eacc0b1..4960c82 100644
--- a/pads/biconnectivity.py
+++ b/pads/biconnectivity.py
@@ -191,7 +191,7 @@ class STOrienter(Searcher):
 def st_orientation(G):
     """Find an acyclic orientation of G, with one source and one sink."""
     stO = STOrienter(G)
-    if len(stO.roots) != 1:
+    if len(stO.roots) != 1 or not all(G[v] for v in G):
         raise NotBiconnected
 
     source, dest = stO.roots[0]
-- 
2.43.0


From 83f7e4d31c29903f04020fa504f2af93a14c484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:28 +0000
Subject: [PATCH 20/51] fix: return an empty core above the degeneracy

The deepest core was returned instead, whose vertices have too few neighbours.
---
 pads/graphdegeneracy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/graphdegeneracy.py b/pads/graphdegeneracy.py
index 344d486..7b711db 100644
--- a/pads/graphdegeneracy.py
+++ b/pads/graphdegeneracy.py
@@ -49,6 +49,8 @@ def core(G, k=None):
                 coreset = set()         # yes, restart core
                 level = d
         coreset.add(v)
+    if k is not None and level < k:     # never got as deep as requested?
+        return set()
     return coreset
 
 
-- 
2.43.0


From 61cc14daef68106276c1d74991d082e542b92b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:30 +0000
Subject: [PATCH 21/51] fix: sort spanning tree edges by weight only

Edges of equal weight were compared by their vertices, which need not be
comparable.
---
 pads/minimum_spanning_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/minimum_spanning_tree.py b/pads/minimum_spanning_tree.py
index 53cb041..a0759da 100644
--- a/pads/minimum_spanning_tree.py
+++ b/pads/minimum_spanning_tree.py
@@ -28,7 +28,8 @@ def MinimumSpanningTree(G):
     # part (the sort) is sped up by being built in to Python.
     subtrees = UnionFind()
     tree = []
-    for W, u, v in sorted((G[u][v], u, v) for u in G for v in G[u]):
+    for W, u, v in sorted(((G[u][v], u, v) for u in G for v in G[u]),
+                          key=lambda edge: edge[0]):
         if subtrees[u] != subtrees[v]:
             tree.append((u, v))
             subtrees.union(u, v)
-- 
2.43.0


From 7798407371982ae6f23ced7bbd05a2db9995a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:28 +0000
Subject: [PATCH 22/51] fix: report every edge imperfect when one side has
 unmatched vertices

imperfections() only compared the matching size with the number of left
vertices, so a graph with more right than left vertices raised KeyError.
---
 pads/bipartite_matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/bipartite_matching.py b/pads/bipartite_matching.py
index 7a4b156..9058a05 100644
--- a/pads/bipartite_matching.py
+++ b/pads/bipartite_matching.py
@@ -98,7 +98,7 @@ def imperfections(graph):
     not including v.
     """
     M, A, B = matching(graph)
-    if len(M) != len(graph):
+    if len(M) != len(graph) or any(w not in M for v in graph for w in graph[v]):
         return graph    # whole graph is imperfect
 
     orientation = {}
-- 
2.43.0


From a4f86c6bc28b11bbb83c9e09ca1c693433da7b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:07 +0000
Subject: [PATCH 23/51] fix: reject topological orders that repeat a vertex

isTopologicalOrder() accepted sequences listing a vertex more than once.
---
 pads/partial_order.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index 630744f..f151579 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -13,7 +13,7 @@ def isTopologicalOrder(G, L):
     """Check that L is a topological ordering of directed graph G."""
     vnum = {}
     for i in range(len(L)):
-        if L[i] not in G:
+        if L[i] not in G or L[i] in vnum:
             return False
         vnum[L[i]] = i
     for v in G:
-- 
2.43.0


From c42fea3da883d31ec4b7920fe8b6bfde38f91903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:09 +0000
Subject: [PATCH 24/51] fix: trace each path from its first vertex

TracePaths() assumed that a topological order keeps paths contiguous.  When
the search happened to start inside a path another path could be interleaved
with it, and both were returned in pieces, so path and chain decompositions
were not minimum.
---
 pads/partial_order.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index f151579..cf251fa 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -57,14 +57,13 @@ def TracePaths(G):
     """
     Turn a DAG with indegree and outdegree <= 1 into a sequence of lists.
     """
-    L = []
+    targets = {w for v in G for w in G[v]}
     for v in TopologicalOrder(G):
-        if L and v not in G[L[-1]]:
+        if v not in targets:
+            L = [v]
+            while G[L[-1]]:
+                L.extend(G[L[-1]])
             yield L
-            L = []
-        L.append(v)
-    if L:
-        yield L
 
 
 def MinimumPathDecomposition(G):
-- 
2.43.0


From ef4db7b1f3f63885ee4887042dd4087cdbb268b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:16 +0000
Subject: [PATCH 25/51] fix: include minimal elements in maximum antichains

The matching only reports right-hand vertices that have an edge, so elements
without predecessors were dropped from the antichain.
---
 pads/partial_order.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index cf251fa..5fd2dfd 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -94,5 +94,8 @@ def MaximumAntichain(G):
     """
     if not isAcyclic(G):
         raise ValueError("MaximumAntichain: input is not acyclic.")
-    M, A, B = matching(TransitiveClosure(G))
-    return set(A).intersection(B)
+    TC = TransitiveClosure(G)
+    M, A, B = matching(TC)
+    # B omits the vertices without predecessors, which are always independent
+    covered = {w for v in TC for w in TC[v]}.difference(B)
+    return set(A).difference(covered)
-- 
2.43.0


From 2461b1b7c5807f2a9f2f458474fcdc347cf48451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:21 +0000
Subject: [PATCH 26/51] fix: do not compare vertices when choosing the root

The vertex of maximum degree was found by comparing (degree, vertex) pairs,
which fails for vertices that have no order.
---
 pads/partial_cube.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/partial_cube.py b/pads/partial_cube.py
index 19ac1ba..bae4af4 100644
--- a/pads/partial_cube.py
+++ b/pads/partial_cube.py
@@ -60,7 +60,8 @@ def PartialCubeEdgeLabeling(G):
             raise MediumError("graph is not bipartite")
 
         # Find max degree vertex in G, and update label limit
-        deg, root = max([(len(CG[v]), v) for v in CG])
+        root = max(CG, key=lambda v: len(CG[v]))
+        deg = len(CG[root])
         if deg > NL:
             raise MediumError("graph has too many equivalence classes")
         NL -= deg
-- 
2.43.0


From 67da09d5170c027256297e39c347f371f0de0ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:21:22 +0000
Subject: [PATCH 27/51] fix: read graphs in formats longer than one line

The lines kept for LEDA.GRAPH were an iterator that was then indexed, so
every file that was not graph6 or sparse6 ended in a TypeError.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index b0299d3..583df2e 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -370,7 +370,7 @@ def ledaLines(lines):
     """
     def relevant(line):
         return line and not line.startswith('#')
-    return filter(relevant, lines)
+    return list(filter(relevant, lines))
 
 
 def readLeda(lines):
-- 
2.43.0


From 20894ad941132aea8c4b5ff0f3f9fce6dcdc0d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:21:22 +0000
Subject: [PATCH 28/51] fix: skip the whole sparse6 header

The header has eleven characters but only ten were skipped, so text with
a header was refused.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 583df2e..6738735 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -307,7 +307,7 @@ def readGraph6(str):
 def readSparse6(str):
     """Read undirected graph in sparse6 format."""
     if str.startswith('>>sparse6<<'):
-        str = str[10:]
+        str = str[11:]
     if not str.startswith(':'):
         raise GraphFormatError('Expected colon in sparse6')
     n, data = graph6n(graph6data(str[1:]))
-- 
2.43.0


From fba8c61d97803a3e216a67b97e480d7788665c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:21:22 +0000
Subject: [PATCH 29/51] fix: end the sparse6 unit stream without an error

Running out of characters raised StopIteration inside a generator, which
Python turns into a RuntimeError.
---
 pads/read_undirected_graph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 6738735..1156fc7 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -323,7 +323,9 @@ def readSparse6(str):
 
         while 1:
             if dLen < 1:
-                d = next(chunks)
+                d = next(chunks, None)
+                if d is None:
+                    return
                 dLen = 6
             dLen -= 1
             b = (d >> dLen) & 1  # grab top remaining bit
@@ -331,7 +333,9 @@ def readSparse6(str):
             x = d & ((1 << dLen) - 1) 	# partially built up value of x
             xLen = dLen				# how many bits included so far in x
             while xLen < k:			# now grab full chunks until we have enough
-                d = next(chunks)
+                d = next(chunks, None)
+                if d is None:
+                    return
                 dLen = 6
                 x = (x << 6) + d
                 xLen += 6
-- 
2.43.0


From 92597f8a891e1d138523adbf19b3fd2eabd39d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:21:22 +0000
Subject: [PATCH 30/51] fix: stop at sparse6 padding that moves past the last
 vertex

When the number of vertices is a power of two the padding can read as an
edge at a vertex after the last one.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 1156fc7..2d5455c 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -352,7 +352,7 @@ def readSparse6(str):
     for b, x in parseData():
         if b:
             v += 1
-        if x >= n:
+        if x >= n or v >= n:
             break			# padding with ones can cause overlarge number here
         elif x > v:
             v = x
-- 
2.43.0


From 2dea1be1258677e4167715113dbac5d2e671557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:21:22 +0000
Subject: [PATCH 31/51] fix: keep line ends between the lines of GraphML

Lines were passed to the parser without their ends, so tags with
attributes on several lines ran together.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 2d5455c..2e09c02 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -241,7 +241,7 @@ def readGraphML(lines):
     p.StartElementHandler = start_element
     p.EndElementHandler = end_element
     for line in lines:
-        p.Parse(line)
+        p.Parse(line + '\n')
     p.Parse("", 1)
     return G
 
-- 
2.43.0


From 74124c73b30d9fbeea8fc2059d8ba4bf3b48d2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:21:22 +0000
Subject: [PATCH 32/51] fix: split a string argument into lines

A single string was always treated as one line, so only graph6 and
sparse6 could be given that way.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 2e09c02..500ec66 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -418,7 +418,7 @@ def readUndirectedGraph(arg):
     if isinstance(arg, FILE_TYPES):
         lines = [L.strip() for L in arg]
     elif isinstance(arg, STR_TYPES):
-        lines = [arg]
+        lines = [L.strip() for L in arg.splitlines()]
     else:
         lines = list(arg)
 
-- 
2.43.0


From 7dd4ebc6ec5d419eba65003f18184d61101ccf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:25:29 +0000
Subject: [PATCH 33/51] fix: join the third ring of Coxeter graphs to itself

The vertices of the third ring listed neighbours on the first ring, so the
graph was not undirected.
---
 pads/graph_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/graph_examples.py b/pads/graph_examples.py
index 69108a1..4584991 100644
--- a/pads/graph_examples.py
+++ b/pads/graph_examples.py
@@ -23,7 +23,7 @@ def GeneralizedCoxeterGraph(n, a, b):
         G[i, 0] = (i, 1), (i, 2), (i, 3)
         G[i, 1] = (i, 0), ((i + 1) % n, 1), ((i - 1) % n, 1)
         G[i, 2] = (i, 0), ((i + a) % n, 2), ((i - a) % n, 2)
-        G[i, 3] = (i, 0), ((i + b) % n, 1), ((i - b) % n, 1)
+        G[i, 3] = (i, 0), ((i + b) % n, 3), ((i - b) % n, 3)
     return G
 
 CoxeterGraph = GeneralizedCoxeterGraph(7, 2, 3)
-- 
2.43.0


From f4ff7eb57b2b810d400c52b580df3251db64b0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:53 +0000
Subject: [PATCH 34/51] fix: find ancestors in trees whose nodes cannot be
 compared

Levels were stored with the nodes themselves and compared as pairs, so
nodes on the same level had to be comparable.  Store a number for each node.
---
 pads/lca.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index 3d2de70..93682bb 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -210,6 +210,7 @@ class LCA:
 
         levels = []
         self._representatives = {}
+        self._nodes = []
         self._visit(children, levels, root[0], 0)
         if [x for x in parent if x not in self._representatives]:
             raise ValueError("LCA input is not a tree")
@@ -218,12 +219,13 @@ class LCA:
     def __call__(self, *nodes):
         """Find least common ancestor of a set of nodes."""
         r = [self._representatives[x] for x in nodes]
-        return self._rangemin[min(r):max(r) + 1][1]
+        return self._nodes[self._rangemin[min(r):max(r) + 1][1]]
 
     def _visit(self, children, levels, node, level):
         """Perform Euler traversal of tree."""
         self._representatives[node] = len(levels)
-        pair = (level, node)
+        pair = (level, len(self._nodes))
+        self._nodes.append(node)
         levels.append(pair)
         for child in children[node]:
             self._visit(children, levels, child, level + 1)
-- 
2.43.0


From 84a23c9d31276d42f84f1fae7bae801a096585c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:53 +0000
Subject: [PATCH 35/51] fix: find ancestors in trees of any depth

The traversal recursed once per level and failed on deep trees and, through
them, range minima failed on long sorted sequences.
---
 pads/lca.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index 93682bb..fe15f4f 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -223,13 +223,23 @@ class LCA:
 
     def _visit(self, children, levels, node, level):
         """Perform Euler traversal of tree."""
-        self._representatives[node] = len(levels)
-        pair = (level, len(self._nodes))
-        self._nodes.append(node)
-        levels.append(pair)
-        for child in children[node]:
-            self._visit(children, levels, child, level + 1)
+        stack = []
+        while True:
+            self._representatives[node] = len(levels)
+            pair = (level + len(stack), len(self._nodes))
+            self._nodes.append(node)
             levels.append(pair)
+            stack.append((pair, iter(children[node])))
+            while stack:
+                pair, remaining = stack[-1]
+                node = next(remaining, stack)
+                if node is not stack:
+                    break
+                stack.pop()
+                if stack:
+                    levels.append(stack[-1][0])
+            else:
+                return
 
 
 class OfflineLCA(defaultdict):
-- 
2.43.0


From ba2f7ec5015491a92727d01334b8b8f89e35a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:53 +0000
Subject: [PATCH 36/51] fix: find ancestors offline in trees of any depth

The traversal recursed once per level and failed on deep trees.
---
 pads/lca.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index fe15f4f..9836ce2 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -280,15 +280,24 @@ class OfflineLCA(defaultdict):
     def traverse(self, node):
         """Perform depth first traversal of tree."""
         self.ancestors[self.descendants[node]] = node
-        for child in self.children[node]:
-            self.traverse(child)
-            self.descendants.union(child, node)
-            self.ancestors[self.descendants[node]] = node
-        self.visited.add(node)
-        for query in self[node]:
-            if query in self.visited:
-                lca = self.ancestors[self.descendants[query]]
-                self[node][query] = self[query][node] = lca
+        stack = [(node, iter(self.children[node]))]
+        while stack:
+            node, remaining = stack[-1]
+            child = next(remaining, stack)
+            if child is not stack:
+                self.ancestors[self.descendants[child]] = child
+                stack.append((child, iter(self.children[child])))
+                continue
+            stack.pop()
+            self.visited.add(node)
+            for query in self[node]:
+                if query in self.visited:
+                    lca = self.ancestors[self.descendants[query]]
+                    self[node][query] = self[query][node] = lca
+            if stack:
+                parent = stack[-1][0]
+                self.descendants.union(node, parent)
+                self.ancestors[self.descendants[parent]] = parent
 
 # Various utility functions
 
-- 
2.43.0


From df2ccb0daa8f3b0078a805727c61ba07a6bfc46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:18:27 +0000
Subject: [PATCH 37/51] fix: generate no Lyndon words when none fit

With a length limit of zero, words of length one were generated, and with an
empty alphabet the generator never ended.
---
 pads/lyndon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/lyndon.py b/pads/lyndon.py
index 0306e04..96652a4 100644
--- a/pads/lyndon.py
+++ b/pads/lyndon.py
@@ -11,6 +11,8 @@ def LengthLimitedLyndonWords(s, n):
     J.-P. Duval, Theor. Comput. Sci. 1988, doi:10.1016/0304-3975(88)90113-2.
     As shown by Berstel and Pocchiola, it takes constant average time
     per generated word."""
+    if s < 1 or n < 1:
+        return
     w = [-1]                            # set up for first increment
     while w:
         w[-1] += 1                      # increment the last non-z symbol
-- 
2.43.0


From 7539866c5c05b87b86637efbf91179128bf294ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:18:27 +0000
Subject: [PATCH 38/51] fix: accept the empty sequence in SmallestRotation

The only rotation of an empty sequence is itself, but the search through its
factorization found nothing and raised an exception.
---
 pads/lyndon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/lyndon.py b/pads/lyndon.py
index 96652a4..aef9635 100644
--- a/pads/lyndon.py
+++ b/pads/lyndon.py
@@ -114,6 +114,8 @@ def SmallestRotation(s):
     """Find the rotation of s that is smallest in lexicographic order.
     Duval 1983 describes how to modify his algorithm to do so but I think
     it's cleaner and more general to work from the ChenFoxLyndon output."""
+    if len(s) == 0:
+        return s
     prev, rep = None, 0
     for w in ChenFoxLyndon(s + s):
         if w == prev:
-- 
2.43.0


From 079289e1904ab6f22fccbdcf0f3c6e7a9d357b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:29:15 +0000
Subject: [PATCH 39/51] fix: Keep the factorisations handed out by
 factored_integers

The dictionary yielded for a prime or prime power was also the working entry
for twice that number. Advancing the stream added factors to it.
---
 pads/eratosthenes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/eratosthenes.py b/pads/eratosthenes.py
index 7822da8..a4cfcbc 100644
--- a/pads/eratosthenes.py
+++ b/pads/eratosthenes.py
@@ -77,12 +77,12 @@ def factored_integers():
         if i not in factorization:  # prime
             F = {i: 1}
             yield i, F
-            factorization[2 * i] = F
+            factorization[2 * i] = dict(F)
         elif len(factorization[i]) == 1:    # prime power
             p, x = next(iter(factorization[i].items()))
             F = {p: x + 1}
             yield i, F
-            factorization[2 * i] = F
+            factorization[2 * i] = dict(F)
             factorization[i + p**x][p] = x
             del factorization[i]
         else:
-- 
2.43.0


From d1151e2366d555177e9d056d97b7535d6194e68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:39:10 +0000
Subject: [PATCH 40/51] fix: Import smawk relative to the package in wrap

The absolute import failed on Python 3, so neither wrap nor sudoku could be
imported as part of the package.
---
 pads/wrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/wrap.py b/pads/wrap.py
index f9dc6e0..cc83250 100644
--- a/pads/wrap.py
+++ b/pads/wrap.py
@@ -10,7 +10,7 @@ time via the OnlineConcaveMinima algorithm in SMAWK.py.
 D. Eppstein, August 2005.
 """
 
-from smawk import OnlineConcaveMinima
+from .smawk import OnlineConcaveMinima
 
 
 def wrap(text,                 # string or unicode to be wrapped
-- 
2.43.0


From cdd2fd768a995bbf61db5bddddb850a2f4ecf7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:39:30 +0000
Subject: [PATCH 41/51] fix: Do not break wrapped lines before the space after
 a dash

A word ending in a hyphen was split into the hyphenated part and an empty part.
A line could then start with the empty part and the space that follows it.
---
 pads/wrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/wrap.py b/pads/wrap.py
index cc83250..40f765f 100644
--- a/pads/wrap.py
+++ b/pads/wrap.py
@@ -32,6 +32,8 @@ def wrap(text,                 # string or unicode to be wrapped
         if words:
             total += spacings[words[-1][1]]
         parts = hyphenword.split('-')
+        if len(parts) > 1 and not parts[-1]:    # final hyphen: no break point
+            parts[-2:] = [parts[-2] + '-']
         for word in parts[:-1]:
             word += '-'
             total += measure(word)
-- 
2.43.0


From 7af1f8d14807b7051d4a0debda0de10012802cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:44:49 +0000
Subject: [PATCH 42/51] fix: normalise packings under Python 3

Dictionaries have no iteritems method any more, so NormalizePacking and
InvertAround always failed.
---
 pads/circle_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index 49ce484..75cc7d8 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -85,7 +85,7 @@ def NormalizePacking(packing, k=None, target=1.0):
     else:
         z, r = packing[k]
     s = target / r
-    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.iteritems())
+    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.items())
 
 
 def InvertAround(packing, k, smallCircles=None):
-- 
2.43.0


From e67212cddba5e794ead190b7a42dc3cae780336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:44:49 +0000
Subject: [PATCH 43/51] fix: let InvertAround optimise over circles other than
 the given one

The circle that is to surround the others was missing from the circles
looked at, so passing smallCircles without it raised KeyError.
---
 pads/circle_pack.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index 75cc7d8..76c298c 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -102,6 +102,7 @@ def InvertAround(packing, k, smallCircles=None):
     z, r = packing[k]
     if smallCircles:
         optpack = {k: packing[k] for k in smallCircles}
+        optpack[k] = packing[k]
     else:
         optpack = packing
     q, g = z, r * 0.4
-- 
2.43.0


From d4aa4c4b15fed11aaafb760cd990ba89af3a2960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:44:49 +0000
Subject: [PATCH 44/51] fix: place the circles of large packings without
 recursion

Placement recursed once per internal circle and exceeded the recursion
limit for long chains of them.
---
 pads/circle_pack.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index 76c298c..2bac005 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -138,20 +138,23 @@ def flower(radius, center, cycle):
 
 
 def place(placements, radii, internal, center):
-    """Recursively find centers of all circles surrounding k"""
-    if center not in internal:
-        return
-    cycle = internal[center]
-    for i in range(-len(cycle), len(cycle) - 1):
-        if cycle[i] in placements and cycle[i + 1] not in placements:
-            s, t = cycle[i], cycle[i + 1]
-            theta = acxyz(radii[center], radii[s], radii[t])
-            offset = (placements[s] - placements[center]) / \
-                (radii[s] + radii[center])
-            offset *= e**(-1j * theta)
-            placements[t] = placements[center] + \
-                offset * (radii[t] + radii[center])
-            place(placements, radii, internal, t)
+    """Find centers of all circles surrounding k, and so on from them"""
+    centers = [center]
+    while centers:
+        center = centers.pop()
+        if center not in internal:
+            continue
+        cycle = internal[center]
+        for i in range(-len(cycle), len(cycle) - 1):
+            if cycle[i] in placements and cycle[i + 1] not in placements:
+                s, t = cycle[i], cycle[i + 1]
+                theta = acxyz(radii[center], radii[s], radii[t])
+                offset = (placements[s] - placements[center]) / \
+                    (radii[s] + radii[center])
+                offset *= e**(-1j * theta)
+                placements[t] = placements[center] + \
+                    offset * (radii[t] + radii[center])
+                centers.append(t)
 
 
 def testgrid(packing, k, z, r, q, g):
-- 
2.43.0


From 5c88e7f34df723bad86a978126cf915f4b2e683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:10:57 +0000
Subject: [PATCH 45/51] fix: find long alternating paths without recursion

The backward search recursed once per layer and exceeded the recursion
limit on graphs with a long alternating path.
---
 pads/bipartite_matching.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pads/bipartite_matching.py b/pads/bipartite_matching.py
index 9058a05..03a1a92 100644
--- a/pads/bipartite_matching.py
+++ b/pads/bipartite_matching.py
@@ -67,23 +67,28 @@ def matching(graph):
                         unlayered[v] = None
             return (matching, list(pred), list(unlayered))
 
-        # recursively search backward through layers to find alternating paths
-        # recursion returns true if found path, false otherwise
-        def recurse(v):
-            if v in preds:
-                L = preds[v]
-                del preds[v]
-                for u in L:
+        # search backward through layers to find alternating paths
+        # returns true if found path, false otherwise
+        def search(v):
+            path = [[v, None, iter(preds.pop(v, ()))]]
+            while path:
+                for u in path[-1][2]:
                     if u in pred:
-                        pu = pred[u]
-                        del pred[u]
-                        if pu is unmatched or recurse(pu):
-                            matching[v] = u
-                            return True
+                        break
+                else:
+                    path.pop()
+                    continue
+                path[-1][1] = u
+                pu = pred.pop(u)
+                if pu is unmatched:
+                    for v, u, L in path:
+                        matching[v] = u
+                    return True
+                path.append([pu, None, iter(preds.pop(pu, ()))])
             return False
 
         for v in unmatched:
-            recurse(v)
+            search(v)
 
 
 def imperfections(graph):
-- 
2.43.0


From af70e4d3c04e3a8653157c4154b00379f7cafd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:28 +0000
Subject: [PATCH 46/51] fix: follow deeply nested blossoms without recursion

Each level of blossom nesting cost a recursive call, so an augmenting path
through a thousand nested blossoms exceeded the recursion limit.
---
 pads/cardinality_matching.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pads/cardinality_matching.py b/pads/cardinality_matching.py
index 25e7515..729b216 100644
--- a/pads/cardinality_matching.py
+++ b/pads/cardinality_matching.py
@@ -95,21 +95,26 @@ def matching(G, initial_matching=None):
             an alternating path to the structure tree root.
             """
             path = []
+            suspended = []  # paths waiting for a subpath inside a blossom
             while 1:
                 while start in T:
                     v, w = base[start]
-                    vs = alternating_path(v, start)
-                    vs.reverse()
-                    path += vs
-                    start = w
+                    suspended.append((path, w, goal))
+                    path, start, goal = [], v, start
                 path.append(start)
-                if start not in matching:
-                    return path     # reached top of structure tree, done!
-                tnode = matching[start]
-                path.append(tnode)
-                if tnode == goal:
-                    return path     # finished recursive subpath
-                start = T[tnode]
+                if start in matching:
+                    tnode = matching[start]
+                    path.append(tnode)
+                    if tnode != goal:
+                        start = T[tnode]
+                        continue
+                # here at top of structure tree or end of subpath
+                if not suspended:
+                    return path
+                path.reverse()
+                subpath = path
+                path, start, goal = suspended.pop()
+                path += subpath
 
         def alternate(v):
             """Make v unmatched by alternating the path to the root of its
-- 
2.43.0


From 19d057b8ccb45d791a1810c4c36655f9b3dd14ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:29:53 +0000
Subject: [PATCH 47/51] fix: print a blank line between puzzle and solution

With the option to output both, the program evaluated print without
calling it, so in the numeric format the two grids ran together.
---
 pads/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index 72b1f2e..116260e 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -1813,7 +1813,7 @@ if __name__ == '__main__':
         print_level = outputter(puzzle)
 
     if options.output_both and print_level:
-        print
+        print()
 
     if options.backtrack:
         solns = all_solutions(puzzle, False)
-- 
2.43.0


From 6fffa48fdf69d72370870530bc51664f10d98c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:29:53 +0000
Subject: [PATCH 48/51] fix: report contradictory puzzles as impossible

Without backtracking, a puzzle found contradictory ended the program
with an exception instead of the documented classification.
---
 pads/sudoku.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index 116260e..7d7bf47 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -1818,9 +1818,12 @@ if __name__ == '__main__':
     if options.backtrack:
         solns = all_solutions(puzzle, False)
     else:
-        while step(puzzle):
-            pass
-        solns = [puzzle]
+        try:
+            while step(puzzle):
+                pass
+            solns = [puzzle]
+        except BadSudoku:
+            solns = []
 
     nsolns = 0
     for soln in solns:
-- 
2.43.0


From 8210817ce9ba0e3839332270dabed89e101888ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:28:37 +0000
Subject: [PATCH 49/51] fix: keep the items of a keyed sequence when looking
 them up

Applying the key function also recorded its argument as the item to be
listed. Asking for a neighbour by another object of the same key, or a
refused insertion of one, changed what the sequence lists. Items are now
recorded when they are inserted.
---
 pads/sequence.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pads/sequence.py b/pads/sequence.py
index 38bc354..4625135 100644
--- a/pads/sequence.py
+++ b/pads/sequence.py
@@ -71,9 +71,12 @@ class Sequence:
         """Apply supplied key function."""
         if not self._key:
             return x
-        key = self._key(x)
-        self._items[key] = x
-        return key
+        return self._key(x)
+
+    def _store(self, key, x):
+        """Record x as the item listed for its key."""
+        if self._key:
+            self._items[key] = x
 
     def _insafter(self, x, y):
         """Unkeyed version of insertAfter."""
@@ -85,13 +88,14 @@ class Sequence:
 
     def append(self, x):
         """Add x to the end of the sequence."""
-        x = self.key(x)
+        item, x = x, self.key(x)
         if not self._next:  # add to empty sequence
             self._next = {x: x}
             self._prev = {x: x}
             self._first = x
         else:
             self._insafter(self._prev[self._first], x)
+        self._store(x, item)
 
     def remove(self, x):
         """Remove x from the sequence."""
@@ -105,15 +109,17 @@ class Sequence:
 
     def insertAfter(self, x, y):
         """Add y after x in the sequence."""
-        y = self.key(y)
+        item, y = y, self.key(y)
         x = self.key(x)
         self._insafter(x, y)
+        self._store(y, item)
 
     def insertBefore(self, x, y):
         """Add y before x in the sequence."""
-        y = self.key(y)
+        item, y = y, self.key(y)
         x = self.key(x)
         self._insafter(self._prev[x], y)
+        self._store(y, item)
         if self._first == x:
             self._first = y
 
-- 
2.43.0


From a12a4418ba3107d52c3d2ebd4bbc91451e5debff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:43 +0000
Subject: [PATCH 50/51] fix: refuse expressions with an unmatched close paren

Everything after the paren was silently dropped, so that a)b was read as a.
---
 pads/automata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pads/automata.py b/pads/automata.py
index a3e89a4..6d13d7b 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -387,6 +387,9 @@ class RegExp(NFA):
         self.successor = {}
         self.alphabet = set()
         self.initial, penultimate, epsilon = self.expression()
+        if self.pos < len(self.expr):
+            raise LanguageError(
+                "Unmatched close paren at char " + str(self.pos))
         final = self.newstate(None)
         for state in penultimate:
             self.successor[state].add(final)
-- 
2.43.0


From 6cc052f33d472b4821cd34f312b9fb608d84adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:56:34 +0000
Subject: [PATCH 51/51] fix: provide the documented list of effective tokens of
 a state

The class documentation promises M.effective(state), but no class had it.
---
 pads/medium.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pads/medium.py b/pads/medium.py
index e4a8f3a..e9ed05d 100644
--- a/pads/medium.py
+++ b/pads/medium.py
@@ -69,6 +69,12 @@ class Medium:
         """Construct dict mapping tokens to actions from state S."""
         return {t: self.action(S, t) for t in self.tokens()}
 
+    def effective(self, S):
+        """Generate sequence of tokens effective on state S."""
+        for t in self.tokens():
+            if self.action(S, t) != S:
+                yield t
+
     def __call__(self, S, t):
         """Apply token t to state S."""
         return self.action(S, t)
-- 
2.43.0

