From 045be74ece20de8d6fa22eb1b4ce9703142f4abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 01/40] fix: do not repeat a BSR in the children returned for a
 nonterminal

A BSR that is added to the set more than once was appended to ntSlotEntries
every time, so that unambiguous children were returned, and reported as
ambiguous, several times.
---
 gen/golang/gll/bsr/bsr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index f80fa28..3a7ec77 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -259,6 +259,9 @@ func (s *Set) insert(bsr bsr) {
     }
     switch b := bsr.(type) {
     case BSR:
+        if s.slotEntries[b] {
+            return
+        }
         s.slotEntries[b] = true
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
-- 
2.43.0


From 2fc49ea631d16501b6827f089963097d428bdbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 02/40] fix: keep the BSR string elements of all pivots

The set kept one string element per string and extents. Of the derivations
that differ in an inner pivot of an alternate with three or more symbols only
the last was kept: children and SPPF nodes of the others were lost.
---
 gen/golang/gll/bsr/bsr.go | 82 ++++++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 23 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 3a7ec77..7ae4e28 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -72,7 +72,7 @@ Set contains the set of Binary Subtree Representations (BSR).
 type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
-    stringEntries map[stringKey]*stringBSR
+    stringEntries map[stringKey][]*stringBSR // one entry per pivot
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -113,7 +113,7 @@ func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
-        stringEntries: make(map[stringKey]*stringBSR),
+        stringEntries: make(map[stringKey][]*stringBSR),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -213,9 +213,11 @@ func (s *Set) GetRoots() (roots []BSR) {
 // GetAllStrings returns all string elements with symbols = str,
 // left extent = lext and right extent = rext
 func (s *Set) GetAllStrings(str symbols.Symbols, lext, rext int) (strs []*stringBSR) {
-    for _, s := range s.stringEntries {
-        if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
-            strs = append(strs, s)
+    for _, entries := range s.stringEntries {
+        for _, s := range entries {
+            if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
+                strs = append(strs, s)
+            }
         }
     }
     return
@@ -234,19 +236,20 @@ func (s *Set) getNTBSRs() BSRs {
 
 func (s *Set) getStringBSRs() stringBSRs {
     bsrs := make(stringBSRs, 0, len(s.stringEntries))
-    for _, bsr := range s.stringEntries {
-        bsrs = append(bsrs, bsr)
+    for _, entries := range s.stringEntries {
+        bsrs = append(bsrs, entries...)
     }
     sort.Sort(bsrs)
     return bsrs
 }
 
-func (s *Set) getString(symbols symbols.Symbols, leftExtent, rightExtent int) *stringBSR {
-    // fmt.Printf("Set.getString(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
+// getStrings returns the string elements of symbols with the given extents: one for each pivot.
+func (s *Set) getStrings(symbols symbols.Symbols, leftExtent, rightExtent int) []*stringBSR {
+    // fmt.Printf("Set.getStrings(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
 
-    strBsr, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
+    strBsrs, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
     if exist {
-        return strBsr
+        return strBsrs
     }
 
     panic(fmt.Sprintf("Error: no string %s left extent=%d right extent=%d\n",
@@ -266,7 +269,13 @@ func (s *Set) insert(bsr bsr) {
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
-        s.stringEntries[b.key()] = b
+        key := b.key()
+        for _, b1 := range s.stringEntries[key] {
+            if b1.pivot == b.pivot {
+                return
+            }
+        }
+        s.stringEntries[key] = append(s.stringEntries[key], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
     }
@@ -357,24 +366,51 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
         return b.set.getNTSlot(b.Label.Symbols()[i], b.pivot, b.rightExtent)
     }
 
+    bsrs := []BSR{}
+    for _, ext := range b.prefixExtents(i) {
+        bsrs = append(bsrs, b.set.getNTSlot(b.Label.Symbols()[i], ext.left, ext.right)...)
+    }
+
+    // fmt.Println(bsrs)
+
+    return bsrs
+}
+
+type extent struct {
+    left, right int
+}
+
+// prefixExtents returns the extents of symbol[i] in b, where i is not the last
+// symbol of b and b has more than two symbols. If the symbols before the last
+// symbol of b can be derived with different pivots there are more than one.
+func (b BSR) prefixExtents(i int) (exts []extent) {
     // Walk to pos i from the right
     symbols := b.Label.Symbols()[:b.Label.Pos()-1]
-    str := b.set.getString(symbols, b.leftExtent, b.pivot)
+    strs := b.set.getStrings(symbols, b.leftExtent, b.pivot)
     for len(symbols) > i+1 && len(symbols) > 2 {
         symbols = symbols[:len(symbols)-1]
-        str = b.set.getString(symbols, str.leftExtent, str.pivot)
+        strs1, pivots := []*stringBSR{}, map[int]bool{}
+        for _, str := range strs {
+            if !pivots[str.pivot] {
+                pivots[str.pivot] = true
+                strs1 = append(strs1, b.set.getStrings(symbols, str.leftExtent, str.pivot)...)
+            }
+        }
+        strs = strs1
     }
 
-    bsrs := []BSR{}
-    if i == 0 {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.leftExtent, str.pivot)
-    } else {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.pivot, str.rightExtent)
+    exist := map[extent]bool{}
+    for _, str := range strs {
+        ext := extent{str.pivot, str.rightExtent}
+        if i == 0 {
+            ext = extent{str.leftExtent, str.pivot}
+        }
+        if !exist[ext] {
+            exist[ext] = true
+            exts = append(exts, ext)
+        }
     }
-
-    // fmt.Println(bsrs)
-
-    return bsrs
+    return
 }
 
 // GetTChildI returns the terminal symbol at position i in b.
-- 
2.43.0


From ccef0b6f0425579a039d1c63f9372936e7066bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 03/40] fix: GetTChildI after an ambiguous nonterminal

GetTChildI failed if any nonterminal before the terminal was ambiguous, even
when the position of the terminal is not.
---
 gen/golang/gll/bsr/bsr.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 7ae4e28..cf69d96 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -414,7 +414,7 @@ func (b BSR) prefixExtents(i int) (exts []extent) {
 }
 
 // GetTChildI returns the terminal symbol at position i in b.
-// GetTChildI panics if symbol i is not a valid terminal
+// GetTChildI panics if symbol i is not a valid terminal or if its position is ambiguous
 func (b BSR) GetTChildI(i int) *token.Token {
     symbols := b.Label.Symbols()
 
@@ -425,16 +425,17 @@ func (b BSR) GetTChildI(i int) *token.Token {
         panic(fmt.Sprintf("symbol %d in %s is an NT", i, b))
     }
 
-    lext := b.leftExtent
-    for j := 0; j < i; j++ {
-        if symbols[j].IsNonTerminal() {
-            nt := b.GetNTChildI(j)
-            lext += nt.rightExtent - nt.leftExtent
-        } else {
-            lext++
-        }
+    if i == len(symbols)-1 {
+        return b.set.lex.Tokens[b.rightExtent-1]
+    }
+    if i == 0 {
+        return b.set.lex.Tokens[b.leftExtent]
+    }
+    exts := b.prefixExtents(i)
+    if len(exts) != 1 {
+        b.set.fail(b, "T %d is ambiguous in %s", i, b)
     }
-    return b.set.lex.Tokens[lext]
+    return b.set.lex.Tokens[exts[0].left]
 }
 
 // LeftExtent returns the left extent of the BSR in the stream of tokens
-- 
2.43.0


From 84af9c9ce18d4fb3ca97141c0ea93fb439592a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 04/40] fix: off by one in the string of a BSR string element

Dump panicked, or printed one token too many.
---
 gen/golang/gll/bsr/bsr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index cf69d96..f8b14a1 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -530,8 +530,12 @@ func (s stringBSR) Empty() bool {
 
 // String returns a string representation of s
 func (s stringBSR) String() string {
+    srcStr := "ℇ"
+    if s.leftExtent < s.rightExtent {
+        srcStr = s.set.lex.GetString(s.LeftExtent(), s.RightExtent()-1)
+    }
     return fmt.Sprintf("%s,%d,%d,%d - %s", &s.Symbols, s.leftExtent, s.pivot,
-        s.rightExtent, s.set.lex.GetString(s.LeftExtent(), s.RightExtent()))
+        s.rightExtent, srcStr)
 }
 
 func (s *Set) getNTSlot(sym symbols.Symbol, leftExtent, rightExtent int) (bsrs []BSR) {
-- 
2.43.0


From c28e3c3a926a0c1e822733713cb9b786abaa0b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:11 +0000
Subject: [PATCH 05/40] fix: ReportAmbiguous on cyclic and nested ambiguities

ReportAmbiguous did not end for grammars in which a nonterminal derives itself,
and said that there are no ambiguous BSRs if they were not children of the root.
---
 gen/golang/gll/bsr/bsr.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index f8b14a1..00a2435 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -570,14 +570,19 @@ func (s *Set) ReportAmbiguous() {
     }
     for i, b := range s.GetRoots() {
         fmt.Println("In root", i)
-        if !s.report(b) {
+        if !s.report(b, map[BSR]bool{}) {
             fmt.Println("No ambiguous BSRs")
         }
     }
 }
 
-// report return true iff at least one ambigous BSR was found
-func (s *Set) report(b BSR) bool {
+// report return true iff at least one ambigous BSR was found in b or in the
+// subtrees of b, which were not visited before.
+func (s *Set) report(b BSR, visited map[BSR]bool) bool {
+    if visited[b] {
+        return false
+    }
+    visited[b] = true
     ambiguous := false
     for i, sym := range b.Label.Symbols() {
         ln, col := s.getLineColumn(b.LeftExtent())
@@ -592,7 +597,9 @@ func (s *Set) report(b BSR) bool {
                 }
             }
             for _, b1 := range b.GetNTChildrenI(i) {
-                s.report(b1)
+                if s.report(b1, visited) {
+                    ambiguous = true
+                }
             }
         }
     }
-- 
2.43.0


From 7aa40c33c16eab25ff56b9484e26f7cd9956ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:11 +0000
Subject: [PATCH 06/40] fix: ToSPPF must not change the grammar slots

append(str.Symbols, ...) wrote into the symbols of the grammar slot from which
the string element was made, which changes later parses.
---
 gen/golang/gll/bsr/bsr.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 00a2435..f6407b2 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -675,11 +675,10 @@ func (pf *Set) ToSPPF() *sppf.SymbolNode {
                     in.Lext, in.Lext, in.Rext))
             } else {
                 // for each (α,i,k, j)∈Υ { mkPN(X ::=α·δ,i,k, j,G) } } } }
-                alpha, delta := in.Body[:in.Pos], in.Body[in.Pos:]
+                alpha := in.Body[:in.Pos]
                 for _, str := range pf.GetAllStrings(alpha, in.Lext, in.Rext) {
-                    body := append(str.Symbols, delta...)
                     in.Children = append(in.Children,
-                        bld.mkPN(in.NT, body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
+                        bld.mkPN(in.NT, in.Body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
                 }
             }
         }
-- 
2.43.0


From 2abe9c7851c6f9aa53fe4fd3ccb5a6993b0df331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 07/40] fix: report an error for input after a complete parse
 of the start symbol

If the start symbol derives a prefix of the input and the next token is in the
follow set of the start symbol Parse returned neither a BSR set nor errors.
---
 gen/golang/gll/parser.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 8f66094..01d9313 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -171,6 +171,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 		}
 	}
 	if !p.bsrSet.Contain(symbols.NT_{{.StartSymbol}}, 0, m) {
+		p.trailingTokenErrors()
 		p.sortParseErrors()
 		return nil, p.parseErrors
 	}
@@ -456,6 +457,21 @@ func (p *parser) parseError(slot slot.Label, i int, expected map[token.Type]stri
 	p.parseErrors = append(p.parseErrors, pe)
 }
 
+// trailingTokenErrors adds an error for every complete parse of the start
+// symbol, which is followed by a token that is in the follow set of the start
+// symbol, but that no rule invocation is waiting for.
+func (p *parser) trailingTokenErrors() {
+	for _, b := range p.bsrSet.GetAll() {
+		if b.Label.Head() != symbols.NT_{{.StartSymbol}} || b.LeftExtent() != 0 {
+			continue
+		}
+		i := b.RightExtent()
+		if _, exist := followSets[symbols.NT_{{.StartSymbol}}][p.lex.Tokens[i].Type()]; exist {
+			p.parseError(b.Label, i, map[token.Type]string{token.EOF: "$"})
+		}
+	}
+}
+
 func (p *parser) sortParseErrors() {
 	sort.Slice(p.parseErrors,
 		func(i, j int) bool {
-- 
2.43.0


From a5280e653e2299122ec01e000101ee93502b7a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 08/40] fix: exact subset relation and order of lexer events

---
 ast/lex.go               |  96 +++++++++++++++++------
 lex/items/event/event.go | 159 ++++++++++++++-------------------------
 2 files changed, 132 insertions(+), 123 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index 6fc4c8d..3cdb8ee 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -367,13 +367,10 @@ func (sl *StringLit) Value() []rune {
 	return value
 }
 
+// ContainsSet returns true iff every rune of s is in u
 func (u *UnicodeClass) ContainsSet(s *UnicodeSet) bool {
-	for _, rng := range s.Ranges {
-		if !rangeTableInRangeTable(rng.GetRangeTable(), u.GetRangeTable()) {
-			return false
-		}
-	}
-	return true
+	incl, excl := s.GetRangeTables()
+	return tablesInTables(incl, excl, []*unicode.RangeTable{u.GetRangeTable()}, nil)
 }
 
 func (u *UnicodeClass) GetRangeTable() *unicode.RangeTable {
@@ -440,6 +437,11 @@ func (u UnicodeRanges) Equal(other UnicodeRanges) bool {
 			return false
 		}
 	}
+	for _, rng := range other {
+		if !u.Contain(rng) {
+			return false
+		}
+	}
 	return true
 }
 
@@ -496,14 +498,71 @@ func rangeTableInRangeTable(a, b *unicode.RangeTable) bool {
 		fmt.Printf("a=%p, b=%p\n", a, b)
 		panic("nil")
 	}
-	for _, rng := range a.R32 {
-		if !unicode.In(rune(rng.Lo), b) || !unicode.In(rune(rng.Hi), b) {
-			return false
+	return tablesInTables([]*unicode.RangeTable{a}, nil, []*unicode.RangeTable{b}, nil)
+}
+
+// tablesInTables returns true iff every rune that is in incl and not in excl is
+// in inclSup and not in exclSup
+func tablesInTables(incl, excl, inclSup, exclSup []*unicode.RangeTable) bool {
+	for _, tables := range [][]*unicode.RangeTable{incl, excl, inclSup, exclSup} {
+		for _, r := range boundaries(tables) {
+			if unicode.In(r, incl...) && !unicode.In(r, excl...) &&
+				(!unicode.In(r, inclSup...) || unicode.In(r, exclSup...)) {
+				return false
+			}
 		}
 	}
 	return true
 }
 
+// ContainsOnly returns true iff ok is true for every rune in u
+func (u *UnicodeSet) ContainsOnly(ok func(rune) bool) bool {
+	incl, excl := u.GetRangeTables()
+	contains := func(lo, hi, stride uint32) bool {
+		for r := lo; r <= hi; r += stride {
+			if !unicode.In(rune(r), excl...) && !ok(rune(r)) {
+				return false
+			}
+		}
+		return true
+	}
+	for _, t := range incl {
+		for _, rng := range t.R16 {
+			if !contains(uint32(rng.Lo), uint32(rng.Hi), uint32(rng.Stride)) {
+				return false
+			}
+		}
+		for _, rng := range t.R32 {
+			if !contains(rng.Lo, rng.Hi, rng.Stride) {
+				return false
+			}
+		}
+	}
+	return true
+}
+
+// boundaries returns the runes at which the membership of tables may change
+func boundaries(tables []*unicode.RangeTable) (rs []rune) {
+	add := func(lo, hi, stride uint32) {
+		if stride == 1 {
+			rs = append(rs, rune(lo), rune(hi)+1)
+			return
+		}
+		for r := lo; r <= hi; r += stride {
+			rs = append(rs, rune(r), rune(r)+1)
+		}
+	}
+	for _, t := range tables {
+		for _, rng := range t.R16 {
+			add(uint32(rng.Lo), uint32(rng.Hi), uint32(rng.Stride))
+		}
+		for _, rng := range t.R32 {
+			add(rng.Lo, rng.Hi, rng.Stride)
+		}
+	}
+	return
+}
+
 // GetRangeTable returns the category or property RangeTable of r
 func (u *UnicodeRange) GetRangeTable() *unicode.RangeTable {
 	switch u.Type {
@@ -536,13 +595,10 @@ func (u *UnicodeRange) Subset(sup *UnicodeSet) bool {
 	return false
 }
 
+// ContainsClass returns true iff every rune of c is in u
 func (u *UnicodeSet) ContainsClass(c *UnicodeClass) bool {
-	for _, rng := range u.Ranges {
-		if rng.ContainsClass(c) {
-			return true
-		}
-	}
-	return false
+	incl, excl := u.GetRangeTables()
+	return tablesInTables([]*unicode.RangeTable{c.GetRangeTable()}, nil, incl, excl)
 }
 
 func (u *UnicodeSet) ContainsRune(r rune) bool {
@@ -568,13 +624,11 @@ func (u *UnicodeSet) ContainsRangeTable(rngTab *unicode.RangeTable) bool {
 	return false
 }
 
+// ContainsSet returns true iff every rune of u1 is in u
 func (u *UnicodeSet) ContainsSet(u1 *UnicodeSet) bool {
-	for _, rng := range u1.Ranges {
-		if !u.ContainsRangeTable(rng.GetRangeTable()) {
-			return false
-		}
-	}
-	return true
+	incl, excl := u.GetRangeTables()
+	incl1, excl1 := u1.GetRangeTables()
+	return tablesInTables(incl1, excl1, incl, excl)
 }
 
 func (u *UnicodeSet) Equal(other LexBase) bool {
diff --git a/lex/items/event/event.go b/lex/items/event/event.go
index eefc68e..fbe4d51 100644
--- a/lex/items/event/event.go
+++ b/lex/items/event/event.go
@@ -86,9 +86,9 @@ func Subset(a, b ast.LexBase) TriState {
 		case *ast.AnyOf:
 			return toTriState(a1.Set.Subset(b1.Set))
 		case *ast.CharLiteral:
-			return toTriState(a1.Set.Contains(b1.Char()))
+			return toTriState(onlyContains(a1.Set, b1.Char()))
 		case *ast.Not:
-			return toTriState(!a1.Set.Subset(b1.Set))
+			return toTriState(a1.Set.Intersection(b1.Set).Empty())
 		case *ast.UnicodeClass:
 			return toTriState(unicodeClassContains(b1, a1.Set.Elements()...))
 		case *ast.UnicodeSet:
@@ -142,7 +142,7 @@ func Subset(a, b ast.LexBase) TriState {
 		case *ast.CharLiteral:
 			return False
 		case *ast.Not:
-			return False
+			return toTriState(!anyRune(b1.Set, func(r rune) bool { return unicodeClassContains(a1, r) }))
 		case *ast.UnicodeClass:
 			return toTriState(a1.Type == b1.Type ||
 				(b1.Type == ast.Letter && (a1.Type == ast.Lowcase || a1.Type == ast.Upcase)))
@@ -157,11 +157,11 @@ func Subset(a, b ast.LexBase) TriState {
 		case *ast.Any:
 			return True
 		case *ast.AnyOf:
-			return Undefined
+			return toTriState(a1.ContainsOnly(b1.Set.Contains))
 		case *ast.CharLiteral:
-			return False
+			return toTriState(a1.ContainsOnly(func(r rune) bool { return r == b1.Char() }))
 		case *ast.Not:
-			return False
+			return toTriState(!anyRune(b1.Set, a1.ContainsRune))
 		case *ast.UnicodeClass:
 			return toTriState(b1.ContainsSet(a1))
 		case *ast.UnicodeSet:
@@ -175,8 +175,14 @@ func Subset(a, b ast.LexBase) TriState {
 	}
 }
 
-func anyOf(r rune, rs *runeset.RuneSet) bool {
-	return rs.Contains(r)
+// anyRune returns true iff ok is true for some rune in rs
+func anyRune(rs *runeset.RuneSet, ok func(rune) bool) bool {
+	for _, r := range rs.Elements() {
+		if ok(r) {
+			return true
+		}
+	}
+	return false
 }
 
 func contains(events []ast.LexBase, event ast.LexBase) bool {
@@ -200,105 +206,54 @@ func getEvents(items ...*item.Item) (events []ast.LexBase) {
 	return
 }
 
-func noneOf(r rune, rs *runeset.RuneSet) bool {
-	return !rs.Contains(r)
+// onlyContains returns true iff r is the only rune in rs
+func onlyContains(rs *runeset.RuneSet, r rune) bool {
+	return rs.Contains(r) && len(rs.Elements()) == 1
 }
 
-// sort events from most to least specific class
+// sortEvents sorts events from most to least specific: every event precedes
+// the events it is a proper subset of.
 func sortEvents(events []ast.LexBase) {
-	sort.Slice(events, func(i, j int) bool {
-		switch e1 := events[i].(type) {
-		case *ast.Any:
-			return false
-		case *ast.AnyOf:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return e1.Set.Subset(e2.Set)
-			case *ast.CharLiteral:
-				return e1.Set.Contains(e2.Char())
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return unicodeClassContains(e2, e1.Set.Elements()...)
-			case *ast.UnicodeSet:
-				return e2.ContainsRunes(e1.Set.Elements()...)
-			default:
-				panic("Invalid")
-			}
-		case *ast.CharLiteral:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return true
-			case *ast.CharLiteral:
-				return e1.Char() < e2.Char()
-			case *ast.Not:
-				return true
-			case *ast.UnicodeClass:
-				return true
-			case *ast.UnicodeSet:
-				return true
-			default:
-				panic("Invalid")
-			}
-		case *ast.Not:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return false
-			case *ast.UnicodeSet:
-				return false
-			default:
-				panic("Invalid")
-			}
-		case *ast.UnicodeClass:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !unicodeClassContains(e1, e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.Type == ast.Letter && (e1.Type == ast.Lowcase || e1.Type == ast.Upcase)
-			case *ast.UnicodeSet:
-				return e2.ContainsClass(e1)
-			default:
-				panic("Invalid")
-			}
-		case *ast.UnicodeSet:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !e1.ContainsRunes(e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.ContainsSet(e1)
-			case *ast.UnicodeSet:
-				return e2.ContainsSet(e1)
-			default:
-				panic("Invalid")
+	sort.SliceStable(events, func(i, j int) bool {
+		return precedence(events[i]) < precedence(events[j])
+	})
+	for i := range events {
+		// move the first event that has no proper subset in the rest to i
+		for j := i; j < len(events); j++ {
+			if !hasProperSubset(events[j], events[i:]) {
+				ev := events[j]
+				copy(events[i+1:j+1], events[i:j])
+				events[i] = ev
+				break
 			}
-		default:
-			panic("Invalid")
 		}
-	})
+	}
+}
+
+func hasProperSubset(ev ast.LexBase, events []ast.LexBase) bool {
+	for _, ev1 := range events {
+		if Subset(ev1, ev) == True && Subset(ev, ev1) != True {
+			return true
+		}
+	}
+	return false
+}
+
+// precedence of events, which are not subsets of each other
+func precedence(ev ast.LexBase) rune {
+	switch e := ev.(type) {
+	case *ast.CharLiteral:
+		return e.Char()
+	case *ast.AnyOf:
+		return unicode.MaxRune + 1
+	case *ast.UnicodeClass, *ast.UnicodeSet:
+		return unicode.MaxRune + 2
+	case *ast.Not:
+		return unicode.MaxRune + 3
+	case *ast.Any:
+		return unicode.MaxRune + 4
+	}
+	panic("Invalid")
 }
 
 func toTriState(b bool) TriState {
-- 
2.43.0


From 9aab7d938f4ddf2a42f671aed9822ca0cce12b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 09/40] fix: regenerate the lexer and parser of gogll

The checked-in lexer accepted a char_lit without closing quote, e.g. '\n
---
 lexer/lexer.go   | 22 +++++++++++-----------
 parser/parser.go | 16 ++++++++++++++++
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 5bb0edd..14069da 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -306,8 +306,8 @@ var accept = []token.Type{
 	token.T_107, 
 	token.T_108, 
 	token.T_109, 
-	token.T_101, 
 	token.Error, 
+	token.T_101, 
 	token.Error, 
 	token.Error, 
 	token.T_1, 
@@ -1015,9 +1015,9 @@ var nextState = []func(r rune) state{
 			return 22 
 		case r == '}':
 			return 23 
-		case unicode.IsUpper(r):
-			return 24 
 		case unicode.IsLower(r):
+			return 24 
+		case unicode.IsUpper(r):
 			return 25 
 		}
 		return nullState
@@ -1230,11 +1230,11 @@ var nextState = []func(r rune) state{
 	func(r rune) state {
 		switch { 
 		case r == '_':
-			return 24 
+			return 33 
 		case unicode.IsLetter(r):
-			return 24 
+			return 33 
 		case unicode.IsNumber(r):
-			return 24 
+			return 33 
 		}
 		return nullState
 	}, 
@@ -1242,11 +1242,11 @@ var nextState = []func(r rune) state{
 	func(r rune) state {
 		switch { 
 		case r == '_':
-			return 33 
+			return 25 
 		case unicode.IsLetter(r):
-			return 33 
+			return 25 
 		case unicode.IsNumber(r):
-			return 33 
+			return 25 
 		}
 		return nullState
 	}, 
@@ -1281,10 +1281,10 @@ var nextState = []func(r rune) state{
 	// Set29
 	func(r rune) state {
 		switch { 
-		case any(r, []rune{'\'','\\','n','r','t'}):
-			return 44 
 		case r == '\'':
 			return 44 
+		case any(r, []rune{'\'','\\','n','r','t'}):
+			return 30 
 		}
 		return nullState
 	}, 
diff --git a/parser/parser.go b/parser/parser.go
index 676f0f3..f2c4b3e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1566,6 +1566,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 		}
 	}
 	if !p.bsrSet.Contain(symbols.NT_GoGLL, 0, m) {
+		p.trailingTokenErrors()
 		p.sortParseErrors()
 		return nil, p.parseErrors
 	}
@@ -12192,6 +12193,21 @@ func (p *parser) parseError(slot slot.Label, i int, expected map[token.Type]stri
 	p.parseErrors = append(p.parseErrors, pe)
 }
 
+// trailingTokenErrors adds an error for every complete parse of the start
+// symbol, which is followed by a token that is in the follow set of the start
+// symbol, but that no rule invocation is waiting for.
+func (p *parser) trailingTokenErrors() {
+	for _, b := range p.bsrSet.GetAll() {
+		if b.Label.Head() != symbols.NT_GoGLL || b.LeftExtent() != 0 {
+			continue
+		}
+		i := b.RightExtent()
+		if _, exist := followSets[symbols.NT_GoGLL][p.lex.Tokens[i].Type()]; exist {
+			p.parseError(b.Label, i, map[token.Type]string{token.EOF: "$"})
+		}
+	}
+}
+
 func (p *parser) sortParseErrors() {
 	sort.Slice(p.parseErrors,
 		func(i, j int) bool {
-- 
2.43.0


From 23e2fe6989f614f0029aa746a784e333cfb29cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 10/40] fix: a char_lit may not be a single backslash

'\' was accepted as a char_lit, and the generated lexer did not compile.
---
 gogll.md       |    2 +-
 lexer/lexer.go | 1485 ++++++++++++++++++++++++------------------------
 2 files changed, 738 insertions(+), 749 deletions(-)

diff --git a/gogll.md b/gogll.md
index 03eb7cb..daf9bd9 100644
--- a/gogll.md
+++ b/gogll.md
@@ -200,7 +200,7 @@ UnicodeProperty
     |   "\\p{White_Space}"
     ;
 
-char_lit : '\'' (not "'" | '\\' any "\\'nrt") '\'' ;
+char_lit : '\'' (not "\\'" | '\\' any "\\'nrt") '\'' ;
 ```
 `char_lit` is a character literal enclosed in single quotes. A char literal may
 be an escaped character:
diff --git a/lexer/lexer.go b/lexer/lexer.go
index 14069da..8d50e54 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -326,7 +326,6 @@ var accept = []token.Type{
 	token.T_105, 
 	token.T_104, 
 	token.T_96, 
-	token.T_96, 
 	token.Error, 
 	token.T_95, 
 	token.T_105, 
@@ -1045,7 +1044,7 @@ var nextState = []func(r rune) state{
 			return 28 
 		case r == '\\':
 			return 29 
-		case not(r, []rune{'\''}):
+		case not(r, []rune{'\'','\\'}):
 			return 30 
 		}
 		return nullState
@@ -1281,8 +1280,6 @@ var nextState = []func(r rune) state{
 	// Set29
 	func(r rune) state {
 		switch { 
-		case r == '\'':
-			return 44 
 		case any(r, []rune{'\'','\\','n','r','t'}):
 			return 30 
 		}
@@ -1300,7 +1297,7 @@ var nextState = []func(r rune) state{
 	func(r rune) state {
 		switch { 
 		case r == '{':
-			return 45 
+			return 44 
 		}
 		return nullState
 	}, 
@@ -1328,7 +1325,7 @@ var nextState = []func(r rune) state{
 		case r == '_':
 			return 33 
 		case r == 'y':
-			return 46 
+			return 45 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -1342,7 +1339,7 @@ var nextState = []func(r rune) state{
 		case r == '_':
 			return 33 
 		case r == 'p':
-			return 47 
+			return 46 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -1356,7 +1353,7 @@ var nextState = []func(r rune) state{
 		case r == '_':
 			return 33 
 		case r == 't':
-			return 48 
+			return 47 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -1370,7 +1367,7 @@ var nextState = []func(r rune) state{
 		case r == '_':
 			return 33 
 		case r == 'w':
-			return 49 
+			return 48 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -1384,7 +1381,7 @@ var nextState = []func(r rune) state{
 		case r == '_':
 			return 33 
 		case r == 't':
-			return 50 
+			return 49 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -1398,7 +1395,7 @@ var nextState = []func(r rune) state{
 		case r == '_':
 			return 33 
 		case r == 'm':
-			return 51 
+			return 50 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -1412,7 +1409,7 @@ var nextState = []func(r rune) state{
 		case r == '_':
 			return 33 
 		case r == 'c':
-			return 52 
+			return 51 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -1426,7 +1423,7 @@ var nextState = []func(r rune) state{
 		case r == '_':
 			return 33 
 		case r == 'c':
-			return 53 
+			return 52 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -1447,62 +1444,54 @@ var nextState = []func(r rune) state{
 		return nullState
 	}, 
 	// Set44
-	func(r rune) state {
-		switch { 
-		case r == '\'':
-			return 43 
-		}
-		return nullState
-	}, 
-	// Set45
 	func(r rune) state {
 		switch { 
 		case r == 'A':
-			return 54 
+			return 53 
 		case r == 'B':
-			return 55 
+			return 54 
 		case r == 'C':
-			return 56 
+			return 55 
 		case r == 'D':
-			return 57 
+			return 56 
 		case r == 'E':
-			return 58 
+			return 57 
 		case r == 'H':
-			return 59 
+			return 58 
 		case r == 'I':
-			return 60 
+			return 59 
 		case r == 'J':
-			return 61 
+			return 60 
 		case r == 'L':
-			return 62 
+			return 61 
 		case r == 'M':
-			return 63 
+			return 62 
 		case r == 'N':
-			return 64 
+			return 63 
 		case r == 'O':
-			return 65 
+			return 64 
 		case r == 'P':
-			return 66 
+			return 65 
 		case r == 'Q':
-			return 67 
+			return 66 
 		case r == 'R':
-			return 68 
+			return 67 
 		case r == 'S':
-			return 69 
+			return 68 
 		case r == 'T':
-			return 70 
+			return 69 
 		case r == 'U':
-			return 71 
+			return 70 
 		case r == 'V':
-			return 72 
+			return 71 
 		case r == 'W':
-			return 73 
+			return 72 
 		case r == 'Z':
-			return 74 
+			return 73 
 		}
 		return nullState
 	}, 
-	// Set46
+	// Set45
 	func(r rune) state {
 		switch { 
 		case r == '_':
@@ -1514,13 +1503,13 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set47
+	// Set46
 	func(r rune) state {
 		switch { 
 		case r == '_':
 			return 33 
 		case r == 't':
-			return 75 
+			return 74 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -1528,13 +1517,13 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set48
+	// Set47
 	func(r rune) state {
 		switch { 
 		case r == '_':
 			return 33 
 		case r == 't':
-			return 76 
+			return 75 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -1542,13 +1531,13 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set49
+	// Set48
 	func(r rune) state {
 		switch { 
 		case r == '_':
 			return 33 
 		case r == 'c':
-			return 77 
+			return 76 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -1556,7 +1545,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set50
+	// Set49
 	func(r rune) state {
 		switch { 
 		case r == '_':
@@ -1568,13 +1557,13 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set51
+	// Set50
 	func(r rune) state {
 		switch { 
 		case r == '_':
 			return 33 
 		case r == 'b':
-			return 78 
+			return 77 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -1582,13 +1571,13 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set52
+	// Set51
 	func(r rune) state {
 		switch { 
 		case r == '_':
 			return 33 
 		case r == 'k':
-			return 79 
+			return 78 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -1596,13 +1585,13 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set53
+	// Set52
 	func(r rune) state {
 		switch { 
 		case r == '_':
 			return 33 
 		case r == 'a':
-			return 80 
+			return 79 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -1610,263 +1599,277 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set54
+	// Set53
 	func(r rune) state {
 		switch { 
 		case r == 'S':
-			return 81 
+			return 80 
 		}
 		return nullState
 	}, 
-	// Set55
+	// Set54
 	func(r rune) state {
 		switch { 
 		case r == 'i':
-			return 82 
+			return 81 
 		}
 		return nullState
 	}, 
-	// Set56
+	// Set55
 	func(r rune) state {
 		switch { 
 		case r == 'c':
-			return 83 
+			return 82 
 		case r == 'f':
-			return 84 
+			return 83 
 		case r == 'o':
-			return 85 
+			return 84 
 		case r == 's':
-			return 86 
+			return 85 
 		case r == '}':
-			return 87 
+			return 86 
 		}
 		return nullState
 	}, 
-	// Set57
+	// Set56
 	func(r rune) state {
 		switch { 
 		case r == 'a':
-			return 88 
+			return 87 
 		case r == 'e':
-			return 89 
+			return 88 
 		case r == 'i':
-			return 90 
+			return 89 
 		}
 		return nullState
 	}, 
-	// Set58
+	// Set57
 	func(r rune) state {
 		switch { 
 		case r == 'x':
-			return 91 
+			return 90 
 		}
 		return nullState
 	}, 
-	// Set59
+	// Set58
 	func(r rune) state {
 		switch { 
 		case r == 'e':
-			return 92 
+			return 91 
 		case r == 'y':
-			return 93 
+			return 92 
 		}
 		return nullState
 	}, 
-	// Set60
+	// Set59
 	func(r rune) state {
 		switch { 
 		case r == 'D':
-			return 94 
+			return 93 
 		case r == 'd':
-			return 95 
+			return 94 
 		}
 		return nullState
 	}, 
-	// Set61
+	// Set60
 	func(r rune) state {
 		switch { 
 		case r == 'o':
-			return 96 
+			return 95 
 		}
 		return nullState
 	}, 
-	// Set62
+	// Set61
 	func(r rune) state {
 		switch { 
 		case r == 'e':
-			return 97 
+			return 96 
 		case r == 'l':
-			return 98 
+			return 97 
 		case r == 'm':
-			return 99 
+			return 98 
 		case r == 'o':
-			return 100 
+			return 99 
 		case r == 't':
-			return 101 
+			return 100 
 		case r == 'u':
-			return 102 
+			return 101 
 		case r == '}':
-			return 103 
+			return 102 
 		}
 		return nullState
 	}, 
-	// Set63
+	// Set62
 	func(r rune) state {
 		switch { 
 		case r == 'a':
-			return 104 
+			return 103 
 		case r == 'c':
-			return 105 
+			return 104 
 		case r == 'e':
-			return 106 
+			return 105 
 		case r == 'n':
-			return 107 
+			return 106 
 		case r == '}':
-			return 108 
+			return 107 
 		}
 		return nullState
 	}, 
-	// Set64
+	// Set63
 	func(r rune) state {
 		switch { 
 		case r == 'd':
-			return 109 
+			return 108 
 		case r == 'l':
-			return 110 
+			return 109 
 		case r == 'o':
-			return 111 
+			return 110 
 		case r == 'u':
-			return 112 
+			return 111 
 		case r == '}':
-			return 113 
+			return 112 
 		}
 		return nullState
 	}, 
-	// Set65
+	// Set64
 	func(r rune) state {
 		switch { 
 		case r == 't':
-			return 114 
+			return 113 
 		}
 		return nullState
 	}, 
-	// Set66
+	// Set65
 	func(r rune) state {
 		switch { 
 		case r == 'a':
-			return 115 
+			return 114 
 		case r == 'c':
-			return 116 
+			return 115 
 		case r == 'd':
-			return 117 
+			return 116 
 		case r == 'e':
-			return 118 
+			return 117 
 		case r == 'f':
-			return 119 
+			return 118 
 		case r == 'i':
-			return 120 
+			return 119 
 		case r == 'o':
-			return 121 
+			return 120 
 		case r == 'r':
-			return 122 
+			return 121 
 		case r == 's':
-			return 123 
+			return 122 
 		case r == 'u':
-			return 124 
+			return 123 
 		case r == '}':
-			return 125 
+			return 124 
 		}
 		return nullState
 	}, 
-	// Set67
+	// Set66
 	func(r rune) state {
 		switch { 
 		case r == 'u':
-			return 126 
+			return 125 
 		}
 		return nullState
 	}, 
-	// Set68
+	// Set67
 	func(r rune) state {
 		switch { 
 		case r == 'a':
-			return 127 
+			return 126 
 		case r == 'e':
-			return 128 
+			return 127 
 		}
 		return nullState
 	}, 
-	// Set69
+	// Set68
 	func(r rune) state {
 		switch { 
 		case r == 'T':
-			return 129 
+			return 128 
 		case r == 'c':
-			return 130 
+			return 129 
 		case r == 'e':
-			return 131 
+			return 130 
 		case r == 'k':
-			return 132 
+			return 131 
 		case r == 'm':
-			return 133 
+			return 132 
 		case r == 'o':
-			return 134 
+			return 133 
 		case r == 'p':
-			return 135 
+			return 134 
 		case r == 'y':
-			return 136 
+			return 135 
 		case r == '}':
-			return 137 
+			return 136 
 		}
 		return nullState
 	}, 
-	// Set70
+	// Set69
 	func(r rune) state {
 		switch { 
 		case r == 'e':
-			return 138 
+			return 137 
 		case r == 'i':
-			return 139 
+			return 138 
 		}
 		return nullState
 	}, 
-	// Set71
+	// Set70
 	func(r rune) state {
 		switch { 
 		case r == 'n':
-			return 140 
+			return 139 
 		case r == 'p':
-			return 141 
+			return 140 
 		}
 		return nullState
 	}, 
-	// Set72
+	// Set71
 	func(r rune) state {
 		switch { 
 		case r == 'a':
-			return 142 
+			return 141 
 		}
 		return nullState
 	}, 
-	// Set73
+	// Set72
 	func(r rune) state {
 		switch { 
 		case r == 'h':
-			return 143 
+			return 142 
 		}
 		return nullState
 	}, 
-	// Set74
+	// Set73
 	func(r rune) state {
 		switch { 
 		case r == 'l':
-			return 144 
+			return 143 
 		case r == 'p':
-			return 145 
+			return 144 
 		case r == 's':
-			return 146 
+			return 145 
 		case r == '}':
+			return 146 
+		}
+		return nullState
+	}, 
+	// Set74
+	func(r rune) state {
+		switch { 
+		case r == '_':
+			return 33 
+		case r == 'y':
 			return 147 
+		case unicode.IsLetter(r):
+			return 33 
+		case unicode.IsNumber(r):
+			return 33 
 		}
 		return nullState
 	}, 
@@ -1875,7 +1878,7 @@ var nextState = []func(r rune) state{
 		switch { 
 		case r == '_':
 			return 33 
-		case r == 'y':
+		case r == 'e':
 			return 148 
 		case unicode.IsLetter(r):
 			return 33 
@@ -1889,7 +1892,7 @@ var nextState = []func(r rune) state{
 		switch { 
 		case r == '_':
 			return 33 
-		case r == 'e':
+		case r == 'a':
 			return 149 
 		case unicode.IsLetter(r):
 			return 33 
@@ -1903,7 +1906,7 @@ var nextState = []func(r rune) state{
 		switch { 
 		case r == '_':
 			return 33 
-		case r == 'a':
+		case r == 'e':
 			return 150 
 		case unicode.IsLetter(r):
 			return 33 
@@ -1917,7 +1920,7 @@ var nextState = []func(r rune) state{
 		switch { 
 		case r == '_':
 			return 33 
-		case r == 'e':
+		case r == 'a':
 			return 151 
 		case unicode.IsLetter(r):
 			return 33 
@@ -1931,7 +1934,7 @@ var nextState = []func(r rune) state{
 		switch { 
 		case r == '_':
 			return 33 
-		case r == 'a':
+		case r == 's':
 			return 152 
 		case unicode.IsLetter(r):
 			return 33 
@@ -1943,21 +1946,15 @@ var nextState = []func(r rune) state{
 	// Set80
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 's':
+		case r == 'C':
 			return 153 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
 		}
 		return nullState
 	}, 
 	// Set81
 	func(r rune) state {
 		switch { 
-		case r == 'C':
+		case r == 'd':
 			return 154 
 		}
 		return nullState
@@ -1965,7 +1962,7 @@ var nextState = []func(r rune) state{
 	// Set82
 	func(r rune) state {
 		switch { 
-		case r == 'd':
+		case r == '}':
 			return 155 
 		}
 		return nullState
@@ -1997,21 +1994,21 @@ var nextState = []func(r rune) state{
 	// Set86
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 159 
 		}
 		return nullState
 	}, 
 	// Set87
 	func(r rune) state {
 		switch { 
+		case r == 's':
+			return 159 
 		}
 		return nullState
 	}, 
 	// Set88
 	func(r rune) state {
 		switch { 
-		case r == 's':
+		case r == 'p':
 			return 160 
 		}
 		return nullState
@@ -2019,17 +2016,17 @@ var nextState = []func(r rune) state{
 	// Set89
 	func(r rune) state {
 		switch { 
-		case r == 'p':
+		case r == 'a':
 			return 161 
+		case r == 'g':
+			return 162 
 		}
 		return nullState
 	}, 
 	// Set90
 	func(r rune) state {
 		switch { 
-		case r == 'a':
-			return 162 
-		case r == 'g':
+		case r == 't':
 			return 163 
 		}
 		return nullState
@@ -2037,7 +2034,7 @@ var nextState = []func(r rune) state{
 	// Set91
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'x':
 			return 164 
 		}
 		return nullState
@@ -2045,7 +2042,7 @@ var nextState = []func(r rune) state{
 	// Set92
 	func(r rune) state {
 		switch { 
-		case r == 'x':
+		case r == 'p':
 			return 165 
 		}
 		return nullState
@@ -2053,7 +2050,7 @@ var nextState = []func(r rune) state{
 	// Set93
 	func(r rune) state {
 		switch { 
-		case r == 'p':
+		case r == 'S':
 			return 166 
 		}
 		return nullState
@@ -2061,7 +2058,7 @@ var nextState = []func(r rune) state{
 	// Set94
 	func(r rune) state {
 		switch { 
-		case r == 'S':
+		case r == 'e':
 			return 167 
 		}
 		return nullState
@@ -2069,7 +2066,7 @@ var nextState = []func(r rune) state{
 	// Set95
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'i':
 			return 168 
 		}
 		return nullState
@@ -2077,7 +2074,7 @@ var nextState = []func(r rune) state{
 	// Set96
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 't':
 			return 169 
 		}
 		return nullState
@@ -2085,7 +2082,7 @@ var nextState = []func(r rune) state{
 	// Set97
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == '}':
 			return 170 
 		}
 		return nullState
@@ -2101,18 +2098,18 @@ var nextState = []func(r rune) state{
 	// Set99
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'g':
 			return 172 
+		case r == 'w':
+			return 173 
+		case r == '}':
+			return 174 
 		}
 		return nullState
 	}, 
 	// Set100
 	func(r rune) state {
 		switch { 
-		case r == 'g':
-			return 173 
-		case r == 'w':
-			return 174 
 		case r == '}':
 			return 175 
 		}
@@ -2129,21 +2126,21 @@ var nextState = []func(r rune) state{
 	// Set102
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 177 
 		}
 		return nullState
 	}, 
 	// Set103
 	func(r rune) state {
 		switch { 
+		case r == 'r':
+			return 177 
 		}
 		return nullState
 	}, 
 	// Set104
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == '}':
 			return 178 
 		}
 		return nullState
@@ -2167,14 +2164,14 @@ var nextState = []func(r rune) state{
 	// Set107
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 181 
 		}
 		return nullState
 	}, 
 	// Set108
 	func(r rune) state {
 		switch { 
+		case r == '}':
+			return 181 
 		}
 		return nullState
 	}, 
@@ -2189,17 +2186,17 @@ var nextState = []func(r rune) state{
 	// Set110
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'n':
 			return 183 
+		case r == '}':
+			return 184 
 		}
 		return nullState
 	}, 
 	// Set111
 	func(r rune) state {
 		switch { 
-		case r == 'n':
-			return 184 
-		case r == '}':
+		case r == 'm':
 			return 185 
 		}
 		return nullState
@@ -2207,21 +2204,21 @@ var nextState = []func(r rune) state{
 	// Set112
 	func(r rune) state {
 		switch { 
-		case r == 'm':
-			return 186 
 		}
 		return nullState
 	}, 
 	// Set113
 	func(r rune) state {
 		switch { 
+		case r == 'h':
+			return 186 
 		}
 		return nullState
 	}, 
 	// Set114
 	func(r rune) state {
 		switch { 
-		case r == 'h':
+		case r == 't':
 			return 187 
 		}
 		return nullState
@@ -2229,7 +2226,7 @@ var nextState = []func(r rune) state{
 	// Set115
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == '}':
 			return 188 
 		}
 		return nullState
@@ -2277,7 +2274,7 @@ var nextState = []func(r rune) state{
 	// Set121
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'e':
 			return 194 
 		}
 		return nullState
@@ -2285,7 +2282,7 @@ var nextState = []func(r rune) state{
 	// Set122
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == '}':
 			return 195 
 		}
 		return nullState
@@ -2293,7 +2290,7 @@ var nextState = []func(r rune) state{
 	// Set123
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'n':
 			return 196 
 		}
 		return nullState
@@ -2301,21 +2298,21 @@ var nextState = []func(r rune) state{
 	// Set124
 	func(r rune) state {
 		switch { 
-		case r == 'n':
-			return 197 
 		}
 		return nullState
 	}, 
 	// Set125
 	func(r rune) state {
 		switch { 
+		case r == 'o':
+			return 197 
 		}
 		return nullState
 	}, 
 	// Set126
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'd':
 			return 198 
 		}
 		return nullState
@@ -2323,7 +2320,7 @@ var nextState = []func(r rune) state{
 	// Set127
 	func(r rune) state {
 		switch { 
-		case r == 'd':
+		case r == 'g':
 			return 199 
 		}
 		return nullState
@@ -2331,7 +2328,7 @@ var nextState = []func(r rune) state{
 	// Set128
 	func(r rune) state {
 		switch { 
-		case r == 'g':
+		case r == 'e':
 			return 200 
 		}
 		return nullState
@@ -2339,7 +2336,7 @@ var nextState = []func(r rune) state{
 	// Set129
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == '}':
 			return 201 
 		}
 		return nullState
@@ -2347,7 +2344,7 @@ var nextState = []func(r rune) state{
 	// Set130
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'n':
 			return 202 
 		}
 		return nullState
@@ -2355,7 +2352,7 @@ var nextState = []func(r rune) state{
 	// Set131
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == '}':
 			return 203 
 		}
 		return nullState
@@ -2371,17 +2368,17 @@ var nextState = []func(r rune) state{
 	// Set133
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'f':
 			return 205 
+		case r == '}':
+			return 206 
 		}
 		return nullState
 	}, 
 	// Set134
 	func(r rune) state {
 		switch { 
-		case r == 'f':
-			return 206 
-		case r == '}':
+		case r == 'a':
 			return 207 
 		}
 		return nullState
@@ -2389,7 +2386,7 @@ var nextState = []func(r rune) state{
 	// Set135
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'm':
 			return 208 
 		}
 		return nullState
@@ -2397,21 +2394,21 @@ var nextState = []func(r rune) state{
 	// Set136
 	func(r rune) state {
 		switch { 
-		case r == 'm':
-			return 209 
 		}
 		return nullState
 	}, 
 	// Set137
 	func(r rune) state {
 		switch { 
+		case r == 'r':
+			return 209 
 		}
 		return nullState
 	}, 
 	// Set138
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 't':
 			return 210 
 		}
 		return nullState
@@ -2419,7 +2416,7 @@ var nextState = []func(r rune) state{
 	// Set139
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'i':
 			return 211 
 		}
 		return nullState
@@ -2427,7 +2424,7 @@ var nextState = []func(r rune) state{
 	// Set140
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'p':
 			return 212 
 		}
 		return nullState
@@ -2435,7 +2432,7 @@ var nextState = []func(r rune) state{
 	// Set141
 	func(r rune) state {
 		switch { 
-		case r == 'p':
+		case r == 'r':
 			return 213 
 		}
 		return nullState
@@ -2443,7 +2440,7 @@ var nextState = []func(r rune) state{
 	// Set142
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'i':
 			return 214 
 		}
 		return nullState
@@ -2451,7 +2448,7 @@ var nextState = []func(r rune) state{
 	// Set143
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == '}':
 			return 215 
 		}
 		return nullState
@@ -2475,14 +2472,18 @@ var nextState = []func(r rune) state{
 	// Set146
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 218 
 		}
 		return nullState
 	}, 
 	// Set147
 	func(r rune) state {
 		switch { 
+		case r == '_':
+			return 33 
+		case unicode.IsLetter(r):
+			return 33 
+		case unicode.IsNumber(r):
+			return 33 
 		}
 		return nullState
 	}, 
@@ -2491,6 +2492,8 @@ var nextState = []func(r rune) state{
 		switch { 
 		case r == '_':
 			return 33 
+		case r == 'r':
+			return 218 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -2503,7 +2506,7 @@ var nextState = []func(r rune) state{
 		switch { 
 		case r == '_':
 			return 33 
-		case r == 'r':
+		case r == 's':
 			return 219 
 		case unicode.IsLetter(r):
 			return 33 
@@ -2517,7 +2520,7 @@ var nextState = []func(r rune) state{
 		switch { 
 		case r == '_':
 			return 33 
-		case r == 's':
+		case r == 'r':
 			return 220 
 		case unicode.IsLetter(r):
 			return 33 
@@ -2531,7 +2534,7 @@ var nextState = []func(r rune) state{
 		switch { 
 		case r == '_':
 			return 33 
-		case r == 'r':
+		case r == 'g':
 			return 221 
 		case unicode.IsLetter(r):
 			return 33 
@@ -2545,7 +2548,7 @@ var nextState = []func(r rune) state{
 		switch { 
 		case r == '_':
 			return 33 
-		case r == 'g':
+		case r == 'e':
 			return 222 
 		case unicode.IsLetter(r):
 			return 33 
@@ -2557,21 +2560,15 @@ var nextState = []func(r rune) state{
 	// Set153
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'e':
+		case r == 'I':
 			return 223 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
 		}
 		return nullState
 	}, 
 	// Set154
 	func(r rune) state {
 		switch { 
-		case r == 'I':
+		case r == 'i':
 			return 224 
 		}
 		return nullState
@@ -2579,8 +2576,6 @@ var nextState = []func(r rune) state{
 	// Set155
 	func(r rune) state {
 		switch { 
-		case r == 'i':
-			return 225 
 		}
 		return nullState
 	}, 
@@ -2605,13 +2600,15 @@ var nextState = []func(r rune) state{
 	// Set159
 	func(r rune) state {
 		switch { 
+		case r == 'h':
+			return 225 
 		}
 		return nullState
 	}, 
 	// Set160
 	func(r rune) state {
 		switch { 
-		case r == 'h':
+		case r == 'r':
 			return 226 
 		}
 		return nullState
@@ -2619,7 +2616,7 @@ var nextState = []func(r rune) state{
 	// Set161
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'c':
 			return 227 
 		}
 		return nullState
@@ -2627,7 +2624,7 @@ var nextState = []func(r rune) state{
 	// Set162
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 'i':
 			return 228 
 		}
 		return nullState
@@ -2635,7 +2632,7 @@ var nextState = []func(r rune) state{
 	// Set163
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'e':
 			return 229 
 		}
 		return nullState
@@ -2643,7 +2640,7 @@ var nextState = []func(r rune) state{
 	// Set164
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == '_':
 			return 230 
 		}
 		return nullState
@@ -2651,7 +2648,7 @@ var nextState = []func(r rune) state{
 	// Set165
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'h':
 			return 231 
 		}
 		return nullState
@@ -2659,7 +2656,7 @@ var nextState = []func(r rune) state{
 	// Set166
 	func(r rune) state {
 		switch { 
-		case r == 'h':
+		case r == '_':
 			return 232 
 		}
 		return nullState
@@ -2667,7 +2664,7 @@ var nextState = []func(r rune) state{
 	// Set167
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'o':
 			return 233 
 		}
 		return nullState
@@ -2675,7 +2672,7 @@ var nextState = []func(r rune) state{
 	// Set168
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'n':
 			return 234 
 		}
 		return nullState
@@ -2683,7 +2680,7 @@ var nextState = []func(r rune) state{
 	// Set169
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 't':
 			return 235 
 		}
 		return nullState
@@ -2691,8 +2688,6 @@ var nextState = []func(r rune) state{
 	// Set170
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 236 
 		}
 		return nullState
 	}, 
@@ -2705,13 +2700,15 @@ var nextState = []func(r rune) state{
 	// Set172
 	func(r rune) state {
 		switch { 
+		case r == 'i':
+			return 236 
 		}
 		return nullState
 	}, 
 	// Set173
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'e':
 			return 237 
 		}
 		return nullState
@@ -2719,8 +2716,6 @@ var nextState = []func(r rune) state{
 	// Set174
 	func(r rune) state {
 		switch { 
-		case r == 'e':
-			return 238 
 		}
 		return nullState
 	}, 
@@ -2739,14 +2734,14 @@ var nextState = []func(r rune) state{
 	// Set177
 	func(r rune) state {
 		switch { 
+		case r == 'k':
+			return 238 
 		}
 		return nullState
 	}, 
 	// Set178
 	func(r rune) state {
 		switch { 
-		case r == 'k':
-			return 239 
 		}
 		return nullState
 	}, 
@@ -2777,27 +2772,29 @@ var nextState = []func(r rune) state{
 	// Set183
 	func(r rune) state {
 		switch { 
+		case r == 'c':
+			return 239 
 		}
 		return nullState
 	}, 
 	// Set184
 	func(r rune) state {
 		switch { 
-		case r == 'c':
-			return 240 
 		}
 		return nullState
 	}, 
 	// Set185
 	func(r rune) state {
 		switch { 
+		case r == 'b':
+			return 240 
 		}
 		return nullState
 	}, 
 	// Set186
 	func(r rune) state {
 		switch { 
-		case r == 'b':
+		case r == 'e':
 			return 241 
 		}
 		return nullState
@@ -2805,7 +2802,7 @@ var nextState = []func(r rune) state{
 	// Set187
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 't':
 			return 242 
 		}
 		return nullState
@@ -2813,8 +2810,6 @@ var nextState = []func(r rune) state{
 	// Set188
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 243 
 		}
 		return nullState
 	}, 
@@ -2851,27 +2846,29 @@ var nextState = []func(r rune) state{
 	// Set194
 	func(r rune) state {
 		switch { 
+		case r == 'p':
+			return 243 
 		}
 		return nullState
 	}, 
 	// Set195
 	func(r rune) state {
 		switch { 
-		case r == 'p':
-			return 244 
 		}
 		return nullState
 	}, 
 	// Set196
 	func(r rune) state {
 		switch { 
+		case r == 'c':
+			return 244 
 		}
 		return nullState
 	}, 
 	// Set197
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 't':
 			return 245 
 		}
 		return nullState
@@ -2879,7 +2876,7 @@ var nextState = []func(r rune) state{
 	// Set198
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'i':
 			return 246 
 		}
 		return nullState
@@ -2895,7 +2892,7 @@ var nextState = []func(r rune) state{
 	// Set200
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'r':
 			return 248 
 		}
 		return nullState
@@ -2903,22 +2900,20 @@ var nextState = []func(r rune) state{
 	// Set201
 	func(r rune) state {
 		switch { 
-		case r == 'r':
-			return 249 
 		}
 		return nullState
 	}, 
 	// Set202
 	func(r rune) state {
 		switch { 
-		}
+		case r == 't':
+			return 249 
+		}
 		return nullState
 	}, 
 	// Set203
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 250 
 		}
 		return nullState
 	}, 
@@ -2931,27 +2926,29 @@ var nextState = []func(r rune) state{
 	// Set205
 	func(r rune) state {
 		switch { 
+		case r == 't':
+			return 250 
 		}
 		return nullState
 	}, 
 	// Set206
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 251 
 		}
 		return nullState
 	}, 
 	// Set207
 	func(r rune) state {
 		switch { 
+		case r == 'c':
+			return 251 
 		}
 		return nullState
 	}, 
 	// Set208
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 'b':
 			return 252 
 		}
 		return nullState
@@ -2959,7 +2956,7 @@ var nextState = []func(r rune) state{
 	// Set209
 	func(r rune) state {
 		switch { 
-		case r == 'b':
+		case r == 'm':
 			return 253 
 		}
 		return nullState
@@ -2967,7 +2964,7 @@ var nextState = []func(r rune) state{
 	// Set210
 	func(r rune) state {
 		switch { 
-		case r == 'm':
+		case r == 'l':
 			return 254 
 		}
 		return nullState
@@ -2975,7 +2972,7 @@ var nextState = []func(r rune) state{
 	// Set211
 	func(r rune) state {
 		switch { 
-		case r == 'l':
+		case r == 'f':
 			return 255 
 		}
 		return nullState
@@ -2983,7 +2980,7 @@ var nextState = []func(r rune) state{
 	// Set212
 	func(r rune) state {
 		switch { 
-		case r == 'f':
+		case r == 'e':
 			return 256 
 		}
 		return nullState
@@ -2991,7 +2988,7 @@ var nextState = []func(r rune) state{
 	// Set213
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'i':
 			return 257 
 		}
 		return nullState
@@ -2999,7 +2996,7 @@ var nextState = []func(r rune) state{
 	// Set214
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 't':
 			return 258 
 		}
 		return nullState
@@ -3007,8 +3004,6 @@ var nextState = []func(r rune) state{
 	// Set215
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 259 
 		}
 		return nullState
 	}, 
@@ -3027,6 +3022,12 @@ var nextState = []func(r rune) state{
 	// Set218
 	func(r rune) state {
 		switch { 
+		case r == '_':
+			return 33 
+		case unicode.IsLetter(r):
+			return 33 
+		case unicode.IsNumber(r):
+			return 33 
 		}
 		return nullState
 	}, 
@@ -3035,6 +3036,8 @@ var nextState = []func(r rune) state{
 		switch { 
 		case r == '_':
 			return 33 
+		case r == 'e':
+			return 259 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -3047,8 +3050,6 @@ var nextState = []func(r rune) state{
 		switch { 
 		case r == '_':
 			return 33 
-		case r == 'e':
-			return 260 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -3061,6 +3062,8 @@ var nextState = []func(r rune) state{
 		switch { 
 		case r == '_':
 			return 33 
+		case r == 'e':
+			return 260 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -3073,8 +3076,6 @@ var nextState = []func(r rune) state{
 		switch { 
 		case r == '_':
 			return 33 
-		case r == 'e':
-			return 261 
 		case unicode.IsLetter(r):
 			return 33 
 		case unicode.IsNumber(r):
@@ -3085,19 +3086,15 @@ var nextState = []func(r rune) state{
 	// Set223
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
+		case r == 'I':
+			return 261 
 		}
 		return nullState
 	}, 
 	// Set224
 	func(r rune) state {
 		switch { 
-		case r == 'I':
+		case r == '_':
 			return 262 
 		}
 		return nullState
@@ -3105,7 +3102,7 @@ var nextState = []func(r rune) state{
 	// Set225
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == '}':
 			return 263 
 		}
 		return nullState
@@ -3113,7 +3110,7 @@ var nextState = []func(r rune) state{
 	// Set226
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'e':
 			return 264 
 		}
 		return nullState
@@ -3121,7 +3118,7 @@ var nextState = []func(r rune) state{
 	// Set227
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'r':
 			return 265 
 		}
 		return nullState
@@ -3129,7 +3126,7 @@ var nextState = []func(r rune) state{
 	// Set228
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 't':
 			return 266 
 		}
 		return nullState
@@ -3137,7 +3134,7 @@ var nextState = []func(r rune) state{
 	// Set229
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'n':
 			return 267 
 		}
 		return nullState
@@ -3145,7 +3142,7 @@ var nextState = []func(r rune) state{
 	// Set230
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'D':
 			return 268 
 		}
 		return nullState
@@ -3153,7 +3150,7 @@ var nextState = []func(r rune) state{
 	// Set231
 	func(r rune) state {
 		switch { 
-		case r == 'D':
+		case r == 'e':
 			return 269 
 		}
 		return nullState
@@ -3161,17 +3158,17 @@ var nextState = []func(r rune) state{
 	// Set232
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'B':
 			return 270 
+		case r == 'T':
+			return 271 
 		}
 		return nullState
 	}, 
 	// Set233
 	func(r rune) state {
 		switch { 
-		case r == 'B':
-			return 271 
-		case r == 'T':
+		case r == 'g':
 			return 272 
 		}
 		return nullState
@@ -3179,7 +3176,7 @@ var nextState = []func(r rune) state{
 	// Set234
 	func(r rune) state {
 		switch { 
-		case r == 'g':
+		case r == '_':
 			return 273 
 		}
 		return nullState
@@ -3187,7 +3184,7 @@ var nextState = []func(r rune) state{
 	// Set235
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'e':
 			return 274 
 		}
 		return nullState
@@ -3195,7 +3192,7 @@ var nextState = []func(r rune) state{
 	// Set236
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'c':
 			return 275 
 		}
 		return nullState
@@ -3203,7 +3200,7 @@ var nextState = []func(r rune) state{
 	// Set237
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 'r':
 			return 276 
 		}
 		return nullState
@@ -3211,7 +3208,7 @@ var nextState = []func(r rune) state{
 	// Set238
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == '}':
 			return 277 
 		}
 		return nullState
@@ -3219,7 +3216,7 @@ var nextState = []func(r rune) state{
 	// Set239
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'h':
 			return 278 
 		}
 		return nullState
@@ -3227,7 +3224,7 @@ var nextState = []func(r rune) state{
 	// Set240
 	func(r rune) state {
 		switch { 
-		case r == 'h':
+		case r == 'e':
 			return 279 
 		}
 		return nullState
@@ -3235,7 +3232,7 @@ var nextState = []func(r rune) state{
 	// Set241
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'r':
 			return 280 
 		}
 		return nullState
@@ -3243,7 +3240,7 @@ var nextState = []func(r rune) state{
 	// Set242
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'e':
 			return 281 
 		}
 		return nullState
@@ -3259,7 +3256,7 @@ var nextState = []func(r rune) state{
 	// Set244
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 't':
 			return 283 
 		}
 		return nullState
@@ -3267,7 +3264,7 @@ var nextState = []func(r rune) state{
 	// Set245
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'a':
 			return 284 
 		}
 		return nullState
@@ -3275,7 +3272,7 @@ var nextState = []func(r rune) state{
 	// Set246
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'c':
 			return 285 
 		}
 		return nullState
@@ -3283,7 +3280,7 @@ var nextState = []func(r rune) state{
 	// Set247
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 'o':
 			return 286 
 		}
 		return nullState
@@ -3291,7 +3288,7 @@ var nextState = []func(r rune) state{
 	// Set248
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'm':
 			return 287 
 		}
 		return nullState
@@ -3299,7 +3296,7 @@ var nextState = []func(r rune) state{
 	// Set249
 	func(r rune) state {
 		switch { 
-		case r == 'm':
+		case r == 'e':
 			return 288 
 		}
 		return nullState
@@ -3307,7 +3304,7 @@ var nextState = []func(r rune) state{
 	// Set250
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == '_':
 			return 289 
 		}
 		return nullState
@@ -3315,7 +3312,7 @@ var nextState = []func(r rune) state{
 	// Set251
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'e':
 			return 290 
 		}
 		return nullState
@@ -3323,7 +3320,7 @@ var nextState = []func(r rune) state{
 	// Set252
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'o':
 			return 291 
 		}
 		return nullState
@@ -3331,7 +3328,7 @@ var nextState = []func(r rune) state{
 	// Set253
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'i':
 			return 292 
 		}
 		return nullState
@@ -3339,7 +3336,7 @@ var nextState = []func(r rune) state{
 	// Set254
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'e':
 			return 293 
 		}
 		return nullState
@@ -3347,7 +3344,7 @@ var nextState = []func(r rune) state{
 	// Set255
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'i':
 			return 294 
 		}
 		return nullState
@@ -3355,7 +3352,7 @@ var nextState = []func(r rune) state{
 	// Set256
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'r':
 			return 295 
 		}
 		return nullState
@@ -3363,7 +3360,7 @@ var nextState = []func(r rune) state{
 	// Set257
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'a':
 			return 296 
 		}
 		return nullState
@@ -3371,7 +3368,7 @@ var nextState = []func(r rune) state{
 	// Set258
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'e':
 			return 297 
 		}
 		return nullState
@@ -3379,8 +3376,12 @@ var nextState = []func(r rune) state{
 	// Set259
 	func(r rune) state {
 		switch { 
-		case r == 'e':
-			return 298 
+		case r == '_':
+			return 33 
+		case unicode.IsLetter(r):
+			return 33 
+		case unicode.IsNumber(r):
+			return 33 
 		}
 		return nullState
 	}, 
@@ -3400,18 +3401,14 @@ var nextState = []func(r rune) state{
 	func(r rune) state {
 		switch { 
 		case r == '_':
-			return 33 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
+			return 298 
 		}
 		return nullState
 	}, 
 	// Set262
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'C':
 			return 299 
 		}
 		return nullState
@@ -3419,21 +3416,21 @@ var nextState = []func(r rune) state{
 	// Set263
 	func(r rune) state {
 		switch { 
-		case r == 'C':
-			return 300 
 		}
 		return nullState
 	}, 
 	// Set264
 	func(r rune) state {
 		switch { 
+		case r == 'c':
+			return 300 
 		}
 		return nullState
 	}, 
 	// Set265
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 'i':
 			return 301 
 		}
 		return nullState
@@ -3441,7 +3438,7 @@ var nextState = []func(r rune) state{
 	// Set266
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == '}':
 			return 302 
 		}
 		return nullState
@@ -3449,7 +3446,7 @@ var nextState = []func(r rune) state{
 	// Set267
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'd':
 			return 303 
 		}
 		return nullState
@@ -3457,7 +3454,7 @@ var nextState = []func(r rune) state{
 	// Set268
 	func(r rune) state {
 		switch { 
-		case r == 'd':
+		case r == 'i':
 			return 304 
 		}
 		return nullState
@@ -3465,7 +3462,7 @@ var nextState = []func(r rune) state{
 	// Set269
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'n':
 			return 305 
 		}
 		return nullState
@@ -3473,7 +3470,7 @@ var nextState = []func(r rune) state{
 	// Set270
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'i':
 			return 306 
 		}
 		return nullState
@@ -3481,7 +3478,7 @@ var nextState = []func(r rune) state{
 	// Set271
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'r':
 			return 307 
 		}
 		return nullState
@@ -3497,7 +3494,7 @@ var nextState = []func(r rune) state{
 	// Set273
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'C':
 			return 309 
 		}
 		return nullState
@@ -3505,7 +3502,7 @@ var nextState = []func(r rune) state{
 	// Set274
 	func(r rune) state {
 		switch { 
-		case r == 'C':
+		case r == 'r':
 			return 310 
 		}
 		return nullState
@@ -3513,7 +3510,7 @@ var nextState = []func(r rune) state{
 	// Set275
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'a':
 			return 311 
 		}
 		return nullState
@@ -3521,7 +3518,7 @@ var nextState = []func(r rune) state{
 	// Set276
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == '}':
 			return 312 
 		}
 		return nullState
@@ -3529,21 +3526,21 @@ var nextState = []func(r rune) state{
 	// Set277
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 313 
 		}
 		return nullState
 	}, 
 	// Set278
 	func(r rune) state {
 		switch { 
+		case r == 'a':
+			return 313 
 		}
 		return nullState
 	}, 
 	// Set279
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'r':
 			return 314 
 		}
 		return nullState
@@ -3551,17 +3548,17 @@ var nextState = []func(r rune) state{
 	// Set280
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == '_':
 			return 315 
+		case r == '}':
+			return 316 
 		}
 		return nullState
 	}, 
 	// Set281
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 316 
-		case r == '}':
+		case r == 'r':
 			return 317 
 		}
 		return nullState
@@ -3569,7 +3566,7 @@ var nextState = []func(r rune) state{
 	// Set282
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'n':
 			return 318 
 		}
 		return nullState
@@ -3577,7 +3574,7 @@ var nextState = []func(r rune) state{
 	// Set283
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == '}':
 			return 319 
 		}
 		return nullState
@@ -3585,7 +3582,7 @@ var nextState = []func(r rune) state{
 	// Set284
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 't':
 			return 320 
 		}
 		return nullState
@@ -3593,7 +3590,7 @@ var nextState = []func(r rune) state{
 	// Set285
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'a':
 			return 321 
 		}
 		return nullState
@@ -3601,7 +3598,7 @@ var nextState = []func(r rune) state{
 	// Set286
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'n':
 			return 322 
 		}
 		return nullState
@@ -3609,7 +3606,7 @@ var nextState = []func(r rune) state{
 	// Set287
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == '}':
 			return 323 
 		}
 		return nullState
@@ -3617,7 +3614,7 @@ var nextState = []func(r rune) state{
 	// Set288
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'n':
 			return 324 
 		}
 		return nullState
@@ -3625,7 +3622,7 @@ var nextState = []func(r rune) state{
 	// Set289
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'D':
 			return 325 
 		}
 		return nullState
@@ -3633,7 +3630,7 @@ var nextState = []func(r rune) state{
 	// Set290
 	func(r rune) state {
 		switch { 
-		case r == 'D':
+		case r == '}':
 			return 326 
 		}
 		return nullState
@@ -3641,7 +3638,7 @@ var nextState = []func(r rune) state{
 	// Set291
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'l':
 			return 327 
 		}
 		return nullState
@@ -3649,7 +3646,7 @@ var nextState = []func(r rune) state{
 	// Set292
 	func(r rune) state {
 		switch { 
-		case r == 'l':
+		case r == 'n':
 			return 328 
 		}
 		return nullState
@@ -3657,7 +3654,7 @@ var nextState = []func(r rune) state{
 	// Set293
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == '}':
 			return 329 
 		}
 		return nullState
@@ -3665,7 +3662,7 @@ var nextState = []func(r rune) state{
 	// Set294
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'e':
 			return 330 
 		}
 		return nullState
@@ -3673,7 +3670,7 @@ var nextState = []func(r rune) state{
 	// Set295
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == '}':
 			return 331 
 		}
 		return nullState
@@ -3681,7 +3678,7 @@ var nextState = []func(r rune) state{
 	// Set296
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 't':
 			return 332 
 		}
 		return nullState
@@ -3689,7 +3686,7 @@ var nextState = []func(r rune) state{
 	// Set297
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == '_':
 			return 333 
 		}
 		return nullState
@@ -3697,7 +3694,7 @@ var nextState = []func(r rune) state{
 	// Set298
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'H':
 			return 334 
 		}
 		return nullState
@@ -3705,7 +3702,7 @@ var nextState = []func(r rune) state{
 	// Set299
 	func(r rune) state {
 		switch { 
-		case r == 'H':
+		case r == 'o':
 			return 335 
 		}
 		return nullState
@@ -3713,7 +3710,7 @@ var nextState = []func(r rune) state{
 	// Set300
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'a':
 			return 336 
 		}
 		return nullState
@@ -3721,7 +3718,7 @@ var nextState = []func(r rune) state{
 	// Set301
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 't':
 			return 337 
 		}
 		return nullState
@@ -3729,21 +3726,21 @@ var nextState = []func(r rune) state{
 	// Set302
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 338 
 		}
 		return nullState
 	}, 
 	// Set303
 	func(r rune) state {
 		switch { 
+		case r == 'e':
+			return 338 
 		}
 		return nullState
 	}, 
 	// Set304
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'g':
 			return 339 
 		}
 		return nullState
@@ -3751,7 +3748,7 @@ var nextState = []func(r rune) state{
 	// Set305
 	func(r rune) state {
 		switch { 
-		case r == 'g':
+		case r == '}':
 			return 340 
 		}
 		return nullState
@@ -3759,7 +3756,7 @@ var nextState = []func(r rune) state{
 	// Set306
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'n':
 			return 341 
 		}
 		return nullState
@@ -3767,7 +3764,7 @@ var nextState = []func(r rune) state{
 	// Set307
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'i':
 			return 342 
 		}
 		return nullState
@@ -3775,7 +3772,7 @@ var nextState = []func(r rune) state{
 	// Set308
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'a':
 			return 343 
 		}
 		return nullState
@@ -3783,7 +3780,7 @@ var nextState = []func(r rune) state{
 	// Set309
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'o':
 			return 344 
 		}
 		return nullState
@@ -3791,7 +3788,7 @@ var nextState = []func(r rune) state{
 	// Set310
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == '}':
 			return 345 
 		}
 		return nullState
@@ -3799,7 +3796,7 @@ var nextState = []func(r rune) state{
 	// Set311
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'l':
 			return 346 
 		}
 		return nullState
@@ -3807,63 +3804,63 @@ var nextState = []func(r rune) state{
 	// Set312
 	func(r rune) state {
 		switch { 
-		case r == 'l':
-			return 347 
 		}
 		return nullState
 	}, 
 	// Set313
 	func(r rune) state {
 		switch { 
+		case r == 'r':
+			return 347 
 		}
 		return nullState
 	}, 
 	// Set314
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == '}':
 			return 348 
 		}
 		return nullState
 	}, 
 	// Set315
-	func(r rune) state {
-		switch { 
-		case r == '}':
-			return 349 
-		}
-		return nullState
-	}, 
-	// Set316
 	func(r rune) state {
 		switch { 
 		case r == 'A':
-			return 350 
+			return 349 
 		case r == 'D':
-			return 351 
+			return 350 
 		case r == 'G':
-			return 352 
+			return 351 
 		case r == 'I':
-			return 353 
+			return 352 
 		case r == 'L':
-			return 354 
+			return 353 
 		case r == 'M':
-			return 355 
+			return 354 
 		case r == 'U':
-			return 356 
+			return 355 
+		}
+		return nullState
+	}, 
+	// Set316
+	func(r rune) state {
+		switch { 
 		}
 		return nullState
 	}, 
 	// Set317
 	func(r rune) state {
 		switch { 
+		case r == 'n':
+			return 356 
 		}
 		return nullState
 	}, 
 	// Set318
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'd':
 			return 357 
 		}
 		return nullState
@@ -3871,21 +3868,21 @@ var nextState = []func(r rune) state{
 	// Set319
 	func(r rune) state {
 		switch { 
-		case r == 'd':
-			return 358 
 		}
 		return nullState
 	}, 
 	// Set320
 	func(r rune) state {
 		switch { 
+		case r == 'i':
+			return 358 
 		}
 		return nullState
 	}, 
 	// Set321
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'l':
 			return 359 
 		}
 		return nullState
@@ -3893,7 +3890,7 @@ var nextState = []func(r rune) state{
 	// Set322
 	func(r rune) state {
 		switch { 
-		case r == 'l':
+		case r == 'a':
 			return 360 
 		}
 		return nullState
@@ -3901,21 +3898,21 @@ var nextState = []func(r rune) state{
 	// Set323
 	func(r rune) state {
 		switch { 
-		case r == 'a':
-			return 361 
 		}
 		return nullState
 	}, 
 	// Set324
 	func(r rune) state {
 		switch { 
+		case r == 'c':
+			return 361 
 		}
 		return nullState
 	}, 
 	// Set325
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 'o':
 			return 362 
 		}
 		return nullState
@@ -3923,21 +3920,21 @@ var nextState = []func(r rune) state{
 	// Set326
 	func(r rune) state {
 		switch { 
-		case r == 'o':
-			return 363 
 		}
 		return nullState
 	}, 
 	// Set327
 	func(r rune) state {
 		switch { 
+		case r == '}':
+			return 363 
 		}
 		return nullState
 	}, 
 	// Set328
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'a':
 			return 364 
 		}
 		return nullState
@@ -3945,35 +3942,35 @@ var nextState = []func(r rune) state{
 	// Set329
 	func(r rune) state {
 		switch { 
-		case r == 'a':
-			return 365 
 		}
 		return nullState
 	}, 
 	// Set330
 	func(r rune) state {
 		switch { 
+		case r == 'd':
+			return 365 
 		}
 		return nullState
 	}, 
 	// Set331
 	func(r rune) state {
 		switch { 
-		case r == 'd':
-			return 366 
 		}
 		return nullState
 	}, 
 	// Set332
 	func(r rune) state {
 		switch { 
+		case r == 'i':
+			return 366 
 		}
 		return nullState
 	}, 
 	// Set333
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'S':
 			return 367 
 		}
 		return nullState
@@ -3981,7 +3978,7 @@ var nextState = []func(r rune) state{
 	// Set334
 	func(r rune) state {
 		switch { 
-		case r == 'S':
+		case r == 'e':
 			return 368 
 		}
 		return nullState
@@ -3989,7 +3986,7 @@ var nextState = []func(r rune) state{
 	// Set335
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'n':
 			return 369 
 		}
 		return nullState
@@ -3997,7 +3994,7 @@ var nextState = []func(r rune) state{
 	// Set336
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 't':
 			return 370 
 		}
 		return nullState
@@ -4005,7 +4002,7 @@ var nextState = []func(r rune) state{
 	// Set337
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'i':
 			return 371 
 		}
 		return nullState
@@ -4013,7 +4010,7 @@ var nextState = []func(r rune) state{
 	// Set338
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'r':
 			return 372 
 		}
 		return nullState
@@ -4021,7 +4018,7 @@ var nextState = []func(r rune) state{
 	// Set339
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'i':
 			return 373 
 		}
 		return nullState
@@ -4029,21 +4026,21 @@ var nextState = []func(r rune) state{
 	// Set340
 	func(r rune) state {
 		switch { 
-		case r == 'i':
-			return 374 
 		}
 		return nullState
 	}, 
 	// Set341
 	func(r rune) state {
 		switch { 
+		case r == 'a':
+			return 374 
 		}
 		return nullState
 	}, 
 	// Set342
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'n':
 			return 375 
 		}
 		return nullState
@@ -4051,7 +4048,7 @@ var nextState = []func(r rune) state{
 	// Set343
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'p':
 			return 376 
 		}
 		return nullState
@@ -4059,7 +4056,7 @@ var nextState = []func(r rune) state{
 	// Set344
 	func(r rune) state {
 		switch { 
-		case r == 'p':
+		case r == 'n':
 			return 377 
 		}
 		return nullState
@@ -4067,21 +4064,21 @@ var nextState = []func(r rune) state{
 	// Set345
 	func(r rune) state {
 		switch { 
-		case r == 'n':
-			return 378 
 		}
 		return nullState
 	}, 
 	// Set346
 	func(r rune) state {
 		switch { 
+		case r == '_':
+			return 378 
 		}
 		return nullState
 	}, 
 	// Set347
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'a':
 			return 379 
 		}
 		return nullState
@@ -4089,21 +4086,21 @@ var nextState = []func(r rune) state{
 	// Set348
 	func(r rune) state {
 		switch { 
-		case r == 'a':
-			return 380 
 		}
 		return nullState
 	}, 
 	// Set349
 	func(r rune) state {
 		switch { 
+		case r == 'l':
+			return 380 
 		}
 		return nullState
 	}, 
 	// Set350
 	func(r rune) state {
 		switch { 
-		case r == 'l':
+		case r == 'e':
 			return 381 
 		}
 		return nullState
@@ -4111,7 +4108,7 @@ var nextState = []func(r rune) state{
 	// Set351
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'r':
 			return 382 
 		}
 		return nullState
@@ -4119,7 +4116,7 @@ var nextState = []func(r rune) state{
 	// Set352
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'D':
 			return 383 
 		}
 		return nullState
@@ -4127,7 +4124,7 @@ var nextState = []func(r rune) state{
 	// Set353
 	func(r rune) state {
 		switch { 
-		case r == 'D':
+		case r == 'o':
 			return 384 
 		}
 		return nullState
@@ -4135,7 +4132,7 @@ var nextState = []func(r rune) state{
 	// Set354
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'a':
 			return 385 
 		}
 		return nullState
@@ -4143,7 +4140,7 @@ var nextState = []func(r rune) state{
 	// Set355
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'p':
 			return 386 
 		}
 		return nullState
@@ -4151,7 +4148,7 @@ var nextState = []func(r rune) state{
 	// Set356
 	func(r rune) state {
 		switch { 
-		case r == 'p':
+		case r == '_':
 			return 387 
 		}
 		return nullState
@@ -4159,7 +4156,7 @@ var nextState = []func(r rune) state{
 	// Set357
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'e':
 			return 388 
 		}
 		return nullState
@@ -4167,7 +4164,7 @@ var nextState = []func(r rune) state{
 	// Set358
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'o':
 			return 389 
 		}
 		return nullState
@@ -4175,7 +4172,7 @@ var nextState = []func(r rune) state{
 	// Set359
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == '}':
 			return 390 
 		}
 		return nullState
@@ -4183,7 +4180,7 @@ var nextState = []func(r rune) state{
 	// Set360
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'l':
 			return 391 
 		}
 		return nullState
@@ -4191,7 +4188,7 @@ var nextState = []func(r rune) state{
 	// Set361
 	func(r rune) state {
 		switch { 
-		case r == 'l':
+		case r == 'e':
 			return 392 
 		}
 		return nullState
@@ -4199,7 +4196,7 @@ var nextState = []func(r rune) state{
 	// Set362
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 't':
 			return 393 
 		}
 		return nullState
@@ -4207,21 +4204,21 @@ var nextState = []func(r rune) state{
 	// Set363
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 394 
 		}
 		return nullState
 	}, 
 	// Set364
 	func(r rune) state {
 		switch { 
+		case r == 'l':
+			return 394 
 		}
 		return nullState
 	}, 
 	// Set365
 	func(r rune) state {
 		switch { 
-		case r == 'l':
+		case r == '_':
 			return 395 
 		}
 		return nullState
@@ -4229,7 +4226,7 @@ var nextState = []func(r rune) state{
 	// Set366
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'o':
 			return 396 
 		}
 		return nullState
@@ -4237,7 +4234,7 @@ var nextState = []func(r rune) state{
 	// Set367
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'p':
 			return 397 
 		}
 		return nullState
@@ -4245,7 +4242,7 @@ var nextState = []func(r rune) state{
 	// Set368
 	func(r rune) state {
 		switch { 
-		case r == 'p':
+		case r == 'x':
 			return 398 
 		}
 		return nullState
@@ -4253,7 +4250,7 @@ var nextState = []func(r rune) state{
 	// Set369
 	func(r rune) state {
 		switch { 
-		case r == 'x':
+		case r == 't':
 			return 399 
 		}
 		return nullState
@@ -4261,7 +4258,7 @@ var nextState = []func(r rune) state{
 	// Set370
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'e':
 			return 400 
 		}
 		return nullState
@@ -4269,7 +4266,7 @@ var nextState = []func(r rune) state{
 	// Set371
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'c':
 			return 401 
 		}
 		return nullState
@@ -4277,7 +4274,7 @@ var nextState = []func(r rune) state{
 	// Set372
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == '}':
 			return 402 
 		}
 		return nullState
@@ -4285,7 +4282,7 @@ var nextState = []func(r rune) state{
 	// Set373
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 't':
 			return 403 
 		}
 		return nullState
@@ -4293,7 +4290,7 @@ var nextState = []func(r rune) state{
 	// Set374
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'r':
 			return 404 
 		}
 		return nullState
@@ -4301,7 +4298,7 @@ var nextState = []func(r rune) state{
 	// Set375
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'a':
 			return 405 
 		}
 		return nullState
@@ -4309,7 +4306,7 @@ var nextState = []func(r rune) state{
 	// Set376
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'h':
 			return 406 
 		}
 		return nullState
@@ -4317,7 +4314,7 @@ var nextState = []func(r rune) state{
 	// Set377
 	func(r rune) state {
 		switch { 
-		case r == 'h':
+		case r == 't':
 			return 407 
 		}
 		return nullState
@@ -4325,7 +4322,7 @@ var nextState = []func(r rune) state{
 	// Set378
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'O':
 			return 408 
 		}
 		return nullState
@@ -4333,7 +4330,7 @@ var nextState = []func(r rune) state{
 	// Set379
 	func(r rune) state {
 		switch { 
-		case r == 'O':
+		case r == 'c':
 			return 409 
 		}
 		return nullState
@@ -4341,7 +4338,7 @@ var nextState = []func(r rune) state{
 	// Set380
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 'p':
 			return 410 
 		}
 		return nullState
@@ -4349,7 +4346,7 @@ var nextState = []func(r rune) state{
 	// Set381
 	func(r rune) state {
 		switch { 
-		case r == 'p':
+		case r == 'f':
 			return 411 
 		}
 		return nullState
@@ -4357,7 +4354,7 @@ var nextState = []func(r rune) state{
 	// Set382
 	func(r rune) state {
 		switch { 
-		case r == 'f':
+		case r == 'a':
 			return 412 
 		}
 		return nullState
@@ -4365,7 +4362,7 @@ var nextState = []func(r rune) state{
 	// Set383
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == '_':
 			return 413 
 		}
 		return nullState
@@ -4373,7 +4370,7 @@ var nextState = []func(r rune) state{
 	// Set384
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'w':
 			return 414 
 		}
 		return nullState
@@ -4381,7 +4378,7 @@ var nextState = []func(r rune) state{
 	// Set385
 	func(r rune) state {
 		switch { 
-		case r == 'w':
+		case r == 't':
 			return 415 
 		}
 		return nullState
@@ -4389,7 +4386,7 @@ var nextState = []func(r rune) state{
 	// Set386
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'p':
 			return 416 
 		}
 		return nullState
@@ -4397,17 +4394,17 @@ var nextState = []func(r rune) state{
 	// Set387
 	func(r rune) state {
 		switch { 
-		case r == 'p':
+		case r == 'S':
 			return 417 
+		case r == 'W':
+			return 418 
 		}
 		return nullState
 	}, 
 	// Set388
 	func(r rune) state {
 		switch { 
-		case r == 'S':
-			return 418 
-		case r == 'W':
+		case r == 'd':
 			return 419 
 		}
 		return nullState
@@ -4415,7 +4412,7 @@ var nextState = []func(r rune) state{
 	// Set389
 	func(r rune) state {
 		switch { 
-		case r == 'd':
+		case r == 'n':
 			return 420 
 		}
 		return nullState
@@ -4423,14 +4420,14 @@ var nextState = []func(r rune) state{
 	// Set390
 	func(r rune) state {
 		switch { 
-		case r == 'n':
-			return 421 
 		}
 		return nullState
 	}, 
 	// Set391
 	func(r rune) state {
 		switch { 
+		case r == '_':
+			return 421 
 		}
 		return nullState
 	}, 
@@ -4445,7 +4442,7 @@ var nextState = []func(r rune) state{
 	// Set393
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 't':
 			return 423 
 		}
 		return nullState
@@ -4453,7 +4450,7 @@ var nextState = []func(r rune) state{
 	// Set394
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == '_':
 			return 424 
 		}
 		return nullState
@@ -4461,7 +4458,7 @@ var nextState = []func(r rune) state{
 	// Set395
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'I':
 			return 425 
 		}
 		return nullState
@@ -4469,7 +4466,7 @@ var nextState = []func(r rune) state{
 	// Set396
 	func(r rune) state {
 		switch { 
-		case r == 'I':
+		case r == 'n':
 			return 426 
 		}
 		return nullState
@@ -4477,7 +4474,7 @@ var nextState = []func(r rune) state{
 	// Set397
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'a':
 			return 427 
 		}
 		return nullState
@@ -4485,7 +4482,7 @@ var nextState = []func(r rune) state{
 	// Set398
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == '_':
 			return 428 
 		}
 		return nullState
@@ -4493,7 +4490,7 @@ var nextState = []func(r rune) state{
 	// Set399
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'r':
 			return 429 
 		}
 		return nullState
@@ -4501,7 +4498,7 @@ var nextState = []func(r rune) state{
 	// Set400
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'd':
 			return 430 
 		}
 		return nullState
@@ -4509,7 +4506,7 @@ var nextState = []func(r rune) state{
 	// Set401
 	func(r rune) state {
 		switch { 
-		case r == 'd':
+		case r == '}':
 			return 431 
 		}
 		return nullState
@@ -4517,21 +4514,21 @@ var nextState = []func(r rune) state{
 	// Set402
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 432 
 		}
 		return nullState
 	}, 
 	// Set403
 	func(r rune) state {
 		switch { 
+		case r == '}':
+			return 432 
 		}
 		return nullState
 	}, 
 	// Set404
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'y':
 			return 433 
 		}
 		return nullState
@@ -4539,7 +4536,7 @@ var nextState = []func(r rune) state{
 	// Set405
 	func(r rune) state {
 		switch { 
-		case r == 'y':
+		case r == 'r':
 			return 434 
 		}
 		return nullState
@@ -4547,7 +4544,7 @@ var nextState = []func(r rune) state{
 	// Set406
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'i':
 			return 435 
 		}
 		return nullState
@@ -4555,7 +4552,7 @@ var nextState = []func(r rune) state{
 	// Set407
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'r':
 			return 436 
 		}
 		return nullState
@@ -4571,7 +4568,7 @@ var nextState = []func(r rune) state{
 	// Set409
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 't':
 			return 438 
 		}
 		return nullState
@@ -4579,7 +4576,7 @@ var nextState = []func(r rune) state{
 	// Set410
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'h':
 			return 439 
 		}
 		return nullState
@@ -4587,7 +4584,7 @@ var nextState = []func(r rune) state{
 	// Set411
 	func(r rune) state {
 		switch { 
-		case r == 'h':
+		case r == 'a':
 			return 440 
 		}
 		return nullState
@@ -4595,7 +4592,7 @@ var nextState = []func(r rune) state{
 	// Set412
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'p':
 			return 441 
 		}
 		return nullState
@@ -4603,17 +4600,17 @@ var nextState = []func(r rune) state{
 	// Set413
 	func(r rune) state {
 		switch { 
-		case r == 'p':
+		case r == 'C':
 			return 442 
+		case r == 'S':
+			return 443 
 		}
 		return nullState
 	}, 
 	// Set414
 	func(r rune) state {
 		switch { 
-		case r == 'C':
-			return 443 
-		case r == 'S':
+		case r == 'e':
 			return 444 
 		}
 		return nullState
@@ -4621,7 +4618,7 @@ var nextState = []func(r rune) state{
 	// Set415
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'h':
 			return 445 
 		}
 		return nullState
@@ -4629,7 +4626,7 @@ var nextState = []func(r rune) state{
 	// Set416
 	func(r rune) state {
 		switch { 
-		case r == 'h':
+		case r == 'e':
 			return 446 
 		}
 		return nullState
@@ -4637,7 +4634,7 @@ var nextState = []func(r rune) state{
 	// Set417
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'y':
 			return 447 
 		}
 		return nullState
@@ -4645,7 +4642,7 @@ var nextState = []func(r rune) state{
 	// Set418
 	func(r rune) state {
 		switch { 
-		case r == 'y':
+		case r == 'h':
 			return 448 
 		}
 		return nullState
@@ -4653,7 +4650,7 @@ var nextState = []func(r rune) state{
 	// Set419
 	func(r rune) state {
 		switch { 
-		case r == 'h':
+		case r == '_':
 			return 449 
 		}
 		return nullState
@@ -4669,7 +4666,7 @@ var nextState = []func(r rune) state{
 	// Set421
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'I':
 			return 451 
 		}
 		return nullState
@@ -4677,7 +4674,7 @@ var nextState = []func(r rune) state{
 	// Set422
 	func(r rune) state {
 		switch { 
-		case r == 'I':
+		case r == 'T':
 			return 452 
 		}
 		return nullState
@@ -4685,7 +4682,7 @@ var nextState = []func(r rune) state{
 	// Set423
 	func(r rune) state {
 		switch { 
-		case r == 'T':
+		case r == 'e':
 			return 453 
 		}
 		return nullState
@@ -4693,7 +4690,7 @@ var nextState = []func(r rune) state{
 	// Set424
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'P':
 			return 454 
 		}
 		return nullState
@@ -4701,7 +4698,7 @@ var nextState = []func(r rune) state{
 	// Set425
 	func(r rune) state {
 		switch { 
-		case r == 'P':
+		case r == 'd':
 			return 455 
 		}
 		return nullState
@@ -4709,7 +4706,7 @@ var nextState = []func(r rune) state{
 	// Set426
 	func(r rune) state {
 		switch { 
-		case r == 'd':
+		case r == '_':
 			return 456 
 		}
 		return nullState
@@ -4717,7 +4714,7 @@ var nextState = []func(r rune) state{
 	// Set427
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'c':
 			return 457 
 		}
 		return nullState
@@ -4725,7 +4722,7 @@ var nextState = []func(r rune) state{
 	// Set428
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 'D':
 			return 458 
 		}
 		return nullState
@@ -4733,7 +4730,7 @@ var nextState = []func(r rune) state{
 	// Set429
 	func(r rune) state {
 		switch { 
-		case r == 'D':
+		case r == 'o':
 			return 459 
 		}
 		return nullState
@@ -4741,7 +4738,7 @@ var nextState = []func(r rune) state{
 	// Set430
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == '}':
 			return 460 
 		}
 		return nullState
@@ -4749,8 +4746,6 @@ var nextState = []func(r rune) state{
 	// Set431
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 461 
 		}
 		return nullState
 	}, 
@@ -4763,13 +4758,15 @@ var nextState = []func(r rune) state{
 	// Set433
 	func(r rune) state {
 		switch { 
+		case r == '_':
+			return 461 
 		}
 		return nullState
 	}, 
 	// Set434
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'y':
 			return 462 
 		}
 		return nullState
@@ -4777,7 +4774,7 @@ var nextState = []func(r rune) state{
 	// Set435
 	func(r rune) state {
 		switch { 
-		case r == 'y':
+		case r == 'c':
 			return 463 
 		}
 		return nullState
@@ -4785,7 +4782,7 @@ var nextState = []func(r rune) state{
 	// Set436
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 'o':
 			return 464 
 		}
 		return nullState
@@ -4793,7 +4790,7 @@ var nextState = []func(r rune) state{
 	// Set437
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'd':
 			return 465 
 		}
 		return nullState
@@ -4801,7 +4798,7 @@ var nextState = []func(r rune) state{
 	// Set438
 	func(r rune) state {
 		switch { 
-		case r == 'd':
+		case r == 'e':
 			return 466 
 		}
 		return nullState
@@ -4809,7 +4806,7 @@ var nextState = []func(r rune) state{
 	// Set439
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'a':
 			return 467 
 		}
 		return nullState
@@ -4817,7 +4814,7 @@ var nextState = []func(r rune) state{
 	// Set440
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'u':
 			return 468 
 		}
 		return nullState
@@ -4825,7 +4822,7 @@ var nextState = []func(r rune) state{
 	// Set441
 	func(r rune) state {
 		switch { 
-		case r == 'u':
+		case r == 'h':
 			return 469 
 		}
 		return nullState
@@ -4833,7 +4830,7 @@ var nextState = []func(r rune) state{
 	// Set442
 	func(r rune) state {
 		switch { 
-		case r == 'h':
+		case r == 'o':
 			return 470 
 		}
 		return nullState
@@ -4841,7 +4838,7 @@ var nextState = []func(r rune) state{
 	// Set443
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 't':
 			return 471 
 		}
 		return nullState
@@ -4849,7 +4846,7 @@ var nextState = []func(r rune) state{
 	// Set444
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'r':
 			return 472 
 		}
 		return nullState
@@ -4857,7 +4854,7 @@ var nextState = []func(r rune) state{
 	// Set445
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == '}':
 			return 473 
 		}
 		return nullState
@@ -4865,7 +4862,7 @@ var nextState = []func(r rune) state{
 	// Set446
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'r':
 			return 474 
 		}
 		return nullState
@@ -4873,7 +4870,7 @@ var nextState = []func(r rune) state{
 	// Set447
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'n':
 			return 475 
 		}
 		return nullState
@@ -4881,7 +4878,7 @@ var nextState = []func(r rune) state{
 	// Set448
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'i':
 			return 476 
 		}
 		return nullState
@@ -4889,7 +4886,7 @@ var nextState = []func(r rune) state{
 	// Set449
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'C':
 			return 477 
 		}
 		return nullState
@@ -4897,7 +4894,7 @@ var nextState = []func(r rune) state{
 	// Set450
 	func(r rune) state {
 		switch { 
-		case r == 'C':
+		case r == 'M':
 			return 478 
 		}
 		return nullState
@@ -4905,7 +4902,7 @@ var nextState = []func(r rune) state{
 	// Set451
 	func(r rune) state {
 		switch { 
-		case r == 'M':
+		case r == 'n':
 			return 479 
 		}
 		return nullState
@@ -4913,7 +4910,7 @@ var nextState = []func(r rune) state{
 	// Set452
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'e':
 			return 480 
 		}
 		return nullState
@@ -4921,7 +4918,7 @@ var nextState = []func(r rune) state{
 	// Set453
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'd':
 			return 481 
 		}
 		return nullState
@@ -4929,7 +4926,7 @@ var nextState = []func(r rune) state{
 	// Set454
 	func(r rune) state {
 		switch { 
-		case r == 'd':
+		case r == 'u':
 			return 482 
 		}
 		return nullState
@@ -4937,7 +4934,7 @@ var nextState = []func(r rune) state{
 	// Set455
 	func(r rune) state {
 		switch { 
-		case r == 'u':
+		case r == 'e':
 			return 483 
 		}
 		return nullState
@@ -4945,7 +4942,7 @@ var nextState = []func(r rune) state{
 	// Set456
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'S':
 			return 484 
 		}
 		return nullState
@@ -4953,7 +4950,7 @@ var nextState = []func(r rune) state{
 	// Set457
 	func(r rune) state {
 		switch { 
-		case r == 'S':
+		case r == 'e':
 			return 485 
 		}
 		return nullState
@@ -4961,7 +4958,7 @@ var nextState = []func(r rune) state{
 	// Set458
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'i':
 			return 486 
 		}
 		return nullState
@@ -4969,7 +4966,7 @@ var nextState = []func(r rune) state{
 	// Set459
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'l':
 			return 487 
 		}
 		return nullState
@@ -4977,21 +4974,21 @@ var nextState = []func(r rune) state{
 	// Set460
 	func(r rune) state {
 		switch { 
-		case r == 'l':
-			return 488 
 		}
 		return nullState
 	}, 
 	// Set461
 	func(r rune) state {
 		switch { 
+		case r == 'O':
+			return 488 
 		}
 		return nullState
 	}, 
 	// Set462
 	func(r rune) state {
 		switch { 
-		case r == 'O':
+		case r == '_':
 			return 489 
 		}
 		return nullState
@@ -4999,7 +4996,7 @@ var nextState = []func(r rune) state{
 	// Set463
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == '}':
 			return 490 
 		}
 		return nullState
@@ -5007,7 +5004,7 @@ var nextState = []func(r rune) state{
 	// Set464
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'l':
 			return 491 
 		}
 		return nullState
@@ -5015,7 +5012,7 @@ var nextState = []func(r rune) state{
 	// Set465
 	func(r rune) state {
 		switch { 
-		case r == 'l':
+		case r == 'e':
 			return 492 
 		}
 		return nullState
@@ -5023,7 +5020,7 @@ var nextState = []func(r rune) state{
 	// Set466
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'r':
 			return 493 
 		}
 		return nullState
@@ -5031,7 +5028,7 @@ var nextState = []func(r rune) state{
 	// Set467
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'b':
 			return 494 
 		}
 		return nullState
@@ -5039,7 +5036,7 @@ var nextState = []func(r rune) state{
 	// Set468
 	func(r rune) state {
 		switch { 
-		case r == 'b':
+		case r == 'l':
 			return 495 
 		}
 		return nullState
@@ -5047,7 +5044,7 @@ var nextState = []func(r rune) state{
 	// Set469
 	func(r rune) state {
 		switch { 
-		case r == 'l':
+		case r == 'e':
 			return 496 
 		}
 		return nullState
@@ -5055,7 +5052,7 @@ var nextState = []func(r rune) state{
 	// Set470
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'n':
 			return 497 
 		}
 		return nullState
@@ -5063,7 +5060,7 @@ var nextState = []func(r rune) state{
 	// Set471
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'a':
 			return 498 
 		}
 		return nullState
@@ -5071,7 +5068,7 @@ var nextState = []func(r rune) state{
 	// Set472
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'c':
 			return 499 
 		}
 		return nullState
@@ -5079,21 +5076,21 @@ var nextState = []func(r rune) state{
 	// Set473
 	func(r rune) state {
 		switch { 
-		case r == 'c':
-			return 500 
 		}
 		return nullState
 	}, 
 	// Set474
 	func(r rune) state {
 		switch { 
+		case r == 'c':
+			return 500 
 		}
 		return nullState
 	}, 
 	// Set475
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 't':
 			return 501 
 		}
 		return nullState
@@ -5109,7 +5106,7 @@ var nextState = []func(r rune) state{
 	// Set477
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'o':
 			return 503 
 		}
 		return nullState
@@ -5117,7 +5114,7 @@ var nextState = []func(r rune) state{
 	// Set478
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'a':
 			return 504 
 		}
 		return nullState
@@ -5125,7 +5122,7 @@ var nextState = []func(r rune) state{
 	// Set479
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'd':
 			return 505 
 		}
 		return nullState
@@ -5133,7 +5130,7 @@ var nextState = []func(r rune) state{
 	// Set480
 	func(r rune) state {
 		switch { 
-		case r == 'd':
+		case r == 'r':
 			return 506 
 		}
 		return nullState
@@ -5141,7 +5138,7 @@ var nextState = []func(r rune) state{
 	// Set481
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == '}':
 			return 507 
 		}
 		return nullState
@@ -5149,7 +5146,7 @@ var nextState = []func(r rune) state{
 	// Set482
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'n':
 			return 508 
 		}
 		return nullState
@@ -5157,7 +5154,7 @@ var nextState = []func(r rune) state{
 	// Set483
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'o':
 			return 509 
 		}
 		return nullState
@@ -5165,7 +5162,7 @@ var nextState = []func(r rune) state{
 	// Set484
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'e':
 			return 510 
 		}
 		return nullState
@@ -5173,7 +5170,7 @@ var nextState = []func(r rune) state{
 	// Set485
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == '}':
 			return 511 
 		}
 		return nullState
@@ -5181,7 +5178,7 @@ var nextState = []func(r rune) state{
 	// Set486
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'g':
 			return 512 
 		}
 		return nullState
@@ -5189,7 +5186,7 @@ var nextState = []func(r rune) state{
 	// Set487
 	func(r rune) state {
 		switch { 
-		case r == 'g':
+		case r == '}':
 			return 513 
 		}
 		return nullState
@@ -5197,7 +5194,7 @@ var nextState = []func(r rune) state{
 	// Set488
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'p':
 			return 514 
 		}
 		return nullState
@@ -5205,7 +5202,7 @@ var nextState = []func(r rune) state{
 	// Set489
 	func(r rune) state {
 		switch { 
-		case r == 'p':
+		case r == 'O':
 			return 515 
 		}
 		return nullState
@@ -5213,21 +5210,21 @@ var nextState = []func(r rune) state{
 	// Set490
 	func(r rune) state {
 		switch { 
-		case r == 'O':
-			return 516 
 		}
 		return nullState
 	}, 
 	// Set491
 	func(r rune) state {
 		switch { 
+		case r == '}':
+			return 516 
 		}
 		return nullState
 	}, 
 	// Set492
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'r':
 			return 517 
 		}
 		return nullState
@@ -5235,7 +5232,7 @@ var nextState = []func(r rune) state{
 	// Set493
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == '_':
 			return 518 
 		}
 		return nullState
@@ -5243,7 +5240,7 @@ var nextState = []func(r rune) state{
 	// Set494
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'e':
 			return 519 
 		}
 		return nullState
@@ -5251,7 +5248,7 @@ var nextState = []func(r rune) state{
 	// Set495
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 't':
 			return 520 
 		}
 		return nullState
@@ -5259,7 +5256,7 @@ var nextState = []func(r rune) state{
 	// Set496
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'm':
 			return 521 
 		}
 		return nullState
@@ -5267,7 +5264,7 @@ var nextState = []func(r rune) state{
 	// Set497
 	func(r rune) state {
 		switch { 
-		case r == 'm':
+		case r == 't':
 			return 522 
 		}
 		return nullState
@@ -5275,7 +5272,7 @@ var nextState = []func(r rune) state{
 	// Set498
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'r':
 			return 523 
 		}
 		return nullState
@@ -5283,7 +5280,7 @@ var nextState = []func(r rune) state{
 	// Set499
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'a':
 			return 524 
 		}
 		return nullState
@@ -5307,7 +5304,7 @@ var nextState = []func(r rune) state{
 	// Set502
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'e':
 			return 527 
 		}
 		return nullState
@@ -5315,7 +5312,7 @@ var nextState = []func(r rune) state{
 	// Set503
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'n':
 			return 528 
 		}
 		return nullState
@@ -5323,7 +5320,7 @@ var nextState = []func(r rune) state{
 	// Set504
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'r':
 			return 529 
 		}
 		return nullState
@@ -5331,7 +5328,7 @@ var nextState = []func(r rune) state{
 	// Set505
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'i':
 			return 530 
 		}
 		return nullState
@@ -5339,7 +5336,7 @@ var nextState = []func(r rune) state{
 	// Set506
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'm':
 			return 531 
 		}
 		return nullState
@@ -5347,21 +5344,21 @@ var nextState = []func(r rune) state{
 	// Set507
 	func(r rune) state {
 		switch { 
-		case r == 'm':
-			return 532 
 		}
 		return nullState
 	}, 
 	// Set508
 	func(r rune) state {
 		switch { 
+		case r == 'c':
+			return 532 
 		}
 		return nullState
 	}, 
 	// Set509
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 'g':
 			return 533 
 		}
 		return nullState
@@ -5369,7 +5366,7 @@ var nextState = []func(r rune) state{
 	// Set510
 	func(r rune) state {
 		switch { 
-		case r == 'g':
+		case r == 'l':
 			return 534 
 		}
 		return nullState
@@ -5377,35 +5374,35 @@ var nextState = []func(r rune) state{
 	// Set511
 	func(r rune) state {
 		switch { 
-		case r == 'l':
-			return 535 
 		}
 		return nullState
 	}, 
 	// Set512
 	func(r rune) state {
 		switch { 
+		case r == 'i':
+			return 535 
 		}
 		return nullState
 	}, 
 	// Set513
 	func(r rune) state {
 		switch { 
-		case r == 'i':
-			return 536 
 		}
 		return nullState
 	}, 
 	// Set514
 	func(r rune) state {
 		switch { 
+		case r == 'e':
+			return 536 
 		}
 		return nullState
 	}, 
 	// Set515
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'p':
 			return 537 
 		}
 		return nullState
@@ -5413,21 +5410,21 @@ var nextState = []func(r rune) state{
 	// Set516
 	func(r rune) state {
 		switch { 
-		case r == 'p':
-			return 538 
 		}
 		return nullState
 	}, 
 	// Set517
 	func(r rune) state {
 		switch { 
+		case r == '_':
+			return 538 
 		}
 		return nullState
 	}, 
 	// Set518
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'C':
 			return 539 
 		}
 		return nullState
@@ -5435,7 +5432,7 @@ var nextState = []func(r rune) state{
 	// Set519
 	func(r rune) state {
 		switch { 
-		case r == 'C':
+		case r == 't':
 			return 540 
 		}
 		return nullState
@@ -5443,7 +5440,7 @@ var nextState = []func(r rune) state{
 	// Set520
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == '_':
 			return 541 
 		}
 		return nullState
@@ -5451,7 +5448,7 @@ var nextState = []func(r rune) state{
 	// Set521
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'e':
 			return 542 
 		}
 		return nullState
@@ -5459,7 +5456,7 @@ var nextState = []func(r rune) state{
 	// Set522
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'i':
 			return 543 
 		}
 		return nullState
@@ -5467,7 +5464,7 @@ var nextState = []func(r rune) state{
 	// Set523
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 't':
 			return 544 
 		}
 		return nullState
@@ -5475,7 +5472,7 @@ var nextState = []func(r rune) state{
 	// Set524
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 's':
 			return 545 
 		}
 		return nullState
@@ -5491,7 +5488,7 @@ var nextState = []func(r rune) state{
 	// Set526
 	func(r rune) state {
 		switch { 
-		case r == 's':
+		case r == 'x':
 			return 547 
 		}
 		return nullState
@@ -5499,7 +5496,7 @@ var nextState = []func(r rune) state{
 	// Set527
 	func(r rune) state {
 		switch { 
-		case r == 'x':
+		case r == '_':
 			return 548 
 		}
 		return nullState
@@ -5507,7 +5504,7 @@ var nextState = []func(r rune) state{
 	// Set528
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'c':
 			return 549 
 		}
 		return nullState
@@ -5515,7 +5512,7 @@ var nextState = []func(r rune) state{
 	// Set529
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 'k':
 			return 550 
 		}
 		return nullState
@@ -5523,7 +5520,7 @@ var nextState = []func(r rune) state{
 	// Set530
 	func(r rune) state {
 		switch { 
-		case r == 'k':
+		case r == 'c':
 			return 551 
 		}
 		return nullState
@@ -5531,7 +5528,7 @@ var nextState = []func(r rune) state{
 	// Set531
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 'i':
 			return 552 
 		}
 		return nullState
@@ -5539,7 +5536,7 @@ var nextState = []func(r rune) state{
 	// Set532
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 't':
 			return 553 
 		}
 		return nullState
@@ -5547,7 +5544,7 @@ var nextState = []func(r rune) state{
 	// Set533
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'r':
 			return 554 
 		}
 		return nullState
@@ -5555,7 +5552,7 @@ var nextState = []func(r rune) state{
 	// Set534
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'e':
 			return 555 
 		}
 		return nullState
@@ -5563,7 +5560,7 @@ var nextState = []func(r rune) state{
 	// Set535
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 't':
 			return 556 
 		}
 		return nullState
@@ -5571,7 +5568,7 @@ var nextState = []func(r rune) state{
 	// Set536
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'r':
 			return 557 
 		}
 		return nullState
@@ -5579,7 +5576,7 @@ var nextState = []func(r rune) state{
 	// Set537
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'e':
 			return 558 
 		}
 		return nullState
@@ -5587,7 +5584,7 @@ var nextState = []func(r rune) state{
 	// Set538
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'E':
 			return 559 
 		}
 		return nullState
@@ -5595,7 +5592,7 @@ var nextState = []func(r rune) state{
 	// Set539
 	func(r rune) state {
 		switch { 
-		case r == 'E':
+		case r == 'o':
 			return 560 
 		}
 		return nullState
@@ -5603,7 +5600,7 @@ var nextState = []func(r rune) state{
 	// Set540
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'i':
 			return 561 
 		}
 		return nullState
@@ -5611,7 +5608,7 @@ var nextState = []func(r rune) state{
 	// Set541
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'I':
 			return 562 
 		}
 		return nullState
@@ -5619,7 +5616,7 @@ var nextState = []func(r rune) state{
 	// Set542
 	func(r rune) state {
 		switch { 
-		case r == 'I':
+		case r == '_':
 			return 563 
 		}
 		return nullState
@@ -5627,7 +5624,7 @@ var nextState = []func(r rune) state{
 	// Set543
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == 'n':
 			return 564 
 		}
 		return nullState
@@ -5635,7 +5632,7 @@ var nextState = []func(r rune) state{
 	// Set544
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == '}':
 			return 565 
 		}
 		return nullState
@@ -5643,7 +5640,7 @@ var nextState = []func(r rune) state{
 	// Set545
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'e':
 			return 566 
 		}
 		return nullState
@@ -5659,7 +5656,7 @@ var nextState = []func(r rune) state{
 	// Set547
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == '}':
 			return 568 
 		}
 		return nullState
@@ -5667,7 +5664,7 @@ var nextState = []func(r rune) state{
 	// Set548
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'S':
 			return 569 
 		}
 		return nullState
@@ -5675,7 +5672,7 @@ var nextState = []func(r rune) state{
 	// Set549
 	func(r rune) state {
 		switch { 
-		case r == 'S':
+		case r == 'a':
 			return 570 
 		}
 		return nullState
@@ -5683,7 +5680,7 @@ var nextState = []func(r rune) state{
 	// Set550
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == '}':
 			return 571 
 		}
 		return nullState
@@ -5691,7 +5688,7 @@ var nextState = []func(r rune) state{
 	// Set551
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'a':
 			return 572 
 		}
 		return nullState
@@ -5699,7 +5696,7 @@ var nextState = []func(r rune) state{
 	// Set552
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'n':
 			return 573 
 		}
 		return nullState
@@ -5707,7 +5704,7 @@ var nextState = []func(r rune) state{
 	// Set553
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'u':
 			return 574 
 		}
 		return nullState
@@ -5715,7 +5712,7 @@ var nextState = []func(r rune) state{
 	// Set554
 	func(r rune) state {
 		switch { 
-		case r == 'u':
+		case r == 'a':
 			return 575 
 		}
 		return nullState
@@ -5723,7 +5720,7 @@ var nextState = []func(r rune) state{
 	// Set555
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'c':
 			return 576 
 		}
 		return nullState
@@ -5731,7 +5728,7 @@ var nextState = []func(r rune) state{
 	// Set556
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == '}':
 			return 577 
 		}
 		return nullState
@@ -5739,7 +5736,7 @@ var nextState = []func(r rune) state{
 	// Set557
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'a':
 			return 578 
 		}
 		return nullState
@@ -5747,7 +5744,7 @@ var nextState = []func(r rune) state{
 	// Set558
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'r':
 			return 579 
 		}
 		return nullState
@@ -5755,7 +5752,7 @@ var nextState = []func(r rune) state{
 	// Set559
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'x':
 			return 580 
 		}
 		return nullState
@@ -5763,7 +5760,7 @@ var nextState = []func(r rune) state{
 	// Set560
 	func(r rune) state {
 		switch { 
-		case r == 'x':
+		case r == 'd':
 			return 581 
 		}
 		return nullState
@@ -5771,7 +5768,7 @@ var nextState = []func(r rune) state{
 	// Set561
 	func(r rune) state {
 		switch { 
-		case r == 'd':
+		case r == 'c':
 			return 582 
 		}
 		return nullState
@@ -5779,7 +5776,7 @@ var nextState = []func(r rune) state{
 	// Set562
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 'g':
 			return 583 
 		}
 		return nullState
@@ -5787,7 +5784,7 @@ var nextState = []func(r rune) state{
 	// Set563
 	func(r rune) state {
 		switch { 
-		case r == 'g':
+		case r == 'E':
 			return 584 
 		}
 		return nullState
@@ -5795,7 +5792,7 @@ var nextState = []func(r rune) state{
 	// Set564
 	func(r rune) state {
 		switch { 
-		case r == 'E':
+		case r == 'u':
 			return 585 
 		}
 		return nullState
@@ -5803,14 +5800,14 @@ var nextState = []func(r rune) state{
 	// Set565
 	func(r rune) state {
 		switch { 
-		case r == 'u':
-			return 586 
 		}
 		return nullState
 	}, 
 	// Set566
 	func(r rune) state {
 		switch { 
+		case r == '}':
+			return 586 
 		}
 		return nullState
 	}, 
@@ -5825,21 +5822,21 @@ var nextState = []func(r rune) state{
 	// Set568
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 588 
 		}
 		return nullState
 	}, 
 	// Set569
 	func(r rune) state {
 		switch { 
+		case r == 'p':
+			return 588 
 		}
 		return nullState
 	}, 
 	// Set570
 	func(r rune) state {
 		switch { 
-		case r == 'p':
+		case r == 't':
 			return 589 
 		}
 		return nullState
@@ -5847,21 +5844,21 @@ var nextState = []func(r rune) state{
 	// Set571
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 590 
 		}
 		return nullState
 	}, 
 	// Set572
 	func(r rune) state {
 		switch { 
+		case r == 't':
+			return 590 
 		}
 		return nullState
 	}, 
 	// Set573
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'a':
 			return 591 
 		}
 		return nullState
@@ -5877,7 +5874,7 @@ var nextState = []func(r rune) state{
 	// Set575
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'p':
 			return 593 
 		}
 		return nullState
@@ -5885,7 +5882,7 @@ var nextState = []func(r rune) state{
 	// Set576
 	func(r rune) state {
 		switch { 
-		case r == 'p':
+		case r == 't':
 			return 594 
 		}
 		return nullState
@@ -5893,21 +5890,21 @@ var nextState = []func(r rune) state{
 	// Set577
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 595 
 		}
 		return nullState
 	}, 
 	// Set578
 	func(r rune) state {
 		switch { 
+		case r == 't':
+			return 595 
 		}
 		return nullState
 	}, 
 	// Set579
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'a':
 			return 596 
 		}
 		return nullState
@@ -5915,7 +5912,7 @@ var nextState = []func(r rune) state{
 	// Set580
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'c':
 			return 597 
 		}
 		return nullState
@@ -5923,7 +5920,7 @@ var nextState = []func(r rune) state{
 	// Set581
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 'e':
 			return 598 
 		}
 		return nullState
@@ -5931,7 +5928,7 @@ var nextState = []func(r rune) state{
 	// Set582
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == '}':
 			return 599 
 		}
 		return nullState
@@ -5939,7 +5936,7 @@ var nextState = []func(r rune) state{
 	// Set583
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'n':
 			return 600 
 		}
 		return nullState
@@ -5947,7 +5944,7 @@ var nextState = []func(r rune) state{
 	// Set584
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'x':
 			return 601 
 		}
 		return nullState
@@ -5955,7 +5952,7 @@ var nextState = []func(r rune) state{
 	// Set585
 	func(r rune) state {
 		switch { 
-		case r == 'x':
+		case r == 'e':
 			return 602 
 		}
 		return nullState
@@ -5963,8 +5960,6 @@ var nextState = []func(r rune) state{
 	// Set586
 	func(r rune) state {
 		switch { 
-		case r == 'e':
-			return 603 
 		}
 		return nullState
 	}, 
@@ -5977,13 +5972,15 @@ var nextState = []func(r rune) state{
 	// Set588
 	func(r rune) state {
 		switch { 
+		case r == 'a':
+			return 603 
 		}
 		return nullState
 	}, 
 	// Set589
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'e':
 			return 604 
 		}
 		return nullState
@@ -5991,7 +5988,7 @@ var nextState = []func(r rune) state{
 	// Set590
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'o':
 			return 605 
 		}
 		return nullState
@@ -5999,7 +5996,7 @@ var nextState = []func(r rune) state{
 	// Set591
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'l':
 			return 606 
 		}
 		return nullState
@@ -6007,7 +6004,7 @@ var nextState = []func(r rune) state{
 	// Set592
 	func(r rune) state {
 		switch { 
-		case r == 'l':
+		case r == 't':
 			return 607 
 		}
 		return nullState
@@ -6015,7 +6012,7 @@ var nextState = []func(r rune) state{
 	// Set593
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'h':
 			return 608 
 		}
 		return nullState
@@ -6023,7 +6020,7 @@ var nextState = []func(r rune) state{
 	// Set594
 	func(r rune) state {
 		switch { 
-		case r == 'h':
+		case r == 'o':
 			return 609 
 		}
 		return nullState
@@ -6039,7 +6036,7 @@ var nextState = []func(r rune) state{
 	// Set596
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 't':
 			return 611 
 		}
 		return nullState
@@ -6047,7 +6044,7 @@ var nextState = []func(r rune) state{
 	// Set597
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'e':
 			return 612 
 		}
 		return nullState
@@ -6055,7 +6052,7 @@ var nextState = []func(r rune) state{
 	// Set598
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == '_':
 			return 613 
 		}
 		return nullState
@@ -6063,21 +6060,21 @@ var nextState = []func(r rune) state{
 	// Set599
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 614 
 		}
 		return nullState
 	}, 
 	// Set600
 	func(r rune) state {
 		switch { 
+		case r == 'o':
+			return 614 
 		}
 		return nullState
 	}, 
 	// Set601
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 't':
 			return 615 
 		}
 		return nullState
@@ -6085,7 +6082,7 @@ var nextState = []func(r rune) state{
 	// Set602
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == '}':
 			return 616 
 		}
 		return nullState
@@ -6093,7 +6090,7 @@ var nextState = []func(r rune) state{
 	// Set603
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'c':
 			return 617 
 		}
 		return nullState
@@ -6101,7 +6098,7 @@ var nextState = []func(r rune) state{
 	// Set604
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 'n':
 			return 618 
 		}
 		return nullState
@@ -6109,7 +6106,7 @@ var nextState = []func(r rune) state{
 	// Set605
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'r':
 			return 619 
 		}
 		return nullState
@@ -6117,7 +6114,7 @@ var nextState = []func(r rune) state{
 	// Set606
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == '}':
 			return 620 
 		}
 		return nullState
@@ -6125,7 +6122,7 @@ var nextState = []func(r rune) state{
 	// Set607
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'i':
 			return 621 
 		}
 		return nullState
@@ -6133,7 +6130,7 @@ var nextState = []func(r rune) state{
 	// Set608
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == '}':
 			return 622 
 		}
 		return nullState
@@ -6141,7 +6138,7 @@ var nextState = []func(r rune) state{
 	// Set609
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'r':
 			return 623 
 		}
 		return nullState
@@ -6157,7 +6154,7 @@ var nextState = []func(r rune) state{
 	// Set611
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'o':
 			return 625 
 		}
 		return nullState
@@ -6165,7 +6162,7 @@ var nextState = []func(r rune) state{
 	// Set612
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'p':
 			return 626 
 		}
 		return nullState
@@ -6173,7 +6170,7 @@ var nextState = []func(r rune) state{
 	// Set613
 	func(r rune) state {
 		switch { 
-		case r == 'p':
+		case r == 'P':
 			return 627 
 		}
 		return nullState
@@ -6181,7 +6178,7 @@ var nextState = []func(r rune) state{
 	// Set614
 	func(r rune) state {
 		switch { 
-		case r == 'P':
+		case r == 'r':
 			return 628 
 		}
 		return nullState
@@ -6189,7 +6186,7 @@ var nextState = []func(r rune) state{
 	// Set615
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'e':
 			return 629 
 		}
 		return nullState
@@ -6197,21 +6194,21 @@ var nextState = []func(r rune) state{
 	// Set616
 	func(r rune) state {
 		switch { 
-		case r == 'e':
-			return 630 
 		}
 		return nullState
 	}, 
 	// Set617
 	func(r rune) state {
 		switch { 
+		case r == 'e':
+			return 630 
 		}
 		return nullState
 	}, 
 	// Set618
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'a':
 			return 631 
 		}
 		return nullState
@@ -6219,7 +6216,7 @@ var nextState = []func(r rune) state{
 	// Set619
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == '}':
 			return 632 
 		}
 		return nullState
@@ -6227,28 +6224,28 @@ var nextState = []func(r rune) state{
 	// Set620
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 633 
 		}
 		return nullState
 	}, 
 	// Set621
 	func(r rune) state {
 		switch { 
+		case r == 'o':
+			return 633 
 		}
 		return nullState
 	}, 
 	// Set622
 	func(r rune) state {
 		switch { 
-		case r == 'o':
-			return 634 
 		}
 		return nullState
 	}, 
 	// Set623
 	func(r rune) state {
 		switch { 
+		case r == '}':
+			return 634 
 		}
 		return nullState
 	}, 
@@ -6263,7 +6260,7 @@ var nextState = []func(r rune) state{
 	// Set625
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'r':
 			return 636 
 		}
 		return nullState
@@ -6271,7 +6268,7 @@ var nextState = []func(r rune) state{
 	// Set626
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 't':
 			return 637 
 		}
 		return nullState
@@ -6279,7 +6276,7 @@ var nextState = []func(r rune) state{
 	// Set627
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'o':
 			return 638 
 		}
 		return nullState
@@ -6287,7 +6284,7 @@ var nextState = []func(r rune) state{
 	// Set628
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'a':
 			return 639 
 		}
 		return nullState
@@ -6295,7 +6292,7 @@ var nextState = []func(r rune) state{
 	// Set629
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'n':
 			return 640 
 		}
 		return nullState
@@ -6303,7 +6300,7 @@ var nextState = []func(r rune) state{
 	// Set630
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == '}':
 			return 641 
 		}
 		return nullState
@@ -6311,7 +6308,7 @@ var nextState = []func(r rune) state{
 	// Set631
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 't':
 			return 642 
 		}
 		return nullState
@@ -6319,22 +6316,20 @@ var nextState = []func(r rune) state{
 	// Set632
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 643 
 		}
 		return nullState
 	}, 
 	// Set633
 	func(r rune) state {
 		switch { 
+		case r == 'n':
+			return 643 
 		}
 		return nullState
 	}, 
 	// Set634
 	func(r rune) state {
 		switch { 
-		case r == 'n':
-			return 644 
 		}
 		return nullState
 	}, 
@@ -6347,13 +6342,15 @@ var nextState = []func(r rune) state{
 	// Set636
 	func(r rune) state {
 		switch { 
+		case r == '}':
+			return 644 
 		}
 		return nullState
 	}, 
 	// Set637
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'i':
 			return 645 
 		}
 		return nullState
@@ -6369,7 +6366,7 @@ var nextState = []func(r rune) state{
 	// Set639
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'b':
 			return 647 
 		}
 		return nullState
@@ -6377,7 +6374,7 @@ var nextState = []func(r rune) state{
 	// Set640
 	func(r rune) state {
 		switch { 
-		case r == 'b':
+		case r == 'd':
 			return 648 
 		}
 		return nullState
@@ -6385,21 +6382,21 @@ var nextState = []func(r rune) state{
 	// Set641
 	func(r rune) state {
 		switch { 
-		case r == 'd':
-			return 649 
 		}
 		return nullState
 	}, 
 	// Set642
 	func(r rune) state {
 		switch { 
+		case r == 'i':
+			return 649 
 		}
 		return nullState
 	}, 
 	// Set643
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == '}':
 			return 650 
 		}
 		return nullState
@@ -6407,21 +6404,21 @@ var nextState = []func(r rune) state{
 	// Set644
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 651 
 		}
 		return nullState
 	}, 
 	// Set645
 	func(r rune) state {
 		switch { 
+		case r == 'o':
+			return 651 
 		}
 		return nullState
 	}, 
 	// Set646
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'n':
 			return 652 
 		}
 		return nullState
@@ -6429,7 +6426,7 @@ var nextState = []func(r rune) state{
 	// Set647
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 'l':
 			return 653 
 		}
 		return nullState
@@ -6437,7 +6434,7 @@ var nextState = []func(r rune) state{
 	// Set648
 	func(r rune) state {
 		switch { 
-		case r == 'l':
+		case r == '}':
 			return 654 
 		}
 		return nullState
@@ -6445,7 +6442,7 @@ var nextState = []func(r rune) state{
 	// Set649
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'o':
 			return 655 
 		}
 		return nullState
@@ -6453,21 +6450,21 @@ var nextState = []func(r rune) state{
 	// Set650
 	func(r rune) state {
 		switch { 
-		case r == 'o':
-			return 656 
 		}
 		return nullState
 	}, 
 	// Set651
 	func(r rune) state {
 		switch { 
+		case r == 'n':
+			return 656 
 		}
 		return nullState
 	}, 
 	// Set652
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 't':
 			return 657 
 		}
 		return nullState
@@ -6475,7 +6472,7 @@ var nextState = []func(r rune) state{
 	// Set653
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'e':
 			return 658 
 		}
 		return nullState
@@ -6483,21 +6480,21 @@ var nextState = []func(r rune) state{
 	// Set654
 	func(r rune) state {
 		switch { 
-		case r == 'e':
-			return 659 
 		}
 		return nullState
 	}, 
 	// Set655
 	func(r rune) state {
 		switch { 
+		case r == 'n':
+			return 659 
 		}
 		return nullState
 	}, 
 	// Set656
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == '}':
 			return 660 
 		}
 		return nullState
@@ -6513,7 +6510,7 @@ var nextState = []func(r rune) state{
 	// Set658
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == '_':
 			return 662 
 		}
 		return nullState
@@ -6529,8 +6526,6 @@ var nextState = []func(r rune) state{
 	// Set660
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 664 
 		}
 		return nullState
 	}, 
@@ -6543,13 +6538,15 @@ var nextState = []func(r rune) state{
 	// Set662
 	func(r rune) state {
 		switch { 
+		case r == 'C':
+			return 664 
 		}
 		return nullState
 	}, 
 	// Set663
 	func(r rune) state {
 		switch { 
-		case r == 'C':
+		case r == 'M':
 			return 665 
 		}
 		return nullState
@@ -6557,7 +6554,7 @@ var nextState = []func(r rune) state{
 	// Set664
 	func(r rune) state {
 		switch { 
-		case r == 'M':
+		case r == 'o':
 			return 666 
 		}
 		return nullState
@@ -6565,7 +6562,7 @@ var nextState = []func(r rune) state{
 	// Set665
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'a':
 			return 667 
 		}
 		return nullState
@@ -6573,7 +6570,7 @@ var nextState = []func(r rune) state{
 	// Set666
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == 'd':
 			return 668 
 		}
 		return nullState
@@ -6581,7 +6578,7 @@ var nextState = []func(r rune) state{
 	// Set667
 	func(r rune) state {
 		switch { 
-		case r == 'd':
+		case r == 'r':
 			return 669 
 		}
 		return nullState
@@ -6589,7 +6586,7 @@ var nextState = []func(r rune) state{
 	// Set668
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'e':
 			return 670 
 		}
 		return nullState
@@ -6597,7 +6594,7 @@ var nextState = []func(r rune) state{
 	// Set669
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == 'k':
 			return 671 
 		}
 		return nullState
@@ -6605,7 +6602,7 @@ var nextState = []func(r rune) state{
 	// Set670
 	func(r rune) state {
 		switch { 
-		case r == 'k':
+		case r == '_':
 			return 672 
 		}
 		return nullState
@@ -6613,7 +6610,7 @@ var nextState = []func(r rune) state{
 	// Set671
 	func(r rune) state {
 		switch { 
-		case r == '_':
+		case r == '}':
 			return 673 
 		}
 		return nullState
@@ -6621,7 +6618,7 @@ var nextState = []func(r rune) state{
 	// Set672
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'P':
 			return 674 
 		}
 		return nullState
@@ -6629,21 +6626,21 @@ var nextState = []func(r rune) state{
 	// Set673
 	func(r rune) state {
 		switch { 
-		case r == 'P':
-			return 675 
 		}
 		return nullState
 	}, 
 	// Set674
 	func(r rune) state {
 		switch { 
+		case r == 'o':
+			return 675 
 		}
 		return nullState
 	}, 
 	// Set675
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == 'i':
 			return 676 
 		}
 		return nullState
@@ -6651,7 +6648,7 @@ var nextState = []func(r rune) state{
 	// Set676
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'n':
 			return 677 
 		}
 		return nullState
@@ -6659,7 +6656,7 @@ var nextState = []func(r rune) state{
 	// Set677
 	func(r rune) state {
 		switch { 
-		case r == 'n':
+		case r == 't':
 			return 678 
 		}
 		return nullState
@@ -6667,20 +6664,12 @@ var nextState = []func(r rune) state{
 	// Set678
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == '}':
 			return 679 
 		}
 		return nullState
 	}, 
 	// Set679
-	func(r rune) state {
-		switch { 
-		case r == '}':
-			return 680 
-		}
-		return nullState
-	}, 
-	// Set680
 	func(r rune) state {
 		switch { 
 		}
-- 
2.43.0


From 88030fb336aefa6020c5d8ff1f43d3ed7ef01d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 11/40] fix: LiteralStripEscape of \\n and of a backslash at
 the end of a token

---
 gen/golang/token/token.go | 4 ++--
 token/token.go            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gen/golang/token/token.go b/gen/golang/token/token.go
index 473db7e..013c87e 100644
--- a/gen/golang/token/token.go
+++ b/gen/golang/token/token.go
@@ -148,7 +148,7 @@ func (t *Token) LiteralStripEscape() []rune {
 	lit := t.Literal()
 	strip := make([]rune, 0, len(lit))
 	for i := 0; i < len(lit); i++ {
-		if lit[i] == '\\' {
+		if lit[i] == '\\' && i+1 < len(lit) {
 			i++
 			switch lit[i] {
 			case 't':
@@ -156,7 +156,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
diff --git a/token/token.go b/token/token.go
index f20e796..2445015 100755
--- a/token/token.go
+++ b/token/token.go
@@ -69,7 +69,7 @@ func (t *Token) LiteralStripEscape() []rune {
 	lit := t.Literal()
 	strip := make([]rune, 0, len(lit))
 	for i := 0; i < len(lit); i++ {
-		if lit[i] == '\\' {
+		if lit[i] == '\\' && i+1 < len(lit) {
 			i++
 			switch lit[i] {
 			case 't':
@@ -77,7 +77,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
-- 
2.43.0


From dd6005f9092d22bb24e242851e803a4f55c15f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 12/40] fix: copy the body of a referenced token

Two references to the same token could share, and overwrite, its backing array.
---
 ast/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/build.go b/ast/build.go
index 4395f06..466f289 100644
--- a/ast/build.go
+++ b/ast/build.go
@@ -197,7 +197,7 @@ func (bld *builder) getLexRuleBody(tokid *token.Token) []LexSymbol {
 	if lexRule == nil {
 		bld.fail(fmt.Errorf("token %s not defined yet", tokid.LiteralString()), tokid.Lext())
 	}
-	return lexRule.RegExp.Symbols
+	return append([]LexSymbol{}, lexRule.RegExp.Symbols...)
 }
 
 // LexSymbol
-- 
2.43.0


From 25e2e205c2561289beeaceea7a69d82c1930f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 13/40] fix: infinite recursion in UnicodeClass.Lext

---
 ast/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/lex.go b/ast/lex.go
index 3cdb8ee..3fef25e 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -310,7 +310,7 @@ func (u *UnicodeClass) Equal(other LexBase) bool {
 }
 
 func (u *UnicodeClass) Lext() int {
-	return u.Lext()
+	return u.tok.Lext()
 }
 
 func (*Any) String() string {
-- 
2.43.0


From 242c7857d0df2075634edb7503589af7d0a71eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 14/40] fix: endless loop on a nullable bracket inside a
 repetition

---
 lex/item/item.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lex/item/item.go b/lex/item/item.go
index b18b9e3..87170ad 100644
--- a/lex/item/item.go
+++ b/lex/item/item.go
@@ -101,6 +101,8 @@ func (i *Item) Emoves() []*Item {
 	// fmt.Println("Emoves:", i)
 
 	after := []*Item{i}
+	// the items before and at the end of brackets that have been expanded
+	expanded := []*Item{}
 	for changed := true; changed; {
 		// fmt.Println(" Again")
 		before := after
@@ -109,6 +111,13 @@ func (i *Item) Emoves() []*Item {
 		for _, item := range before {
 			// fmt.Println("  ", item)
 
+			if item.atBeforeBracket() || item.atEndOfBracket() {
+				if contains(expanded, item) {
+					continue
+				}
+				expanded = append(expanded, item)
+			}
+
 			switch {
 			case item.atBeforeBracket():
 				for j := range item.Symbol().(*ast.LexBracket).Alternates {
@@ -138,6 +147,15 @@ func (i *Item) Emoves() []*Item {
 	return after
 }
 
+func contains(items []*Item, item *Item) bool {
+	for _, item1 := range items {
+		if item1.Equal(item) {
+			return true
+		}
+	}
+	return false
+}
+
 // Equal is true if i and other have the same rule and position.
 func (i *Item) Equal(other *Item) bool {
 	return i.Rule.ID() == other.Rule.ID() &&
-- 
2.43.0


From ee614433033bdf09a7cf9cd8f3dd2acbb0dff04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 15/40] fix: recognise a code fence directly after a code fence

---
 gen/golang/lexer/lexer.go | 13 ++++---------
 lexer/lexer.go            | 13 ++++---------
 2 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index 038e9ce..5d49d5c 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -311,17 +311,12 @@ func loadMd(input []rune) {
 				input[i+j] = ' '
 			}
 			i += 3
+			continue
 		}
-		if i < len(input) {
-			if text {
-				if input[i] == '\n' {
-					input[i] = '\n'
-				} else {
-					input[i] = ' '
-				}
-			}
-			i += 1
+		if text && input[i] != '\n' {
+			input[i] = ' '
 		}
+		i += 1
 	}
 }
 
diff --git a/lexer/lexer.go b/lexer/lexer.go
index 8d50e54..9ce6b53 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -146,17 +146,12 @@ func loadMd(input []rune) {
 				input[i+j] = ' '
 			}
 			i += 3
+			continue
 		}
-		if i < len(input) {
-			if text {
-				if input[i] == '\n' {
-					input[i] = '\n'
-				} else {
-					input[i] = ' '
-				}
-			}
-			i += 1
+		if text && input[i] != '\n' {
+			input[i] = ' '
 		}
+		i += 1
 	}
 }
 
-- 
2.43.0


From c6e3f61ec8b7fab027b719273a7e9cc52bb0ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:07 +0000
Subject: [PATCH 16/40] fix: range tables of the Unicode categories with long
 names

\p{Letter}, \p{Digit} etc. are variables of package unicode but not keys of
unicode.Categories: gogll panicked when it had to compare them with another set.
---
 ast/lex.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ast/lex.go b/ast/lex.go
index 3fef25e..48107c1 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -563,10 +563,29 @@ func boundaries(tables []*unicode.RangeTable) (rs []rune) {
 	return
 }
 
+// categoryVars are the categories that package unicode declares as variables,
+// under names that are not in unicode.Categories
+var categoryVars = map[string]*unicode.RangeTable{
+	"Digit":  unicode.Digit,
+	"Letter": unicode.Letter,
+	"Lower":  unicode.Lower,
+	"Mark":   unicode.Mark,
+	"Number": unicode.Number,
+	"Other":  unicode.Other,
+	"Punct":  unicode.Punct,
+	"Space":  unicode.Space,
+	"Symbol": unicode.Symbol,
+	"Title":  unicode.Title,
+	"Upper":  unicode.Upper,
+}
+
 // GetRangeTable returns the category or property RangeTable of r
 func (u *UnicodeRange) GetRangeTable() *unicode.RangeTable {
 	switch u.Type {
 	case UnicodeCategory:
+		if rt := categoryVars[u.Range]; rt != nil {
+			return rt
+		}
 		if unicode.Categories[u.Range] == nil {
 			panic(u.Range)
 		}
-- 
2.43.0


From 5266f63dd87c62c710b95c9269fcce232311a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 17/40] fix: write the verbose reports in a fixed order

symbols.txt and first_follow.txt were in the order of map iteration: two runs
on the same grammar wrote different files.
---
 ast/ast.go                     | 2 +-
 gen/firstfollow/firstfollow.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 0368357..8fcf0de 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -90,7 +90,7 @@ func (g *GoGLL) GetSyntaxRule(nt string) *SyntaxRule {
 }
 
 func (g *GoGLL) GetSymbols() []string {
-	return append(g.Terminals.Elements(), g.NonTerminals.Elements()...)
+	return append(g.Terminals.ElementsSorted(), g.NonTerminals.ElementsSorted()...)
 }
 
 func (g *GoGLL) StartSymbol() string {
diff --git a/gen/firstfollow/firstfollow.go b/gen/firstfollow/firstfollow.go
index 312bdf1..4fafd98 100644
--- a/gen/firstfollow/firstfollow.go
+++ b/gen/firstfollow/firstfollow.go
@@ -49,21 +49,21 @@ func genFirstSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
 
 func genFirstSet(w io.Writer, symbol string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "%s: ", symbol)
-	for _, s := range ff.FirstOfSymbol(symbol).Elements() {
+	for _, s := range ff.FirstOfSymbol(symbol).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
 }
 
 func genFollowSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
-	for _, s := range g.NonTerminals.Elements() {
+	for _, s := range g.NonTerminals.ElementsSorted() {
 		genFollowSet(w, s, ff)
 	}
 }
 
 func genFollowSet(w io.Writer, nt string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "Follow(%s): ", nt)
-	for _, s := range ff.Follow(nt).Elements() {
+	for _, s := range ff.Follow(nt).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
-- 
2.43.0


From 5fbfa31c8593d0311a547291487b536754e904cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 18/40] fix: compare the first item set with others without
 duplicates

---
 lex/items/items.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lex/items/items.go b/lex/items/items.go
index 8b6add6..5160c4f 100644
--- a/lex/items/items.go
+++ b/lex/items/items.go
@@ -216,21 +216,14 @@ func (sets *Sets) Sets() []*Set {
 func set0(g *ast.GoGLL) *Set {
 	s0 := &Set{}
 	for _, rule := range g.LexRules {
-		s0.add(item.New(rule).Emoves()...)
+		s0.Add(item.New(rule).Emoves()...)
 	}
 	for _, sl := range g.StringLiterals {
-		s0.add(item.New(stringLitToRule(sl)))
+		s0.Add(item.New(stringLitToRule(sl)))
 	}
 	return s0
 }
 
-func (set *Set) add(items ...*item.Item) *Set {
-	for _, item := range items {
-		set.set = append(set.set, item)
-	}
-	return set
-}
-
 func (set *Set) cloneItems() []*item.Item {
 	items := make([]*item.Item, len(set.set))
 	for i, item := range set.set {
-- 
2.43.0


From 44245d047d4756510e1befa41712b84e2f8e51ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 19/40] fix: propagate context through the closure of LR(1)
 states

---
 lr1/states/state.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lr1/states/state.go b/lr1/states/state.go
index 25d9a13..64c31db 100644
--- a/lr1/states/state.go
+++ b/lr1/states/state.go
@@ -76,8 +76,9 @@ func (this *State) Closure() *State {
 				if oldCfgGrp := this.GetGroup(newCfgGrp); oldCfgGrp == nil {
 					this.Add(newCfgGrp)
 					cgList = append(cgList, newCfgGrp)
-				} else {
-					oldCfgGrp.AddContext(newCfgGrp.ContextSet.List...)
+				} else if oldCfgGrp.ContextSet.Add(newCfgGrp.ContextSet.List...) {
+					// the new context must also reach the groups derived from oldCfgGrp
+					cgList = append(cgList, oldCfgGrp)
 				}
 			}
 		}
-- 
2.43.0


From 95cdd593c33f1fada97c29efc64d8f3cf43a20db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 20/40] fix: Pager's weak compatibility and propagation of
 context

Merging compared all groups at once instead of pairwise, did not process the
successors of a state again whose context had grown, and gave a state more than
one successor for a symbol.
---
 lr1/pgm/states.go | 137 ++++++++++++++++++----------------------------
 1 file changed, 53 insertions(+), 84 deletions(-)

diff --git a/lr1/pgm/states.go b/lr1/pgm/states.go
index 8856541..705028e 100644
--- a/lr1/pgm/states.go
+++ b/lr1/pgm/states.go
@@ -13,91 +13,62 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 	}
 	s.NewState0(symbols, lr0items, first, states.NewConfigGroup(lr0items.List[0], "$"))
 	symSuccessors := symbolsuccessors.NewSymbolSuccessors()
-	for si := 0; si < len(s.List); si++ {
+	// A state is processed again whenever its context grows.
+	queued := map[*states.State]bool{s.List[0]: true}
+	for queue := []*states.State{s.List[0]}; len(queue) > 0; queue = queue[1:] {
+		state := queue[0]
+		queued[state] = false
 		st_trans := make([]states.Transition, 0, 4)
-		for _, trans := range s.List[si].Next().List() {
-			merged := false
+		for _, trans := range state.Next().List() {
+			merged, changed := false, false
 			for _, snum := range symSuccessors[trans.Sym] {
 				if weaklyCompatibleStates(s.List[snum], trans.State) {
-					merged = true
-					newStates := mergeStates(s.List[snum], trans.State)
-					for sym, states := range newStates {
-						for _, state := range states {
-							s.List = append(s.List, state)
-							state.Number = len(s.List) - 1
-							symSuccessors[sym] = append(symSuccessors[sym], state.Number)
-						}
-					}
-
-					st_trans = append(st_trans, states.Transition{Sym: trans.Sym, State: s.List[snum]})
+					merged, changed = true, mergeStates(s.List[snum], trans.State)
+					trans.State = s.List[snum]
+					break
 				}
 			}
 			if !merged {
-				st_trans = append(st_trans, trans)
 				s.List = append(s.List, trans.State)
 				trans.State.Number = len(s.List) - 1
 				symSuccessors[trans.Sym] = append(symSuccessors[trans.Sym], trans.State.Number)
 			}
+			st_trans = append(st_trans, trans)
+			if (!merged || changed) && !queued[trans.State] {
+				queued[trans.State] = true
+				queue = append(queue, trans.State)
+			}
 		}
-		s.List[si].Transitions = states.NewTransitionsList(st_trans, symbols)
+		state.Transitions = states.NewTransitionsList(st_trans, symbols)
 	}
+	removeUnreachable(s)
 	// s.GenActions()
 	return s
 }
 
-func makeContext(from *states.ConfigGroupSet, to *states.ConfigGroupSet) *states.ConfigGroupSet {
-	newNucleus := to.CloneFromCore()
-	for _, cfg := range from.List() {
-		if toCfg := newNucleus.GetGroupByCore(cfg.Item.NextItem); toCfg != nil {
-			toCfg.AddContext(cfg.ContextSet.List...)
-		}
-	}
-	return newNucleus
-}
-
-func mergeStates(this *states.State, that *states.State) (newStates map[string][]*states.State) {
-	oldNucleus := this.Nucleus.Clone()
-	mergeCfgGrpSet(this.Nucleus, that.Nucleus)
-	this.NonNucleus = states.NewConfigGroupSet()
-	this.Closure()
-	cfgDiff := this.Nucleus.ContextDiff(oldNucleus)
-	cfgDiff.Add(this.NonNucleus.List()...)
-	return propagateContext(this, cfgDiff)
-}
-
 /*
-The context of all config groups in that, which give context to the nucleus group of this,
-is merged into the nucleus of this.
+removeUnreachable removes the states that lost all their predecessors, when these
+were processed again, and renumbers the others.
 */
-func mergeContext(this *states.State, thatNucleus *states.ConfigGroupSet) {
-	for _, grp := range thatNucleus.List() {
-		this.Nucleus.GetGroup(grp).AddContext(grp.ContextSet.List...)
+func removeUnreachable(s *states.States) {
+	reachable := map[*states.State]bool{s.List[0]: true}
+	list := []*states.State{s.List[0]}
+	for i := 0; i < len(list); i++ {
+		list[i].Number = i
+		for _, t := range list[i].Transitions.List() {
+			if !reachable[t.State] {
+				reachable[t.State] = true
+				list = append(list, t.State)
+			}
+		}
 	}
-	this.NonNucleus = states.NewConfigGroupSet()
-	this.Closure()
+	s.List = list
 }
 
-/*
-Return a map of (symbol:*states.State) of newly generated states. Each new state has minus the same number as the one it replaces.
-For example: The existing set has number 10 and the new state -10. The caller of this function must resolve
-the state numbers as other sets may still have valid transitions to the original.
-*/
-func propagateContext(this *states.State, expandedNucleusCfGrps *states.ConfigGroupSet) (newStates map[string][]*states.State) {
-	newStates = make(map[string][]*states.State)
-	if this.Transitions == nil {
-		return
-	}
-	for _, t := range this.Transitions.List() {
-		sym, nextState := t.Sym, t.State
-		newNucleus := makeContext(expandedNucleusCfGrps, nextState.Nucleus)
-		if weaklyCompatibleCfgGrpSet(nextState.Nucleus, newNucleus) {
-			mergeContext(nextState, newNucleus)
-		} else {
-			newState := this.NextSymbol(sym)
-			newState.Number = -nextState.Number
-			this.Transitions.Replace(sym, newState)
-			newStates[sym] = append(newStates[sym], newState)
-		}
+// mergeStates adds the context of that to this. It returns true if this has changed.
+func mergeStates(this *states.State, that *states.State) (changed bool) {
+	if changed = mergeCfgGrpSet(this.Nucleus, that.Nucleus); changed {
+		this.Closure()
 	}
 	return
 }
@@ -106,28 +77,23 @@ func weaklyCompatibleStates(this *states.State, that *states.State) bool {
 	return weaklyCompatibleCfgGrpSet(this.Nucleus, that.Nucleus)
 }
 
-func mergeCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) {
+func mergeCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) (changed bool) {
 	for _, cfGrp := range this.List() {
 		if diffContext := that.GetGroup(cfGrp).ContextSet.Diff(cfGrp.ContextSet); diffContext.Size() > 0 {
 			cfGrp.ContextSet.Add(diffContext.List...)
+			changed = true
 		}
 	}
+	return
 }
 
 func weaklyCompatibleCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
 	if !this.CoreEqual(that) {
 		return false
 	}
-	if contextMutuallyDisjunct(this, that) {
-		return true
-	}
-	return !contextInternallyDisjunct(this) || !contextInternallyDisjunct(that)
-}
-
-func contextMutuallyDisjunct(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
-	for _, thisCfgGrp := range this.List() {
-		for _, thatCfgGrp := range that.List() {
-			if thisCfgGrp.HashKey() != thatCfgGrp.HashKey() && len(thisCfgGrp.ContextSet.Intersection(thatCfgGrp.ContextSet)) > 0 {
+	for i, grp1 := range this.List() {
+		for _, grp2 := range this.List()[i+1:] {
+			if !weaklyCompatible(grp1, grp2, that.GetGroup(grp1), that.GetGroup(grp2)) {
 				return false
 			}
 		}
@@ -135,13 +101,16 @@ func contextMutuallyDisjunct(this *states.ConfigGroupSet, that *states.ConfigGro
 	return true
 }
 
-func contextInternallyDisjunct(this *states.ConfigGroupSet) bool {
-	for i := 0; i < len(this.List())-1; i++ {
-		for j := i + 1; j < len(this.List()); j++ {
-			if len(this.List()[i].ContextSet.Intersection(this.List()[j].ContextSet)) > 0 {
-				return false
-			}
-		}
-	}
-	return true
+/*
+weaklyCompatible returns true if the merging of the contexts of two pairs of groups with
+the same cores adds no intersection of context, or if one of the pairs has one already.
+*/
+func weaklyCompatible(this1, this2, that1, that2 *states.ConfigGroup) bool {
+	return !intersect(this1, that2) && !intersect(this2, that1) ||
+		intersect(this1, this2) ||
+		intersect(that1, that2)
+}
+
+func intersect(this, that *states.ConfigGroup) bool {
+	return len(this.ContextSet.Intersection(that.ContextSet)) > 0
 }
-- 
2.43.0


From 478397244f72906a03c157d390bf8d1fd3c417c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 21/40] fix: LR(1) action routines of empty productions

The generated code did not compile: it returned ast.nil instead of calling the
action routine, whose skeleton had a parameter.
---
 gen/golang/lr1/ast/ast.go                 |  2 +-
 gen/golang/lr1/parser/productionstable.go | 15 +++++----------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/gen/golang/lr1/ast/ast.go b/gen/golang/lr1/ast/ast.go
index 71aa95c..069846a 100644
--- a/gen/golang/lr1/ast/ast.go
+++ b/gen/golang/lr1/ast/ast.go
@@ -137,7 +137,7 @@ import(
 
 {{range $bprod := .BasicProds}}{{$bp := $bprod}}
 // {{$bp.Comment}}
-func {{$bp.ID}}({{range $i, $p := $bp.Params}}{{if ne $i 0}}, {{end}}p{{$i}}{{end}} interface{})(interface{}, error){
+func {{$bp.ID}}({{range $i, $p := $bp.Params}}{{if ne $i 0}}, {{end}}p{{$i}}{{end}}{{if $bp.Params}} interface{}{{end}})(interface{}, error){
     fmt.Println("ast.{{$bprod.ID}} is unimplemented")
     return nil, nil
 }
diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index b9a27aa..344b644 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -50,16 +50,11 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		data.ProdTab[i].String = fmt.Sprintf("`%s`", prod.String())
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
-		if len(prod.Body.Symbols) == 0 {
-			data.ProdTab[i].NumSymbols = 0
-			data.ProdTab[i].ReduceFunc = fmt.Sprintf("nil, nil")
-		} else {
-			data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
-			data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
-				prod.Head,
-				prod.Alternate,
-				getParamIDs(len(prod.Body.Symbols)))
-		}
+		data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
+		data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
+			prod.Head,
+			prod.Alternate,
+			getParamIDs(len(prod.Body.Symbols)))
 	}
 
 	return data
-- 
2.43.0


From fb183a25b1acc56126f29d309884eca516376f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 22/40] fix: print the type of the token of an LR(1) error

---
 gen/golang/lr1/parser/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/golang/lr1/parser/errors.go b/gen/golang/lr1/parser/errors.go
index 2d42c6d..376752a 100644
--- a/gen/golang/lr1/parser/errors.go
+++ b/gen/golang/lr1/parser/errors.go
@@ -62,7 +62,7 @@ func (E *Error) String() string {
 	} else {
 		fmt.Fprintf(w, "\n")
 	}
-	fmt.Fprintf(w, "Token: type=%d, lit=%s\n", E.ErrorToken.Type, E.ErrorToken.Literal())
+	fmt.Fprintf(w, "Token: type=%d, lit=%s\n", E.ErrorToken.Type(), E.ErrorToken.Literal())
 	ln, col := E.ErrorToken.GetLineColumn()
 	fmt.Fprintf(w, "Pos: offset=%d, line=%d, column=%d\n", E.ErrorToken.Lext(), ln, col)
 	fmt.Fprintf(w, "Expected one of: ")
-- 
2.43.0


From 7af2cf0646dd1b1cb44182c99eb6c60655bd7457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 23/40] fix: call the action routine of the LR(1) start
 production G0

---
 gen/golang/lr1/parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gen/golang/lr1/parser/parser.go b/gen/golang/lr1/parser/parser.go
index dc82045..4fc5e30 100644
--- a/gen/golang/lr1/parser/parser.go
+++ b/gen/golang/lr1/parser/parser.go
@@ -256,7 +256,9 @@ func (p *Parser) Parse() (res interface{}, err error) {
 
 		switch act := action.(type) {
 		case accept:
-			res = p.stack.popN(1)[0]
+			if res, err = productionsTable[0].ReduceFunc(p.stack.popN(1)); err != nil {
+				return nil, p.newError(err)
+			}
 			acc = true
 		case shift:
 			p.stack.push(int(act), p.nextToken)
-- 
2.43.0


From 08aaaf4a0ee3cbac2fe1499d4af31aa71365ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 24/40] fix: list the expected tokens of LR(1) errors in a
 fixed order

---
 gen/golang/lr1/parser/parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gen/golang/lr1/parser/parser.go b/gen/golang/lr1/parser/parser.go
index 4fc5e30..1ba5cf3 100644
--- a/gen/golang/lr1/parser/parser.go
+++ b/gen/golang/lr1/parser/parser.go
@@ -171,8 +171,8 @@ func (P *Parser) Error(err error) (recovered bool, errorAttrib *parseError.Error
 		ErrorSymbols:   P.popNonRecoveryStates(),
 		ExpectedTokens: make([]string, 0, 8),
 	}
-	for t, action := range actionTab[P.stack.top()].actions {
-		if action != nil {
+	for t := token.Type(0); int(t) < numTerminals; t++ {
+		if actionTab[P.stack.top()].actions[t] != nil {
 			errorAttrib.ExpectedTokens = append(errorAttrib.ExpectedTokens, t.ID())
 		}
 	}
@@ -224,12 +224,12 @@ func (P *Parser) newError(err error) error {
 	ln, col := P.nextToken.GetLineColumn()
 	fmt.Fprintf(w, "Error @ line %d col %d tok %s", ln, col, P.nextToken)
 	if err != nil {
-		w.WriteString(err.Error())
+		fmt.Fprintf(w, ": %s", err)
 	} else {
 		w.WriteString(", expected one of: ")
 		actRow := actionTab[P.stack.top()]
-		for tok, act := range actRow.actions {
-			if act != nil {
+		for tok := token.Type(0); int(tok) < numTerminals; tok++ {
+			if actRow.actions[tok] != nil {
 				fmt.Fprintf(w, "%s ", tok.ID())
 			}
 		}
-- 
2.43.0


From a190cb2f6490fe47a6f662d41db45fb8229451b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:58 +0000
Subject: [PATCH 25/40] fix: LR(1) conflicts of accept and reduce

---
 lr1/action/action.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lr1/action/action.go b/lr1/action/action.go
index 3bdc614..15d83b9 100644
--- a/lr1/action/action.go
+++ b/lr1/action/action.go
@@ -111,7 +111,10 @@ func (this Shift) Equal(act Action) bool {
 }
 
 func (this Accept) ResolveConflict(that Action) Action {
-	if _, ok := that.(Error); ok {
+	switch that.(type) {
+	case Error:
+		return this
+	case Reduce: // accept reduces the first production
 		return this
 	}
 	panic(fmt.Sprintf("Cannot have LR1 conflict with Accept."))
@@ -137,8 +140,8 @@ func (this Shift) ResolveConflict(that Action) Action {
 
 func (this Reduce) ResolveConflict(that Action) Action {
 	switch that := that.(type) {
-	case Accept:
-		panic(fmt.Sprintf("Impossible conflict: Shift(%d)/Accept", int(this)))
+	case Accept: // accept reduces the first production
+		return that
 	case Shift:
 		return that
 	case Error:
-- 
2.43.0


From 056f22c059e69ad8522aca44a72ac319e06536ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:58 +0000
Subject: [PATCH 26/40] fix: say that LR(1) conflicts were resolved only if
 they were

---
 lr1/gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lr1/gen.go b/lr1/gen.go
index ac75b73..092cd01 100644
--- a/lr1/gen.go
+++ b/lr1/gen.go
@@ -52,12 +52,12 @@ func Gen(g *ast.GoGLL) ([]*basicprod.Production, *states.States, action.Actions)
 
 func handleConflicts(conflicts [][]*action.Conflict, states *states.States) {
 	if numConflicts(conflicts) > 0 {
-		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt", numConflicts(conflicts))
+		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt\n", numConflicts(conflicts))
 		writeConflicts(conflicts)
 		if !*cfg.AutoResolveLRConf {
-			fmt.Println("LR(1) conflicts were automatically resolved")
 			os.Exit(1)
 		}
+		fmt.Println("LR(1) conflicts were automatically resolved")
 	}
 }
 
-- 
2.43.0


From 3f2d4f588448da3d13e57cefcb2283a820db0474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:19 +0000
Subject: [PATCH 27/40] fix: a token with the name error is not the error
 symbol of LR(1) recovery

---
 lr1/states/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lr1/states/state.go b/lr1/states/state.go
index 64c31db..346e41c 100644
--- a/lr1/states/state.go
+++ b/lr1/states/state.go
@@ -57,7 +57,7 @@ func (this *State) Add(cg ...*ConfigGroup) *State {
 
 func (this *State) CanRecover() bool {
 	for _, cfgrp := range this.NonNucleus.List() {
-		if cfgrp.Item.ExpectedSymbol() == "error" {
+		if cfgrp.Item.ExpectedSymbol() == symbols.Error.Literal() {
 			return true
 		}
 	}
-- 
2.43.0


From 24f860cb95fe37eaa3260ed4bb833a43217b09af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:58 +0000
Subject: [PATCH 28/40] fix: string literals with the name of another symbol

A string literal and a nonterminal or token of the same name, or one of the
reserved symbols, were the same symbol to the parser generators.
---
 ast/ast.go              |  7 ++++---
 ast/build.go            | 33 ++++++++++++++++++++++++++++++++-
 ast/lex.go              |  8 ++++++--
 gen/golang/gll/codex.go |  6 +++---
 lr1/first/first.go      |  2 +-
 5 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 8fcf0de..85edb43 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -43,6 +43,7 @@ type Package struct {
 
 type TokID struct {
 	tok *token.Token
+	id  string
 }
 
 type Terminal interface {
@@ -68,8 +69,8 @@ func (g *GoGLL) GetLexRule(id string) *LexRule {
 // GetStringLiterals returns a sorted slice of the string literals
 func (g *GoGLL) GetStringLiterals() []string {
 	slits := make([]string, 0, len(g.StringLiterals))
-	for _, sl := range g.StringLiterals {
-		slits = append(slits, string(sl.Value()))
+	for id := range g.StringLiterals {
+		slits = append(slits, id)
 	}
 	sort.Slice(slits, func(i, j int) bool { return slits[i] < slits[j] })
 	return slits
@@ -131,5 +132,5 @@ func (t *TokID) Lext() int {
 }
 
 func (t *TokID) ID() string {
-	return t.tok.LiteralStringStripEscape()
+	return t.id
 }
diff --git a/ast/build.go b/ast/build.go
index 466f289..3d90783 100644
--- a/ast/build.go
+++ b/ast/build.go
@@ -54,6 +54,7 @@ func Build(root bsr.BSR, l *lexer.Lexer, file string) *GoGLL {
 	}
 	bld.goGLL(root)
 	bld.gogll.NonTerminals = bld.nonTerminals()
+	bld.setStringLitIDs()
 	bld.gogll.StringLiterals = bld.getStringLiterals()
 	bld.gogll.Terminals = bld.terminals()
 	return bld.gogll
@@ -140,6 +141,33 @@ func (bld *builder) getStringLiterals() map[string]*StringLit {
 	return slits
 }
 
+// setStringLitIDs sets the IDs of the string literals, which must differ from
+// the IDs of all other symbols of the grammar and from the reserved IDs.
+func (bld *builder) setStringLitIDs() {
+	used := bld.getLexRuleIDs(bld.gogll.LexRules)
+	used.AddSet(bld.gogll.NonTerminals)
+	used.Add("Error", "$", "ϵ", "ℇ", "G0")
+	values, slits := stringset.New(), []*StringLit{}
+	for _, r := range bld.gogll.SyntaxRules {
+		for _, a := range r.Alternates {
+			for _, s := range a.Symbols {
+				if sl, ok := s.(*StringLit); ok {
+					values.Add(string(sl.Value()))
+					slits = append(slits, sl)
+				}
+			}
+		}
+	}
+	for _, sl := range slits {
+		if used.Contain(sl.ID()) {
+			sl.id = fmt.Sprintf("\"%s\"", sl.id)
+			for values.Contain(sl.id) {
+				sl.id = fmt.Sprintf("\"%s\"", sl.id)
+			}
+		}
+	}
+}
+
 /*** Lex Rules ***/
 
 // LexRule
@@ -429,15 +457,18 @@ func (bld *builder) nt(tok *token.Token) *NT {
 }
 
 func (bld *builder) stringLit(tok *token.Token) *StringLit {
-	return &StringLit{
+	sl := &StringLit{
 		tok: tok,
 	}
+	sl.id = string(sl.Value())
+	return sl
 }
 
 // TokID : id ;
 func (bld *builder) tokID(tok *token.Token) *TokID {
 	return &TokID{
 		tok: tok,
+		id:  tok.LiteralStringStripEscape(),
 	}
 }
 
diff --git a/ast/lex.go b/ast/lex.go
index 48107c1..a45dcfe 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -116,6 +116,7 @@ type RegExp struct {
 
 type StringLit struct {
 	tok *token.Token
+	id  string
 }
 
 type UnicodeClass struct {
@@ -352,8 +353,10 @@ func (sl *StringLit) ContainsWhiteSpace() bool {
 	return false
 }
 
+// ID returns the symbol ID of sl: its value, or its quoted value if the value
+// is the ID of another symbol of the grammar.
 func (sl *StringLit) ID() string {
-	return string(sl.Value())
+	return sl.id
 }
 
 func (sl *StringLit) Literal() []rune {
@@ -695,8 +698,9 @@ func (u *UnicodeSet) Subset(sup *UnicodeSet) bool {
 // StringLitToTokID returns a dummy TokID with ID = id
 func StringLitToTokID(id *StringLit) *TokID {
 	return &TokID{
-		token.New(token.StringToType["tokid"],
+		tok: token.New(token.StringToType["tokid"],
 			id.tok.Lext()+1, id.tok.Rext()-1, id.tok.GetInput()),
+		id: id.ID(),
 	}
 }
 
diff --git a/gen/golang/gll/codex.go b/gen/golang/gll/codex.go
index 491a554..7a39660 100644
--- a/gen/golang/gll/codex.go
+++ b/gen/golang/gll/codex.go
@@ -74,12 +74,12 @@ func (g *gen) getAltData(nt string, alt *ast.SyntaxAlternate, altI int) *AltData
 func (g *gen) getSlotsData(nt string, alt *ast.SyntaxAlternate, altI int) (data []*SlotData) {
 	for i, sym := range alt.Symbols {
 		// fmt.Printf("getSlotsData(%s) %s\n", nt, getSlotData(nt, altI, sym, i))
-		data = append(data, g.getSlotData(nt, altI, sym.String(), i))
+		data = append(data, g.getSlotData(nt, altI, sym, i))
 	}
 	return
 }
 
-func (g *gen) getSlotData(nt string, altI int, symbol string, pos int) *SlotData {
+func (g *gen) getSlotData(nt string, altI int, symbol ast.SyntaxSymbol, pos int) *SlotData {
 	preLabel := gslot.NewLabel(nt, altI, pos, g.gs, g.ff)
 	postLabel := gslot.NewLabel(nt, altI, pos+1, g.gs, g.ff)
 	sd := &SlotData{
@@ -89,7 +89,7 @@ func (g *gen) getSlotData(nt string, altI int, symbol string, pos int) *SlotData
 		Comment:   postLabel.String(),
 		Head:      nt,
 	}
-	sd.IsNT = g.g.NonTerminals.Contain(symbol)
+	_, sd.IsNT = symbol.(*ast.NT)
 	return sd
 }
 
diff --git a/lr1/first/first.go b/lr1/first/first.go
index 9235402..31744ce 100644
--- a/lr1/first/first.go
+++ b/lr1/first/first.go
@@ -77,7 +77,7 @@ func (this *First) firstTerms(alt *ast.SyntaxAlternate) (first FirstSet) {
 				}
 			}
 		case *ast.StringLit:
-			first, _ = first.Add(string(term.Value()))
+			first, _ = first.Add(term.ID())
 			return
 		default:
 			panic("Invalid")
-- 
2.43.0


From d155e52bc4966e2edd777f8b1b5218abfb48af11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:46 +0000
Subject: [PATCH 29/40] fix: Go identifiers of the names of nonterminals

Nonterminals with letters or numbers that Go does not allow in identifiers
(e.g. roman numerals), alternates of different rules whose label is the same
concatenation of name and number (A1 1 and A 11), and nonterminals with the
names G0 and Error generated code that did not compile or was wrong.
---
 gen/golang/gll/codex.go                   |  9 ++--
 gen/golang/gll/parser.go                  | 19 +++----
 gen/golang/gll/slots/slots.go             | 11 ++--
 gen/golang/gll/symbols/symbols.go         | 11 ++--
 gen/golang/lr1/ast/ast.go                 |  2 +-
 gen/golang/lr1/parser/productionstable.go |  5 +-
 gslot/gslot.go                            |  5 +-
 lr1/basicprod/basicprod.go                |  7 +++
 lr1/first/first.go                        |  4 +-
 lr1/items/items.go                        |  5 +-
 lr1/states/state.go                       |  3 +-
 symbols/identifiers.go                    | 62 +++++++++++++++++++++++
 symbols/symbols.go                        |  3 +-
 13 files changed, 114 insertions(+), 32 deletions(-)
 create mode 100644 symbols/identifiers.go

diff --git a/gen/golang/gll/codex.go b/gen/golang/gll/codex.go
index 7a39660..9945d8b 100644
--- a/gen/golang/gll/codex.go
+++ b/gen/golang/gll/codex.go
@@ -20,6 +20,7 @@ import (
 
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/gslot"
+	"github.com/goccmack/gogll/v3/symbols"
 )
 
 func (g *gen) genAlternatesCode() string {
@@ -59,7 +60,7 @@ func (g *gen) getAltData(nt string, alt *ast.SyntaxAlternate, altI int) *AltData
 	// fmt.Printf("codex.getAltData %s[%d]\n", nt, altI)
 	L := gslot.NewLabel(nt, altI, 0, g.gs, g.ff)
 	d := &AltData{
-		NT:         nt,
+		NT:         symbols.GetNTType(nt).GoString(),
 		AltLabel:   L.Label(),
 		AltComment: L.String(),
 		Empty:      alt.Empty(),
@@ -114,9 +115,9 @@ const altCodeTmpl = `		case slot.{{.AltLabel}}: // {{.AltComment}}{{if .Empty}}
 case slot.{{$slot.PostLabel}}: // {{$slot.Comment}} 
 			{{else}}p.bsrSet.Add(slot.{{$slot.PostLabel}}, cU, p.cI, p.cI+1)
 			p.cI++ {{end}}{{end}}{{end}}
-			if p.follow(symbols.NT_{{.NT}}) {
-				p.rtn(symbols.NT_{{.NT}}, cU, p.cI)
+			if p.follow(symbols.{{.NT}}) {
+				p.rtn(symbols.{{.NT}}, cU, p.cI)
 			} else { 
-				p.parseError(slot.{{.AltLabel}}, p.cI, followSets[symbols.NT_{{.NT}}])
+				p.parseError(slot.{{.AltLabel}}, p.cI, followSets[symbols.{{.NT}}])
 			}
 	`
diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 01d9313..95c18aa 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -29,8 +29,9 @@ import (
 	"github.com/goccmack/gogll/v3/gen/golang/gll/bsr"
 	"github.com/goccmack/gogll/v3/gen/golang/gll/slots"
 	"github.com/goccmack/gogll/v3/gen/golang/gll/sppf"
-	"github.com/goccmack/gogll/v3/gen/golang/gll/symbols"
+	gensymbols "github.com/goccmack/gogll/v3/gen/golang/gll/symbols"
 	"github.com/goccmack/gogll/v3/gslot"
+	"github.com/goccmack/gogll/v3/symbols"
 	"github.com/goccmack/goutil/ioutil"
 )
 
@@ -49,7 +50,7 @@ func Gen(g *ast.GoGLL, gs *gslot.GSlot, ff *frstflw.FF) {
 	bsr.Gen(filepath.Join(parserDir, "bsr", "bsr.go"), g.Package.GetString())
 	slots.Gen(filepath.Join(parserDir, "slot", "slot.go"), g, gs, ff)
 	sppf.Gen(filepath.Join(cfg.BaseDir, "sppf", "sppf.go"), g.Package.GetString())
-	symbols.Gen(filepath.Join(parserDir, "symbols", "symbols.go"), g)
+	gensymbols.Gen(filepath.Join(parserDir, "symbols", "symbols.go"), g)
 }
 
 func (g *gen) genParser(parserDir string) {
@@ -83,7 +84,7 @@ type Data struct {
 func (g *gen) getData(baseDir string) *Data {
 	data := &Data{
 		Package:     g.g.Package.GetString(),
-		StartSymbol: g.g.StartSymbol(),
+		StartSymbol: symbols.GetNTType(g.g.StartSymbol()).GoString(),
 		CodeX:       g.genAlternatesCode(),
 		TestSelect:  g.genTestSelect(),
 	}
@@ -137,10 +138,10 @@ func newParser(l *lexer.Lexer) *parser {
 		U:      &descriptors{},
 		popped: make(map[poppedNode]bool),
 		crf: map[clusterNode][]*crfNode{
-			{symbols.NT_{{.StartSymbol}}, 0}: {},
+			{symbols.{{.StartSymbol}}, 0}: {},
 		},
 		crfNodes:    map[crfNode]*crfNode{},
-		bsrSet:      bsr.New(symbols.NT_{{.StartSymbol}}, l),
+		bsrSet:      bsr.New(symbols.{{.StartSymbol}}, l),
 		parseErrors: nil,
 	}
 }
@@ -154,7 +155,7 @@ func Parse(l *lexer.Lexer) (*bsr.Set, []*Error) {
 func (p *parser) parse() (*bsr.Set, []*Error) {
 	var L slot.Label
 	m, cU := len(p.lex.Tokens)-1, 0
-	p.ntAdd(symbols.NT_{{.StartSymbol}}, 0)
+	p.ntAdd(symbols.{{.StartSymbol}}, 0)
 	// p.DumpDescriptors()
 	for !p.R.empty() {
 		L, cU, p.cI = p.R.remove()
@@ -170,7 +171,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			panic("This must not happen")
 		}
 	}
-	if !p.bsrSet.Contain(symbols.NT_{{.StartSymbol}}, 0, m) {
+	if !p.bsrSet.Contain(symbols.{{.StartSymbol}}, 0, m) {
 		p.trailingTokenErrors()
 		p.sortParseErrors()
 		return nil, p.parseErrors
@@ -462,11 +463,11 @@ func (p *parser) parseError(slot slot.Label, i int, expected map[token.Type]stri
 // symbol, but that no rule invocation is waiting for.
 func (p *parser) trailingTokenErrors() {
 	for _, b := range p.bsrSet.GetAll() {
-		if b.Label.Head() != symbols.NT_{{.StartSymbol}} || b.LeftExtent() != 0 {
+		if b.Label.Head() != symbols.{{.StartSymbol}} || b.LeftExtent() != 0 {
 			continue
 		}
 		i := b.RightExtent()
-		if _, exist := followSets[symbols.NT_{{.StartSymbol}}][p.lex.Tokens[i].Type()]; exist {
+		if _, exist := followSets[symbols.{{.StartSymbol}}][p.lex.Tokens[i].Type()]; exist {
 			p.parseError(b.Label, i, map[token.Type]string{token.EOF: "$"})
 		}
 	}
diff --git a/gen/golang/gll/slots/slots.go b/gen/golang/gll/slots/slots.go
index 00fd29b..ebd81fd 100644
--- a/gen/golang/gll/slots/slots.go
+++ b/gen/golang/gll/slots/slots.go
@@ -22,6 +22,7 @@ import (
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/frstflw"
 	"github.com/goccmack/gogll/v3/gslot"
+	"github.com/goccmack/gogll/v3/symbols"
 	"github.com/goccmack/goutil/ioutil"
 )
 
@@ -68,7 +69,7 @@ func getData(g *ast.GoGLL, gs *gslot.GSlot, ff *frstflw.FF) *Data {
 
 func getAltData(g *ast.GoGLL, gs *gslot.GSlot, ff *frstflw.FF) (data []*AltData) {
 	for _, r := range g.SyntaxRules {
-		d := &AltData{r.Head.ID(), getLabelList(r, g, gs, ff)}
+		d := &AltData{symbols.GetNTType(r.Head.ID()).GoString(), getLabelList(r, g, gs, ff)}
 		data = append(data, d)
 	}
 	return
@@ -89,7 +90,7 @@ func getSlotData(gs *gslot.GSlot) (data []*SlotData) {
 	for _, s := range gs.Slots() {
 		d := &SlotData{
 			Label:   s.Label(),
-			NT:      s.Head,
+			NT:      symbols.GetNTType(s.Head).GoString(),
 			Alt:     s.Alternate,
 			Pos:     s.Pos,
 			Symbols: s.Symbols().GoStrings(),
@@ -204,7 +205,7 @@ func (s *Slot) String() string {
 
 var slots = map[Label]*Slot{ {{range $i, $s := .Slots}}
 	{{$s.Label}}: {
-		symbols.NT_{{$s.NT}}, {{$s.Alt}}, {{$s.Pos}}, 
+		symbols.{{$s.NT}}, {{$s.Alt}}, {{$s.Pos}}, 
 		symbols.Symbols{ {{range $sym := $s.Symbols}} 
 			symbols.{{$sym}},{{end}}
 		}, 
@@ -213,11 +214,11 @@ var slots = map[Label]*Slot{ {{range $i, $s := .Slots}}
 }
 
 var slotIndex = map[Index]Label { {{range $i, $s := .Slots}}
-	Index{ symbols.NT_{{$s.NT}},{{$s.Alt}},{{$s.Pos}} }: {{$s.Label}},{{end}}
+	Index{ symbols.{{$s.NT}},{{$s.Alt}},{{$s.Pos}} }: {{$s.Label}},{{end}}
 }
 
 var alternates = map[symbols.NT][]Label{ {{range $i, $a := .Alts}}
-	symbols.NT_{{$a.NT}}:[]Label{ {{$a.Labels}} },{{end}}
+	symbols.{{$a.NT}}:[]Label{ {{$a.Labels}} },{{end}}
 }
 
 `
diff --git a/gen/golang/gll/symbols/symbols.go b/gen/golang/gll/symbols/symbols.go
index f618d97..98ccf77 100644
--- a/gen/golang/gll/symbols/symbols.go
+++ b/gen/golang/gll/symbols/symbols.go
@@ -21,11 +21,12 @@ import (
 
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/gen/golang/utils"
+	gogllsymbols "github.com/goccmack/gogll/v3/symbols"
 	"github.com/goccmack/goutil/ioutil"
 )
 
 type Data struct {
-	NonTerminals []string
+	NonTerminals []gogllsymbols.NT
 	Terminals    []string
 }
 
@@ -45,7 +46,7 @@ func Gen(fname string, g *ast.GoGLL) {
 
 func getData(g *ast.GoGLL) *Data {
 	return &Data{
-		NonTerminals: g.NonTerminals.ElementsSorted(),
+		NonTerminals: gogllsymbols.GetNonTerminals(),
 		Terminals:    utils.EscapeAll(g.Terminals.ElementsSorted()...),
 	}
 }
@@ -71,7 +72,7 @@ func (T) isSymbol() {}
 // NT is the type of non-terminals symbols
 type NT int
 const( {{range $i, $nt := .NonTerminals}}
-	NT_{{$nt}} {{if not $i}}NT = iota{{end}}{{end}}
+	{{$nt.GoString}} {{if not $i}}NT = iota{{end}}{{end}}
 )
 
 // T is the type of terminals symbols
@@ -145,7 +146,7 @@ func ToNT(sym string) NT {
 }
 
 var ntToString = []string { {{range $nt := .NonTerminals}}
-	"{{$nt}}", /* NT_{{$nt}} */{{end}} 
+	"{{$nt}}", /* {{$nt.GoString}} */{{end}} 
 }
 
 var tToString = []string { {{range $i, $t := .Terminals}}
@@ -153,6 +154,6 @@ var tToString = []string { {{range $i, $t := .Terminals}}
 }
 
 var stringNT = map[string]NT{ {{range $i, $sym := .NonTerminals}}
-	"{{$sym}}":NT_{{$sym}},{{end}}
+	"{{$sym}}":{{$sym.GoString}},{{end}}
 }
 `
diff --git a/gen/golang/lr1/ast/ast.go b/gen/golang/lr1/ast/ast.go
index 069846a..5791cf4 100644
--- a/gen/golang/lr1/ast/ast.go
+++ b/gen/golang/lr1/ast/ast.go
@@ -89,7 +89,7 @@ func getBasicProd(prod *basicprod.Production) *BasicProd {
 			prod.Head,
 			strings.Join(prod.Body.GetSymbols(), " ")),
 
-		ID: fmt.Sprintf("%s%d", prod.Head, prod.Alternate),
+		ID: prod.ID,
 
 		Params: getParams(prod.Body),
 
diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index 344b644..b1440cc 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -51,9 +51,8 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
 		data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
-		data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
-			prod.Head,
-			prod.Alternate,
+		data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s(%s)",
+			prod.ID,
 			getParamIDs(len(prod.Body.Symbols)))
 	}
 
diff --git a/gslot/gslot.go b/gslot/gslot.go
index 68fb416..bc03f0f 100644
--- a/gslot/gslot.go
+++ b/gslot/gslot.go
@@ -39,6 +39,7 @@ type GSlot struct {
 	g     *ast.GoGLL
 	ff    *frstflw.FF
 	slots map[Label]symbols.Symbols
+	ids   *symbols.Identifiers
 }
 
 func New(g *ast.GoGLL, ff *frstflw.FF) *GSlot {
@@ -46,6 +47,7 @@ func New(g *ast.GoGLL, ff *frstflw.FF) *GSlot {
 		g:     g,
 		ff:    ff,
 		slots: make(map[Label]symbols.Symbols),
+		ids:   symbols.NewIdentifiers(),
 	}
 	gs.genSlots()
 	return gs
@@ -71,7 +73,7 @@ func (gs *GSlot) Slots() Slots {
 }
 
 func (s Label) Label() string {
-	return fmt.Sprintf("%s%dR%d", s.Head, s.Alternate, s.Pos)
+	return fmt.Sprintf("%sR%d", s.gs.ids.Alternate(s.Head, s.Alternate), s.Pos)
 }
 
 func (s Label) IsEoR() bool {
@@ -156,6 +158,7 @@ func (gs *GSlot) genSlots() {
 
 func (gs *GSlot) genSlotsOfRule(r *ast.SyntaxRule) {
 	for i, a := range r.Alternates {
+		gs.ids.Alternate(r.Head.ID(), i)
 		gs.genSlotsOfAlternate(r.Head.ID(), i, getSymbols(a.GetSymbols())...)
 	}
 }
diff --git a/lr1/basicprod/basicprod.go b/lr1/basicprod/basicprod.go
index 2c65e85..49dc77d 100644
--- a/lr1/basicprod/basicprod.go
+++ b/lr1/basicprod/basicprod.go
@@ -5,17 +5,23 @@ import (
 	"strings"
 
 	"github.com/goccmack/gogll/v3/ast"
+	"github.com/goccmack/gogll/v3/symbols"
 )
 
 type Production struct {
+	// ID is the Go identifier of the production
+	ID        string
 	Alternate int
 	Head      string
 	Body      *ast.SyntaxAlternate
 }
 
 func Get(rules []*ast.SyntaxRule) (prods []*Production) {
+	ids := symbols.NewIdentifiers()
+	ids.Reserve("G00")
 	prods = append(prods,
 		&Production{
+			ID:   "G00",
 			Head: "G0",
 			Body: &ast.SyntaxAlternate{
 				Symbols: []ast.SyntaxSymbol{rules[0].Head},
@@ -25,6 +31,7 @@ func Get(rules []*ast.SyntaxRule) (prods []*Production) {
 		for i, alt := range r.Alternates {
 			prods = append(prods,
 				&Production{
+					ID:        ids.Alternate(r.Head.ID(), i),
 					Alternate: i,
 					Head:      r.Head.ID(),
 					Body:      alt,
diff --git a/lr1/first/first.go b/lr1/first/first.go
index 31744ce..df9e9d3 100644
--- a/lr1/first/first.go
+++ b/lr1/first/first.go
@@ -35,7 +35,9 @@ func New(prods []*basicprod.Production) *First {
 func (this *First) AddNonTerminals(prods []*basicprod.Production) {
 	for again := true; again; {
 		again = false
-		for _, prod := range prods {
+		// no symbol derives production 0, and its head may be the name of a
+		// nonterminal of the grammar
+		for _, prod := range prods[1:] {
 			changed := false
 			this.symbol[prod.Head], changed =
 				this.symbol[prod.Head].Add(this.firstTerms(prod.Body)...)
diff --git a/lr1/items/items.go b/lr1/items/items.go
index e9522ad..11a2f1f 100644
--- a/lr1/items/items.go
+++ b/lr1/items/items.go
@@ -38,7 +38,10 @@ func (this *Items) StartItems(prodId string) []*Item {
 
 func (this *Items) newItems(head string, alt *ast.SyntaxAlternate, prodIdx int) {
 	items := NewItem(head, alt, prodIdx)
-	this.startItems[head] = append(this.startItems[head], items[0])
+	// production 0 has no rule: its head may be the name of a nonterminal of the grammar
+	if prodIdx > 0 {
+		this.startItems[head] = append(this.startItems[head], items[0])
+	}
 	for _, item := range items {
 		if _, exist := this.idxMap[item.hashKey]; exist {
 			panic(fmt.Sprintf("Duplicate item: %s", item))
diff --git a/lr1/states/state.go b/lr1/states/state.go
index 346e41c..c069c5f 100644
--- a/lr1/states/state.go
+++ b/lr1/states/state.go
@@ -57,7 +57,8 @@ func (this *State) Add(cg ...*ConfigGroup) *State {
 
 func (this *State) CanRecover() bool {
 	for _, cfgrp := range this.NonNucleus.List() {
-		if cfgrp.Item.ExpectedSymbol() == symbols.Error.Literal() {
+		expected := cfgrp.Item.ExpectedSymbol()
+		if expected == symbols.Error.Literal() && !symbols.IsNonTerminal(expected) {
 			return true
 		}
 	}
diff --git a/symbols/identifiers.go b/symbols/identifiers.go
new file mode 100644
index 0000000..6285306
--- /dev/null
+++ b/symbols/identifiers.go
@@ -0,0 +1,62 @@
+package symbols
+
+import (
+	"fmt"
+	"strings"
+	"unicode"
+)
+
+// Identifiers assigns different Go identifiers to the names of the grammar.
+type Identifiers struct {
+	ids  map[string]string
+	used map[string]bool
+}
+
+// NewIdentifiers returns an empty Identifiers
+func NewIdentifiers() *Identifiers {
+	return &Identifiers{
+		ids:  make(map[string]string),
+		used: make(map[string]bool),
+	}
+}
+
+// NT returns the Go identifier of nonterminal nt, which is nt, unless nt contains
+// characters that Go does not allow in identifiers.
+func (ids *Identifiers) NT(nt string) string {
+	return ids.get(nt, goIdentifier(nt), "")
+}
+
+// Alternate returns the Go identifier of the alternate of rule nt, which is
+// the concatenation of both, unless that is the identifier of another alternate.
+func (ids *Identifiers) Alternate(nt string, alternate int) string {
+	return ids.get(fmt.Sprintf("%s %d", nt, alternate), goIdentifier(nt), fmt.Sprint(alternate))
+}
+
+// Reserve makes id unavailable for other names
+func (ids *Identifiers) Reserve(id string) {
+	ids.used[id] = true
+}
+
+func (ids *Identifiers) get(key, prefix, suffix string) string {
+	if id, exist := ids.ids[key]; exist {
+		return id
+	}
+	for ids.used[prefix+suffix] {
+		prefix += "_"
+	}
+	ids.ids[key] = prefix + suffix
+	ids.used[prefix+suffix] = true
+	return prefix + suffix
+}
+
+func goIdentifier(name string) string {
+	w := new(strings.Builder)
+	for _, r := range name {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			w.WriteRune(r)
+		} else {
+			fmt.Fprintf(w, "_%X", r)
+		}
+	}
+	return w.String()
+}
diff --git a/symbols/symbols.go b/symbols/symbols.go
index 7354320..cf5941b 100644
--- a/symbols/symbols.go
+++ b/symbols/symbols.go
@@ -84,10 +84,11 @@ func Init(g *ast.GoGLL) {
 	ntToLiteral = make([]string, len(nts))
 	literalToNT = make(map[string]NT, len(nts))
 	ntToString = make([]string, len(nts))
+	ids := NewIdentifiers()
 	for i, nt := range nts {
 		ntToLiteral[i] = nt
 		literalToNT[nt] = NT(i)
-		ntToString[i] = fmt.Sprintf("NT_%s", nt)
+		ntToString[i] = fmt.Sprintf("NT_%s", ids.NT(nt))
 	}
 
 	ts := g.Terminals.ElementsSorted()
-- 
2.43.0


From 4af35a50015064c8e543b4469a79d7b5b19eecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:13 +0000
Subject: [PATCH 30/40] fix: no lexer transition on an empty set of characters

A Unicode set such as '[\p{Lt} - \p{Title}]' contains no character. It is a
subset of every character literal, so its transition merged the items after
different string literals, and gogll rejected the grammar.
---
 lex/items/event/event.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lex/items/event/event.go b/lex/items/event/event.go
index fbe4d51..7a4455d 100644
--- a/lex/items/event/event.go
+++ b/lex/items/event/event.go
@@ -197,7 +197,7 @@ func contains(events []ast.LexBase, event ast.LexBase) bool {
 func getEvents(items ...*item.Item) (events []ast.LexBase) {
 	for _, item := range items {
 		event := item.Symbol()
-		if event != nil {
+		if event != nil && !empty(event.(ast.LexBase)) {
 			if !contains(events, event.(ast.LexBase)) {
 				events = append(events, event.(ast.LexBase))
 			}
@@ -206,6 +206,17 @@ func getEvents(items ...*item.Item) (events []ast.LexBase) {
 	return
 }
 
+// empty returns true iff no character matches ev, which then causes no transition
+func empty(ev ast.LexBase) bool {
+	switch e := ev.(type) {
+	case *ast.AnyOf:
+		return e.Set.Empty()
+	case *ast.UnicodeSet:
+		return e.ContainsOnly(func(rune) bool { return false })
+	}
+	return false
+}
+
 // onlyContains returns true iff r is the only rune in rs
 func onlyContains(rs *runeset.RuneSet, r rune) bool {
 	return rs.Contains(r) && len(rs.Elements()) == 1
-- 
2.43.0


From c86846e8d73d82c44c6fc6bd5c8c80af986a383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:11 +0000
Subject: [PATCH 31/40] fix: quote characters of the grammar in generated code

Character literals, strings and comments of the generated code contained
control characters, byte order marks, newlines, backquotes and comment ends
of the grammar as they are, so that the code did not compile.
---
 gen/golang/gll/codex.go                   |  5 ++--
 gen/golang/gll/testselect.go              |  2 +-
 gen/golang/lexer/lexer.go                 |  7 ++----
 gen/golang/lr1/ast/ast.go                 |  5 ++--
 gen/golang/lr1/parser/actionrow.go        |  8 ++++---
 gen/golang/lr1/parser/productionstable.go |  3 ++-
 gen/golang/utils/utils.go                 | 29 ++++++++++++++++++++---
 lex/item/item.go                          |  6 ++---
 util/runeset/runeset.go                   | 16 +++----------
 9 files changed, 48 insertions(+), 33 deletions(-)

diff --git a/gen/golang/gll/codex.go b/gen/golang/gll/codex.go
index 9945d8b..72e82e6 100644
--- a/gen/golang/gll/codex.go
+++ b/gen/golang/gll/codex.go
@@ -19,6 +19,7 @@ import (
 	"text/template"
 
 	"github.com/goccmack/gogll/v3/ast"
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/gslot"
 	"github.com/goccmack/gogll/v3/symbols"
 )
@@ -62,7 +63,7 @@ func (g *gen) getAltData(nt string, alt *ast.SyntaxAlternate, altI int) *AltData
 	d := &AltData{
 		NT:         symbols.GetNTType(nt).GoString(),
 		AltLabel:   L.Label(),
-		AltComment: L.String(),
+		AltComment: utils.Comment(L.String()),
 		Empty:      alt.Empty(),
 	}
 	if !alt.Empty() {
@@ -87,7 +88,7 @@ func (g *gen) getSlotData(nt string, altI int, symbol ast.SyntaxSymbol, pos int)
 		AltLabel:  gslot.NewLabel(nt, altI, 0, g.gs, g.ff).Label(),
 		PreLabel:  preLabel.Label(),
 		PostLabel: postLabel.Label(),
-		Comment:   postLabel.String(),
+		Comment:   utils.Comment(postLabel.String()),
 		Head:      nt,
 	}
 	_, sd.IsNT = symbol.(*ast.NT)
diff --git a/gen/golang/gll/testselect.go b/gen/golang/gll/testselect.go
index 7ff36c8..6f840de 100644
--- a/gen/golang/gll/testselect.go
+++ b/gen/golang/gll/testselect.go
@@ -94,7 +94,7 @@ func (g *gen) getTSData() (data []*TSData) {
 
 func (g *gen) getSlotTSData(l gslot.Label) *TSData {
 	data := &TSData{
-		Label:   l.String(),
+		Label:   utils.Comment(l.String()),
 		Symbols: g.getFirst(l),
 		// Conditions: g.getSlotTSConditions(s),
 	}
diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index 5d49d5c..a409a17 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"fmt"
 	"path/filepath"
+	"strconv"
 	"text/template"
 
 	"github.com/goccmack/gogll/v3/ast"
@@ -107,11 +108,7 @@ func getCondition(event ast.LexBase) string {
 	case *ast.AnyOf:
 		return fmt.Sprintf("any(r, %s)", e.Set)
 	case *ast.CharLiteral:
-		cstr := string(e.Literal)
-		if cstr == "'''" {
-			return "r == '\\''"
-		}
-		return fmt.Sprintf("r == %s", cstr)
+		return fmt.Sprintf("r == %s", strconv.QuoteRune(e.Char()))
 	case *ast.Not:
 		return fmt.Sprintf("not(r, %s)", e.Set)
 	case *ast.UnicodeClass:
diff --git a/gen/golang/lr1/ast/ast.go b/gen/golang/lr1/ast/ast.go
index 5791cf4..e19726f 100644
--- a/gen/golang/lr1/ast/ast.go
+++ b/gen/golang/lr1/ast/ast.go
@@ -26,6 +26,7 @@ import (
 
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/cfg"
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/lr1/basicprod"
 	"github.com/goccmack/goutil/ioutil"
 )
@@ -85,9 +86,9 @@ func getBasicProds(bprods []*basicprod.Production) (prods []*BasicProd) {
 
 func getBasicProd(prod *basicprod.Production) *BasicProd {
 	return &BasicProd{
-		Comment: fmt.Sprintf("%s : %s ;",
+		Comment: utils.Comment(fmt.Sprintf("%s : %s ;",
 			prod.Head,
-			strings.Join(prod.Body.GetSymbols(), " ")),
+			strings.Join(prod.Body.GetSymbols(), " "))),
 
 		ID: prod.ID,
 
diff --git a/gen/golang/lr1/parser/actionrow.go b/gen/golang/lr1/parser/actionrow.go
index f320ecc..1c0eef8 100644
--- a/gen/golang/lr1/parser/actionrow.go
+++ b/gen/golang/lr1/parser/actionrow.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"text/template"
 
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/lr1/action"
 	"github.com/goccmack/gogll/v3/lr1/basicprod"
 	"github.com/goccmack/gogll/v3/lr1/states"
@@ -53,13 +54,14 @@ func getActionRowData(prods []*basicprod.Production, state *states.State, action
 	for _, sym := range symbols.GetTerminals() {
 		if actions[sym.Literal()] != nil {
 			var actStr string
+			symStr := utils.Comment(sym.String())
 			switch act := actions[sym.Literal()].(type) {
 			case action.Accept:
-				actStr = fmt.Sprintf("accept(true),\t\t/* %s */", sym)
+				actStr = fmt.Sprintf("accept(true),\t\t// %s", symStr)
 			case action.Reduce:
-				actStr = fmt.Sprintf("reduce(%d),\t\t/* %s, reduce: %s */", int(act), sym, prods[int(act)].Head)
+				actStr = fmt.Sprintf("reduce(%d),\t\t// %s, reduce: %s", int(act), symStr, prods[int(act)].Head)
 			case action.Shift:
-				actStr = fmt.Sprintf("shift(%d),\t\t/* %s */", int(act), sym)
+				actStr = fmt.Sprintf("shift(%d),\t\t// %s", int(act), symStr)
 			default:
 				panic(fmt.Sprintf("Unknown action type: %T", act))
 			}
diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index b1440cc..77e018e 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"fmt"
 	"path"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -47,7 +48,7 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		ProdTab: make([]prodTabEntry, len(prods)),
 	}
 	for i, prod := range prods {
-		data.ProdTab[i].String = fmt.Sprintf("`%s`", prod.String())
+		data.ProdTab[i].String = strconv.Quote(prod.String())
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
 		data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
diff --git a/gen/golang/utils/utils.go b/gen/golang/utils/utils.go
index 0885381..9240f96 100644
--- a/gen/golang/utils/utils.go
+++ b/gen/golang/utils/utils.go
@@ -1,6 +1,21 @@
 package utils
 
-// Escape returns a copy of s with all "\t\r\n\\ escaped
+import (
+	"strconv"
+	"strings"
+)
+
+// Comment returns a copy of s in which characters that may not be part of a Go
+// comment, or would end it, are escaped.
+func Comment(s string) string {
+	w := new(strings.Builder)
+	for _, r := range s {
+		w.WriteString(escapeUnprintable(r))
+	}
+	return w.String()
+}
+
+// Escape returns a copy of s with all "\t\r\n\\ and unprintable characters escaped
 func Escape(s string) string {
 	rs := []rune(s)
 	ers := []rune{}
@@ -18,7 +33,7 @@ func EscapeAll(ss ...string) (ess []string) {
 	return
 }
 
-// EscapeRune returns r escaped if in set: "\t\r\n\\
+// EscapeRune returns r escaped if in set: "\t\r\n\\, or if it is unprintable
 func EscapeRune(r rune) string {
 	switch r {
 	case '"':
@@ -32,7 +47,15 @@ func EscapeRune(r rune) string {
 	case '\t':
 		return "\\t"
 	}
-	return string(r)
+	return escapeUnprintable(r)
+}
+
+func escapeUnprintable(r rune) string {
+	if strconv.IsPrint(r) {
+		return string(r)
+	}
+	q := strconv.QuoteRune(r)
+	return q[1 : len(q)-1]
 }
 
 // StripEscape returns a copy of s with string literal escape sequences replaced
diff --git a/lex/item/item.go b/lex/item/item.go
index 87170ad..6f0f4e9 100644
--- a/lex/item/item.go
+++ b/lex/item/item.go
@@ -224,7 +224,7 @@ func (i *Item) stringRegExp(regExp *ast.RegExp, pos *pos.Pos) string {
 		if i.Pos.Equal(pos) {
 			fmt.Fprintf(w, "•")
 		}
-		fmt.Fprintf(w, i.stringSymbol(symbol, pos))
+		fmt.Fprint(w, i.stringSymbol(symbol, pos))
 		pos.Inc()
 	}
 	if i.Pos.Equal(pos) {
@@ -237,14 +237,14 @@ func (i *Item) stringSymbol(symbol ast.LexSymbol, pos *pos.Pos) string {
 	// fmt.Printf("item.stringSymbol %s pos=%s\n", symbol, pos)
 	w := new(bytes.Buffer)
 	if brkt, ok := symbol.(*ast.LexBracket); ok {
-		fmt.Fprintf(w, brkt.LeftBracket())
+		fmt.Fprint(w, brkt.LeftBracket())
 		for j, alt := range brkt.Alternates {
 			if j > 0 {
 				fmt.Fprintf(w, "| ")
 			}
 			fmt.Fprint(w, i.stringRegExp(alt, pos.Clone().Push(j).Push(0)))
 		}
-		fmt.Fprintf(w, brkt.RightBracket())
+		fmt.Fprint(w, brkt.RightBracket())
 	} else {
 		fmt.Fprintf(w, "%s ", symbol)
 	}
diff --git a/util/runeset/runeset.go b/util/runeset/runeset.go
index 2716478..0151f5c 100644
--- a/util/runeset/runeset.go
+++ b/util/runeset/runeset.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"fmt"
 	"sort"
+	"strconv"
 )
 
 // RuneSet holds a set of rune
@@ -110,17 +111,6 @@ func (rs *RuneSet) String() string {
 }
 
 func escape(r rune) string {
-	switch r {
-	case '\\':
-		return "\\\\"
-	case '\'':
-		return "\\'"
-	case '\r':
-		return "\\r"
-	case '\n':
-		return "\\n"
-	case '\t':
-		return "\\t"
-	}
-	return string(r)
+	q := strconv.QuoteRune(r)
+	return q[1 : len(q)-1]
 }
-- 
2.43.0


From 0b2127e86ff5ea9f376245d795f8d728979b0034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 32/40] fix: report GLL parse errors in a fixed order

---
 gen/golang/gll/parser.go | 9 +++++++--
 parser/parser.go         | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 95c18aa..a49bde8 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -449,6 +449,7 @@ func (pe *Error) String() string {
 	for _, e := range pe.Expected {
 		exp = append(exp, e)
 	}
+	sort.Strings(exp)
 	fmt.Fprintf(w, "Expected one of: [%s]", strings.Join(exp, ","))
 	return w.String()
 }
@@ -474,9 +475,13 @@ func (p *parser) trailingTokenErrors() {
 }
 
 func (p *parser) sortParseErrors() {
-	sort.Slice(p.parseErrors,
+	sort.SliceStable(p.parseErrors,
 		func(i, j int) bool {
-			return p.parseErrors[j].Token.Lext() < p.parseErrors[i].Token.Lext()
+			a, b := p.parseErrors[i], p.parseErrors[j]
+			if a.Token.Lext() != b.Token.Lext() {
+				return b.Token.Lext() < a.Token.Lext()
+			}
+			return a.Slot < b.Slot
 		})
 	for _, pe := range p.parseErrors {
 		pe.Line, pe.Column = p.lex.GetLineColumn(pe.Token.Lext())
diff --git a/parser/parser.go b/parser/parser.go
index f2c4b3e..686b69f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -12184,6 +12184,7 @@ func (pe *Error) String() string {
 	for _, e := range pe.Expected {
 		exp = append(exp, e)
 	}
+	sort.Strings(exp)
 	fmt.Fprintf(w, "Expected one of: [%s]", strings.Join(exp, ","))
 	return w.String()
 }
@@ -12209,9 +12210,13 @@ func (p *parser) trailingTokenErrors() {
 }
 
 func (p *parser) sortParseErrors() {
-	sort.Slice(p.parseErrors,
+	sort.SliceStable(p.parseErrors,
 		func(i, j int) bool {
-			return p.parseErrors[j].Token.Lext() < p.parseErrors[i].Token.Lext()
+			a, b := p.parseErrors[i], p.parseErrors[j]
+			if a.Token.Lext() != b.Token.Lext() {
+				return b.Token.Lext() < a.Token.Lext()
+			}
+			return a.Slot < b.Slot
 		})
 	for _, pe := range p.parseErrors {
 		pe.Line, pe.Column = p.lex.GetLineColumn(pe.Token.Lext())
-- 
2.43.0


From 65013aaf1e3723fa7dbc5dcd061245ffe3c134dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:46 +0000
Subject: [PATCH 33/40] fix: list the items of lexer sets in a fixed order

---
 lex/items/items.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lex/items/items.go b/lex/items/items.go
index 5160c4f..84fce52 100644
--- a/lex/items/items.go
+++ b/lex/items/items.go
@@ -239,7 +239,10 @@ func (s *Set) Len() int {
 }
 
 func (s *Set) Less(i, j int) bool {
-	return s.set[i].Rule.ID() < s.set[j].Rule.ID()
+	if s.set[i].Rule.ID() != s.set[j].Rule.ID() {
+		return s.set[i].Rule.ID() < s.set[j].Rule.ID()
+	}
+	return s.set[i].String() < s.set[j].String()
 }
 
 func (s *Set) Swap(i, j int) {
-- 
2.43.0


From f98bbebdec1ebaa1c21cd75b194df3fc110af116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:40 +0000
Subject: [PATCH 34/40] fix: a nonterminal named Error is not the error symbol

---
 gen/golang/token/token.go | 6 +++++-
 symbols/symbols.go        | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/gen/golang/token/token.go b/gen/golang/token/token.go
index 013c87e..cd053a3 100644
--- a/gen/golang/token/token.go
+++ b/gen/golang/token/token.go
@@ -63,10 +63,14 @@ func getData() *Data {
 
 func getTypes() (types []*TypeDef) {
 	for _, t := range symbols.GetTerminals() {
+		literal := t.Literal()
+		if t == symbols.Error {
+			literal = t.ID()
+		}
 		types = append(types,
 			&TypeDef{
 				Name:     t.TypeString(),
-				Comment:  utils.Escape(t.Literal()),
+				Comment:  utils.Escape(literal),
 				Suppress: t.Suppress(),
 			})
 	}
diff --git a/symbols/symbols.go b/symbols/symbols.go
index cf5941b..e77e678 100644
--- a/symbols/symbols.go
+++ b/symbols/symbols.go
@@ -98,7 +98,12 @@ func Init(g *ast.GoGLL) {
 	tSuppress = make([]bool, len(ts)+2)
 	tToID = make([]string, len(ts)+2)
 
-	tToLiteral[0] = "Error"
+	// The error symbol must not have the name of a symbol of the grammar
+	errLit := "Error"
+	for g.NonTerminals.Contain(errLit) || g.Terminals.Contain(errLit) {
+		errLit += "'"
+	}
+	tToLiteral[0] = errLit
 	literalToT["Error"] = T(0)
 	tToTypeString[0] = "Error"
 	tToLiteral[1] = "$"
-- 
2.43.0


From 99d6e9619359c7ddc9fff6beb71d4f74887d0a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 35/40] fix: GLL parsers process every descriptor once

descriptors.contain compared pointers, so no descriptor was ever found in U:
the parser scanned U for every new descriptor and processed descriptors again
and again. LL(1) grammars took quadratic time and the worst case was far from
the cubic time that the Readme promises.
---
 gen/golang/gll/parser.go | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index a49bde8..0977ecc 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -118,7 +118,7 @@ type parser struct {
 	cI int
 
 	R *descriptors
-	U *descriptors
+	U map[descriptor]bool
 
 	popped   map[poppedNode]bool
 	crf      map[clusterNode][]*crfNode
@@ -135,7 +135,7 @@ func newParser(l *lexer.Lexer) *parser {
 		cI:     0,
 		lex:    l,
 		R:      &descriptors{},
-		U:      &descriptors{},
+		U:      make(map[descriptor]bool),
 		popped: make(map[poppedNode]bool),
 		crf: map[clusterNode][]*crfNode{
 			{symbols.{{.StartSymbol}}, 0}: {},
@@ -324,15 +324,6 @@ type descriptors struct {
 	set []*descriptor
 }
 
-func (ds *descriptors) contain(d *descriptor) bool {
-	for _, d1 := range ds.set {
-		if d1 == d {
-			return true
-		}
-	}
-	return false
-}
-
 func (ds *descriptors) empty() bool {
 	return len(ds.set) == 0
 }
@@ -362,10 +353,10 @@ func (d *descriptor) String() string {
 
 func (p *parser) dscAdd(L slot.Label, k, i int) {
 	// fmt.Printf("p.dscAdd(%s,%d,%d)\n", L, k, i)
-	d := &descriptor{L, k, i}
-	if !p.U.contain(d) {
-		p.R.set = append(p.R.set, d)
-		p.U.set = append(p.U.set, d)
+	d := descriptor{L, k, i}
+	if !p.U[d] {
+		p.R.set = append(p.R.set, &d)
+		p.U[d] = true
 	}
 }
 
@@ -390,8 +381,8 @@ func (p *parser) DumpR() {
 
 func (p *parser) DumpU() {
 	fmt.Println("U:")
-	for _, d := range p.U.set {
-		fmt.Printf(" %s\n", d)
+	for d := range p.U {
+		fmt.Printf(" %s\n", &d)
 	}
 }
 
-- 
2.43.0


From 5f2140e55b821536f855d8a4f98dd5393e929ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 36/40] fix: GLL calls look up the returns of their own cluster
 only

call looked through the returns of all nonterminals at all positions for those of
one nonterminal at one position, which made the parser quadratic for LL(1)
grammars.
---
 gen/golang/gll/parser.go | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 0977ecc..b2eb22f 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -120,7 +120,7 @@ type parser struct {
 	R *descriptors
 	U map[descriptor]bool
 
-	popped   map[poppedNode]bool
+	popped   map[clusterNode]map[int]bool
 	crf      map[clusterNode][]*crfNode
 	crfNodes map[crfNode]*crfNode
 
@@ -136,7 +136,7 @@ func newParser(l *lexer.Lexer) *parser {
 		lex:    l,
 		R:      &descriptors{},
 		U:      make(map[descriptor]bool),
-		popped: make(map[poppedNode]bool),
+		popped: make(map[clusterNode]map[int]bool),
 		crf: map[clusterNode][]*crfNode{
 			{symbols.{{.StartSymbol}}, 0}: {},
 		},
@@ -202,11 +202,6 @@ func (p *parser) ntAdd(nt symbols.NT, j int) {
 
 /*** Call Return Forest ***/
 
-type poppedNode struct {
-	X    symbols.NT
-	k, j int
-}
-
 type clusterNode struct {
 	X symbols.NT
 	k int
@@ -257,11 +252,9 @@ func (p *parser) call(L slot.Label, i, j int) {
 			// fmt.Printf("  !existEdge(%v)\n", u)
 			p.crf[ndV] = append(v, u)
 			// fmt.Printf("|popped|=%d\n", len(popped))
-			for pnd := range p.popped {
-				if pnd.X == X && pnd.k == j {
-					p.dscAdd(L, i, pnd.j)
-					p.bsrSet.Add(L, i, j, pnd.j)
-				}
+			for h := range p.popped[ndV] {
+				p.dscAdd(L, i, h)
+				p.bsrSet.Add(L, i, j, h)
 			}
 		}
 	}
@@ -278,10 +271,13 @@ func existEdge(nds []*crfNode, nd *crfNode) bool {
 
 func (p *parser) rtn(X symbols.NT, k, j int) {
 	// fmt.Printf("p.rtn(%s,%d,%d)\n", X,k,j)
-	pn := poppedNode{X, k, j}
-	if _, exist := p.popped[pn]; !exist {
-		p.popped[pn] = true
-		for _, nd := range p.crf[clusterNode{X, k}] {
+	cn := clusterNode{X, k}
+	if !p.popped[cn][j] {
+		if p.popped[cn] == nil {
+			p.popped[cn] = make(map[int]bool)
+		}
+		p.popped[cn][j] = true
+		for _, nd := range p.crf[cn] {
 			p.dscAdd(nd.L, nd.i, j)
 			p.bsrSet.Add(nd.L, nd.i, k, j)
 		}
@@ -308,16 +304,6 @@ func (n crfNode) String() string {
 	return fmt.Sprintf("(%s,%d)", n.L.String(), n.i)
 }
 
-// func PoppedString() string {
-// 	buf := new(bytes.Buffer)
-// 	buf.WriteString("Popped: {")
-// 	for p, _ := range popped {
-// 		fmt.Fprintf(buf, "(%s,%d,%d) ", p.X, p.k, p.j)
-// 	}
-// 	buf.WriteString("}")
-// 	return buf.String()
-// }
-
 /*** descriptors ***/
 
 type descriptors struct {
-- 
2.43.0


From 3c4836cf5f98eb23b26fefcdf21a62c491ba80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 37/40] fix: add BSR strings in constant time

The pivots of a string were searched one by one, so adding all strings of an
ambiguous input took more than cubic time.
---
 gen/golang/gll/bsr/bsr.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index f6407b2..01110d2 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -73,6 +73,7 @@ type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
     stringEntries map[stringKey][]*stringBSR // one entry per pivot
+    stringPivots  map[stringPivot]bool
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -108,12 +109,18 @@ type stringBSRs []*stringBSR
 
 type stringKey string
 
+type stringPivot struct {
+    key   stringKey
+    pivot int
+}
+
 // New returns a new initialised BSR Set
 func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
         stringEntries: make(map[stringKey][]*stringBSR),
+        stringPivots:  make(map[stringPivot]bool),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -270,11 +277,10 @@ func (s *Set) insert(bsr bsr) {
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
         key := b.key()
-        for _, b1 := range s.stringEntries[key] {
-            if b1.pivot == b.pivot {
-                return
-            }
+        if s.stringPivots[stringPivot{key, b.pivot}] {
+            return
         }
+        s.stringPivots[stringPivot{key, b.pivot}] = true
         s.stringEntries[key] = append(s.stringEntries[key], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
-- 
2.43.0


From 4e0f48d69b301d591d1524fc61162a5f01e728cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:34 +0000
Subject: [PATCH 38/40] fix: regenerate the parser of gogll

gogll parsed its source in quadratic time.
---
 parser/parser.go | 63 +++++++++++++++---------------------------------
 1 file changed, 20 insertions(+), 43 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 686b69f..3165026 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -18,9 +18,9 @@ type parser struct {
 	cI int
 
 	R *descriptors
-	U *descriptors
+	U map[descriptor]bool
 
-	popped   map[poppedNode]bool
+	popped   map[clusterNode]map[int]bool
 	crf      map[clusterNode][]*crfNode
 	crfNodes map[crfNode]*crfNode
 
@@ -35,8 +35,8 @@ func newParser(l *lexer.Lexer) *parser {
 		cI:     0,
 		lex:    l,
 		R:      &descriptors{},
-		U:      &descriptors{},
-		popped: make(map[poppedNode]bool),
+		U:      make(map[descriptor]bool),
+		popped: make(map[clusterNode]map[int]bool),
 		crf: map[clusterNode][]*crfNode{
 			{symbols.NT_GoGLL, 0}: {},
 		},
@@ -1596,11 +1596,6 @@ func (p *parser) ntAdd(nt symbols.NT, j int) {
 
 /*** Call Return Forest ***/
 
-type poppedNode struct {
-	X    symbols.NT
-	k, j int
-}
-
 type clusterNode struct {
 	X symbols.NT
 	k int
@@ -1655,11 +1650,9 @@ func (p *parser) call(L slot.Label, i, j int) {
 			// fmt.Printf("  !existEdge(%v)\n", u)
 			p.crf[ndV] = append(v, u)
 			// fmt.Printf("|popped|=%d\n", len(popped))
-			for pnd := range p.popped {
-				if pnd.X == X && pnd.k == j {
-					p.dscAdd(L, i, pnd.j)
-					p.bsrSet.Add(L, i, j, pnd.j)
-				}
+			for h := range p.popped[ndV] {
+				p.dscAdd(L, i, h)
+				p.bsrSet.Add(L, i, j, h)
 			}
 		}
 	}
@@ -1676,10 +1669,13 @@ func existEdge(nds []*crfNode, nd *crfNode) bool {
 
 func (p *parser) rtn(X symbols.NT, k, j int) {
 	// fmt.Printf("p.rtn(%s,%d,%d)\n", X,k,j)
-	pn := poppedNode{X, k, j}
-	if _, exist := p.popped[pn]; !exist {
-		p.popped[pn] = true
-		for _, nd := range p.crf[clusterNode{X, k}] {
+	cn := clusterNode{X, k}
+	if !p.popped[cn][j] {
+		if p.popped[cn] == nil {
+			p.popped[cn] = make(map[int]bool)
+		}
+		p.popped[cn][j] = true
+		for _, nd := range p.crf[cn] {
 			p.dscAdd(nd.L, nd.i, j)
 			p.bsrSet.Add(nd.L, nd.i, k, j)
 		}
@@ -1706,31 +1702,12 @@ func (n crfNode) String() string {
 	return fmt.Sprintf("(%s,%d)", n.L.String(), n.i)
 }
 
-// func PoppedString() string {
-// 	buf := new(bytes.Buffer)
-// 	buf.WriteString("Popped: {")
-// 	for p, _ := range popped {
-// 		fmt.Fprintf(buf, "(%s,%d,%d) ", p.X, p.k, p.j)
-// 	}
-// 	buf.WriteString("}")
-// 	return buf.String()
-// }
-
 /*** descriptors ***/
 
 type descriptors struct {
 	set []*descriptor
 }
 
-func (ds *descriptors) contain(d *descriptor) bool {
-	for _, d1 := range ds.set {
-		if d1 == d {
-			return true
-		}
-	}
-	return false
-}
-
 func (ds *descriptors) empty() bool {
 	return len(ds.set) == 0
 }
@@ -1760,10 +1737,10 @@ func (d *descriptor) String() string {
 
 func (p *parser) dscAdd(L slot.Label, k, i int) {
 	// fmt.Printf("p.dscAdd(%s,%d,%d)\n", L, k, i)
-	d := &descriptor{L, k, i}
-	if !p.U.contain(d) {
-		p.R.set = append(p.R.set, d)
-		p.U.set = append(p.U.set, d)
+	d := descriptor{L, k, i}
+	if !p.U[d] {
+		p.R.set = append(p.R.set, &d)
+		p.U[d] = true
 	}
 }
 
@@ -1788,8 +1765,8 @@ func (p *parser) DumpR() {
 
 func (p *parser) DumpU() {
 	fmt.Println("U:")
-	for _, d := range p.U.set {
-		fmt.Printf(" %s\n", d)
+	for d := range p.U {
+		fmt.Printf(" %s\n", &d)
 	}
 }
 
-- 
2.43.0


From ac7fdbbd1a0f9ea7e7b07f47745b7dcc8e2bf63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 39/40] fix: find the edges of GLL calls in constant time

An LL(1) grammar like  S : "a" S B | empty ; B : empty ;  was parsed in
quadratic time: all calls of B at the end of the input search the list of
its callers.
---
 gen/golang/gll/parser.go | 20 ++++++++++----------
 parser/parser.go         | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index b2eb22f..0339992 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -123,6 +123,7 @@ type parser struct {
 	popped   map[clusterNode]map[int]bool
 	crf      map[clusterNode][]*crfNode
 	crfNodes map[crfNode]*crfNode
+	crfEdges map[crfEdge]bool
 
 	lex         *lexer.Lexer
 	parseErrors []*Error
@@ -141,6 +142,7 @@ func newParser(l *lexer.Lexer) *parser {
 			{symbols.{{.StartSymbol}}, 0}: {},
 		},
 		crfNodes:    map[crfNode]*crfNode{},
+		crfEdges:    map[crfEdge]bool{},
 		bsrSet:      bsr.New(symbols.{{.StartSymbol}}, l),
 		parseErrors: nil,
 	}
@@ -212,6 +214,11 @@ type crfNode struct {
 	i int
 }
 
+type crfEdge struct {
+	v clusterNode
+	u *crfNode
+}
+
 /*
 suppose that L is Y ::=αX ·β
 if there is no CRF node labelled (L,i) 
@@ -245,12 +252,14 @@ func (p *parser) call(L slot.Label, i, j int) {
 	if !exist {
 		// fmt.Println("  v !exist")
 		p.crf[ndV] = []*crfNode{u}
+		p.crfEdges[crfEdge{ndV, u}] = true
 		p.ntAdd(X, j)
 	} else {
 		// fmt.Println("  v exist")
-		if !existEdge(v, u) {
+		if !p.crfEdges[crfEdge{ndV, u}] {
 			// fmt.Printf("  !existEdge(%v)\n", u)
 			p.crf[ndV] = append(v, u)
+			p.crfEdges[crfEdge{ndV, u}] = true
 			// fmt.Printf("|popped|=%d\n", len(popped))
 			for h := range p.popped[ndV] {
 				p.dscAdd(L, i, h)
@@ -260,15 +269,6 @@ func (p *parser) call(L slot.Label, i, j int) {
 	}
 }
 
-func existEdge(nds []*crfNode, nd *crfNode) bool {
-	for _, nd1 := range nds {
-		if nd1 == nd {
-			return true
-		}
-	}
-	return false
-}
-
 func (p *parser) rtn(X symbols.NT, k, j int) {
 	// fmt.Printf("p.rtn(%s,%d,%d)\n", X,k,j)
 	cn := clusterNode{X, k}
diff --git a/parser/parser.go b/parser/parser.go
index 3165026..4d240ef 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -23,6 +23,7 @@ type parser struct {
 	popped   map[clusterNode]map[int]bool
 	crf      map[clusterNode][]*crfNode
 	crfNodes map[crfNode]*crfNode
+	crfEdges map[crfEdge]bool
 
 	lex         *lexer.Lexer
 	parseErrors []*Error
@@ -41,6 +42,7 @@ func newParser(l *lexer.Lexer) *parser {
 			{symbols.NT_GoGLL, 0}: {},
 		},
 		crfNodes:    map[crfNode]*crfNode{},
+		crfEdges:    map[crfEdge]bool{},
 		bsrSet:      bsr.New(symbols.NT_GoGLL, l),
 		parseErrors: nil,
 	}
@@ -1606,6 +1608,11 @@ type crfNode struct {
 	i int
 }
 
+type crfEdge struct {
+	v clusterNode
+	u *crfNode
+}
+
 /*
 suppose that L is Y ::=αX ·β
 if there is no CRF node labelled (L,i)
@@ -1643,12 +1650,14 @@ func (p *parser) call(L slot.Label, i, j int) {
 	if !exist {
 		// fmt.Println("  v !exist")
 		p.crf[ndV] = []*crfNode{u}
+		p.crfEdges[crfEdge{ndV, u}] = true
 		p.ntAdd(X, j)
 	} else {
 		// fmt.Println("  v exist")
-		if !existEdge(v, u) {
+		if !p.crfEdges[crfEdge{ndV, u}] {
 			// fmt.Printf("  !existEdge(%v)\n", u)
 			p.crf[ndV] = append(v, u)
+			p.crfEdges[crfEdge{ndV, u}] = true
 			// fmt.Printf("|popped|=%d\n", len(popped))
 			for h := range p.popped[ndV] {
 				p.dscAdd(L, i, h)
@@ -1658,15 +1667,6 @@ func (p *parser) call(L slot.Label, i, j int) {
 	}
 }
 
-func existEdge(nds []*crfNode, nd *crfNode) bool {
-	for _, nd1 := range nds {
-		if nd1 == nd {
-			return true
-		}
-	}
-	return false
-}
-
 func (p *parser) rtn(X symbols.NT, k, j int) {
 	// fmt.Printf("p.rtn(%s,%d,%d)\n", X,k,j)
 	cn := clusterNode{X, k}
-- 
2.43.0


From 4ffd0c89f2d14f3c9944e2f92a2272c5ef15472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 40/40] fix: print the literal of the token of an LR(1) error

---
 gen/golang/lr1/parser/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/golang/lr1/parser/errors.go b/gen/golang/lr1/parser/errors.go
index 376752a..9ccbf3b 100644
--- a/gen/golang/lr1/parser/errors.go
+++ b/gen/golang/lr1/parser/errors.go
@@ -62,7 +62,7 @@ func (E *Error) String() string {
 	} else {
 		fmt.Fprintf(w, "\n")
 	}
-	fmt.Fprintf(w, "Token: type=%d, lit=%s\n", E.ErrorToken.Type(), E.ErrorToken.Literal())
+	fmt.Fprintf(w, "Token: type=%d, lit=%s\n", E.ErrorToken.Type(), E.ErrorToken.LiteralString())
 	ln, col := E.ErrorToken.GetLineColumn()
 	fmt.Fprintf(w, "Pos: offset=%d, line=%d, column=%d\n", E.ErrorToken.Lext(), ln, col)
 	fmt.Fprintf(w, "Expected one of: ")
-- 
2.43.0

