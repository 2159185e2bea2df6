From 6cc2e9577f522b1d1b4455b3a63dc720a67e3116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:08 +0000
Subject: [PATCH 01/36] fix: Predication.End panicked for a predication without
 terms

end(nil, Terms(nil)) indexes the empty term list. A predication with
neither NA nor terms ends where its predicate ends.
---
 ast/ast.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 79e9909..1d1c541 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -158,7 +158,12 @@ type Predication struct {
 }
 
 func (n *Predication) Start() int                   { return n.Predicate.Start() }
-func (n *Predication) End() int                     { return end(n.NA, n.Terms) }
+func (n *Predication) End() int {
+	if n.NA == nil && n.Terms == nil {
+		return n.Predicate.End()
+	}
+	return end(n.NA, n.Terms)
+}
 func (n Predication) modNode(m *Mod) Node           { return n.mod(m) }
 func (n Predication) modStatement(m *Mod) Statement { return n.mod(m) }
 
-- 
2.43.0


From b00595cf3869305687499a0e89faee07f5f1a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:14 +0000
Subject: [PATCH 02/36] fix: Text.Start and Text.End panicked on a text without
 a discourse

The empty text and a text of only whitespace parse successfully,
but indexing their empty discourse panicked.
---
 ast/ast.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 1d1c541..d6c9dfd 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -34,8 +34,29 @@ type Text struct {
 	Discourse Discourse
 }
 
-func (n *Text) Start() int         { return n.Discourse.Start() }
-func (n *Text) End() int           { return n.Discourse.End() }
+func (n *Text) Start() int {
+	if len(n.Discourse) == 0 {
+		return n.emptyOffset()
+	}
+	return n.Discourse.Start()
+}
+
+func (n *Text) End() int {
+	if len(n.Discourse) == 0 {
+		return n.emptyOffset()
+	}
+	return n.Discourse.End()
+}
+
+// emptyOffset returns the byte-offset of the empty discourse
+// of a text that has nothing but leading whitespace.
+func (n *Text) emptyOffset() int {
+	if n.Leading == nil {
+		return 0
+	}
+	return n.Leading.End()
+}
+
 func (n Text) modNode(m *Mod) Node { n.Discourse = *n.Discourse.mod(m); return &n }
 
 // A Discourse is a non-empty sequence of sentences and/or fragments.
-- 
2.43.0


From 0aa7292ac68b118f0796f61540e092509f015925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:21 +0000
Subject: [PATCH 03/36] fix: parser panicked on a tone number following a
 multi-letter desinence

The grammar accepts both "jai?" and "jai4", but addTone only knew the
tone markers, and indexed an empty list for the tone numbers.
---
 ast/nodes.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ast/nodes.go b/ast/nodes.go
index 1c3c4cd..00e0c0d 100644
--- a/ast/nodes.go
+++ b/ast/nodes.go
@@ -128,9 +128,23 @@ func endParen(p Parenthetical, s *Mod, ki Word) *Parenthetical {
 	return &p
 }
 
+// numberTones maps from tone numbers to their corresponding tone marker.
+var numberTones = map[rune]rune{
+	'1': '-',
+	'2': '/',
+	'3': 'V',
+	'4': '?',
+	'5': '^',
+	'6': '\\',
+	'7': '~',
+}
+
 // addTone swaps the first letter of des with its diacritic variant given the tone rune.
 func addTone(des, ton string) string {
 	t, _ := utf8.DecodeRuneInString(ton)
+	if m, ok := numberTones[t]; ok {
+		t = m
+	}
 	_, w := utf8.DecodeRuneInString(des)
 	return tone.Diacritic[t][des[:w]][0] + des[w:]
 }
-- 
2.43.0


From 02f256a78b904784a64b5ebf7be43c0c2b3b0c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:27 +0000
Subject: [PATCH 04/36] fix: whitespace after a parenthetical was moved to
 before its ki

The mod following a parenthetical was attached to the end of its
discourse, which precedes ki, so the words were out of order.
---
 ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index d6c9dfd..070eeff 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -645,7 +645,7 @@ func (n Parenthetical) modNode(m *Mod) Node         { return n.mod(m) }
 func (n Parenthetical) modFragment(m *Mod) Fragment { return n.mod(m) }
 
 func (n Parenthetical) mod(m *Mod) Mod {
-	n.Discourse = *n.Discourse.mod(m)
+	n.KI = *n.KI.mod(m)
 	return &n
 }
 
-- 
2.43.0


From edb88e95492ce77efed7cc8802e8db5728e73b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:32 +0000
Subject: [PATCH 05/36] fix: Visit visited the absent Terms of a predication

Visit skips absent nodes, but it only recognized nil pointers and not
the nil Terms slice of a predication without terms.
---
 ast/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/visit.go b/ast/visit.go
index 435f0a3..444212c 100644
--- a/ast/visit.go
+++ b/ast/visit.go
@@ -33,7 +33,7 @@ func Visit(n Node, v Visitor) {
 	if n == nil {
 		return
 	}
-	if v := reflect.ValueOf(n); v.Kind() == reflect.Ptr && v.IsNil() {
+	if v := reflect.ValueOf(n); (v.Kind() == reflect.Ptr || v.Kind() == reflect.Slice) && v.IsNil() {
 		return
 	}
 	if v = v.Visit(n); v == nil {
-- 
2.43.0


From 0a812c53f89b53e8aa42bb8922128c6d6efa5a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:38 +0000
Subject: [PATCH 06/36] fix: Equal panicked on CoP and LUPhrase nodes

They are AST nodes, and Visit passes them to its visitor.
---
 ast/equal.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ast/equal.go b/ast/equal.go
index 4e36931..01b2be0 100644
--- a/ast/equal.go
+++ b/ast/equal.go
@@ -185,6 +185,14 @@ func Equal(a, b Node) bool {
 		b, ok := b.(*Space)
 		return ok && wordEqual((*Word)(a), (*Word)(b))
 
+	case *CoP:
+		b, ok := b.(*CoP)
+		return ok && copEqual(a, b)
+
+	case *LUPhrase:
+		b, ok := b.(*LUPhrase)
+		return ok && wordEqual(&a.LU, &b.LU) && Equal(a.Statement, b.Statement)
+
 	case *Word:
 		b, ok := b.(*Word)
 		return ok && wordEqual(a, b)
-- 
2.43.0


From 1692c53fd82c42303c4ab27ccf8552c8ed5b2d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:29 +0000
Subject: [PATCH 07/36] fix: Error.ByteOffset took exponential time

The nodes of a fail tree share most of their sub-trees, and byteOffset
walked a shared sub-tree again for each of its parents.
---
 ast/parser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index db2add7..74218dc 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -22,15 +22,21 @@ func (err *parseError) Error() string { return err.err.Error() }
 
 // Tree returns the tree of all failed backtracks that lead to a deepest-error.
 func (err *parseError) Tree() *peg.Fail { return err.fail }
-func (err *parseError) ByteOffset() int { return byteOffset(err.fail) }
+func (err *parseError) ByteOffset() int { return byteOffset(err.fail, make(map[*peg.Fail]bool)) }
 
-func byteOffset(fail *peg.Fail) int {
+// byteOffset returns the greatest offset of a leaf of the fail tree,
+// ignoring seen nodes; the tree's sub-trees are heavily shared.
+func byteOffset(fail *peg.Fail, seen map[*peg.Fail]bool) int {
 	if len(fail.Kids) == 0 {
 		return fail.Pos
 	}
 	max := -1
 	for _, k := range fail.Kids {
-		if o := byteOffset(k); o > max {
+		if seen[k] {
+			continue
+		}
+		seen[k] = true
+		if o := byteOffset(k, seen); o > max {
 			max = o
 		}
 	}
-- 
2.43.0


From 87d256dffffcda5907203f5010d6e7fd30800dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:37 +0000
Subject: [PATCH 08/36] fix: errors of Word, and errors after calling Word,
 were wrong

The error of a failed Word was computed for the full text instead of
the word, at an offset relative to the word instead of the text. And
the parser's memo of fail nodes survived from one call to the next, so
an error depended on the calls that came before it.
---
 ast/parser.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index 74218dc..563b06c 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -58,7 +58,7 @@ func NewParser(text string) *Parser {
 
 // Tree returns the full parse tree of the text.
 func (p *Parser) Tree() (*peg.Node, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, t := _full_textNode(p._Parser, 0)
@@ -72,7 +72,7 @@ func (p *Parser) Tree() (*peg.Node, Error) {
 // Word returns the word at the given byte-offset into the text
 // with any trailing whitespace attached and the number of bytes parsed.
 func (p *Parser) Word(offs int) (*Word, int, Error) {
-	if err := p.parse(_wordAccepts, offs); err != nil {
+	if err := p.parse(_wordAccepts, _wordFail, offs); err != nil {
 		return nil, 0, err
 	}
 	pos, t := _wordAction(p._Parser, offs)
@@ -85,7 +85,7 @@ func (p *Parser) Word(offs int) (*Word, int, Error) {
 
 // Text returns the AST of the text.
 func (p *Parser) Text() (*Text, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, txt := _full_textAction(p._Parser, 0)
@@ -96,12 +96,21 @@ func (p *Parser) Text() (*Text, Error) {
 	return txt, nil
 }
 
-func (p *Parser) parse(rule func(*_Parser, int) (int, int), start int) Error {
+func (p *Parser) parse(
+	rule func(*_Parser, int) (int, int),
+	ruleFail func(*_Parser, int, int) (int, *peg.Fail),
+	start int) Error {
 	pos, perr := rule(p._Parser, start)
 	if pos >= 0 {
 		return nil
 	}
-	_, failTree := _full_textFail(p._Parser, 0, perr)
+	// Forget the fail nodes and the error position of other parses,
+	// so the error does not depend on calls made before this one.
+	// Note that perr is relative to start.
+	errPos := start + perr
+	p._Parser.fail = make(map[_key]*peg.Fail)
+	p._Parser.lastFail = errPos
+	_, failTree := ruleFail(p._Parser, start, errPos)
 	return &parseError{
 		fail: failTree,
 		err:  peg.SimpleError(p._Parser.text, failTree),
-- 
2.43.0


From 325300d339772d4a437b3cf9b26fcda31647193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:16 +0000
Subject: [PATCH 09/36] fix: text from the first invalid UTF-8 on was silently
 ignored

The EOF rule is the absence of a valid rune. It also matches before
invalid UTF-8 in the middle of the text, and parsing succeeded there.
---
 ast/parser.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index 563b06c..2496cc9 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -58,7 +58,7 @@ func NewParser(text string) *Parser {
 
 // Tree returns the full parse tree of the text.
 func (p *Parser) Tree() (*peg.Node, Error) {
-	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
+	if err := p.parseFullText(); err != nil {
 		return nil, err
 	}
 	_, t := _full_textNode(p._Parser, 0)
@@ -85,7 +85,7 @@ func (p *Parser) Word(offs int) (*Word, int, Error) {
 
 // Text returns the AST of the text.
 func (p *Parser) Text() (*Text, Error) {
-	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
+	if err := p.parseFullText(); err != nil {
 		return nil, err
 	}
 	_, txt := _full_textAction(p._Parser, 0)
@@ -96,6 +96,23 @@ func (p *Parser) Text() (*Text, Error) {
 	return txt, nil
 }
 
+func (p *Parser) parseFullText() Error {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
+		return err
+	}
+	end, _ := _full_textAccepts(p._Parser, 0)
+	if end == len(p._Parser.text) {
+		return nil
+	}
+	// EOF is the absence of a valid rune, so it also matches
+	// before invalid UTF-8 in the middle of the text.
+	failTree := &peg.Fail{Name: "full_text", Kids: []*peg.Fail{{Pos: end, Want: "EOF"}}}
+	return &parseError{
+		fail: failTree,
+		err:  peg.SimpleError(p._Parser.text, failTree),
+	}
+}
+
 func (p *Parser) parse(
 	rule func(*_Parser, int) (int, int),
 	ruleFail func(*_Parser, int, int) (int, *peg.Fail),
-- 
2.43.0


From d19f74c37bc21f3fd1cdaa6fe09868fb2434e5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:23 +0000
Subject: [PATCH 10/36] fix: Parser.FilePath was not used for error reporting

---
 ast/parser.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index 2496cc9..a053baa 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -107,10 +107,7 @@ func (p *Parser) parseFullText() Error {
 	// EOF is the absence of a valid rune, so it also matches
 	// before invalid UTF-8 in the middle of the text.
 	failTree := &peg.Fail{Name: "full_text", Kids: []*peg.Fail{{Pos: end, Want: "EOF"}}}
-	return &parseError{
-		fail: failTree,
-		err:  peg.SimpleError(p._Parser.text, failTree),
-	}
+	return p.parseError(failTree)
 }
 
 func (p *Parser) parse(
@@ -128,8 +125,11 @@ func (p *Parser) parse(
 	p._Parser.fail = make(map[_key]*peg.Fail)
 	p._Parser.lastFail = errPos
 	_, failTree := ruleFail(p._Parser, start, errPos)
-	return &parseError{
-		fail: failTree,
-		err:  peg.SimpleError(p._Parser.text, failTree),
-	}
+	return p.parseError(failTree)
+}
+
+func (p *Parser) parseError(failTree *peg.Fail) Error {
+	err := peg.SimpleError(p._Parser.text, failTree)
+	err.FilePath = p.FilePath
+	return &parseError{fail: failTree, err: err}
 }
-- 
2.43.0


From c109fe6557e626580f5558cfeb7e177550786f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:03 +0000
Subject: [PATCH 11/36] fix: Word left the tone of a function word behind, and
 stopped at moq?

Word returned "jei" for "jei/", without its tone, leaving a tone that is
not a word; and it failed on "moq?", which is a valid end of a sentence.
The end of the word included its trailing whitespace, which is a node of
its own, and modifying a returned word modified the next one returned.

toaq.go and toaq.peg are re-generated.
---
 ast/nodes.go   |    9 +
 ast/parser.go  |    2 +-
 ast/toaq.go    | 1093 +++++++++++++++++++++++++++++++++---------------
 ast/toaq.peg   |   15 +-
 ast/toaq.peggy |    6 +-
 5 files changed, 778 insertions(+), 347 deletions(-)

diff --git a/ast/nodes.go b/ast/nodes.go
index 00e0c0d..2d279a0 100644
--- a/ast/nodes.go
+++ b/ast/nodes.go
@@ -128,6 +128,15 @@ func endParen(p Parenthetical, s *Mod, ki Word) *Parenthetical {
 	return &p
 }
 
+// spacedWord ends a word with its trailing whitespace, if any;
+// the word itself ends at the start of the whitespace.
+func spacedWord(w Word, s *Mod) *Word {
+	if s != nil {
+		w.E = (*s).Start()
+	}
+	return w.mod(s)
+}
+
 // numberTones maps from tone numbers to their corresponding tone marker.
 var numberTones = map[rune]rune{
 	'1': '-',
diff --git a/ast/parser.go b/ast/parser.go
index a053baa..1372ad6 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -79,7 +79,7 @@ func (p *Parser) Word(offs int) (*Word, int, Error) {
 	// Reset so a subsequent call returns a different tree.
 	// This allows the caller to modify the returned tree
 	// without affecting the tree made by subsequent calls.
-	p._Parser.node = make(map[_key]*peg.Node)
+	p._Parser.act = make(map[_key]interface{})
 	return *t, pos - offs, nil
 }
 
diff --git a/ast/toaq.go b/ast/toaq.go
index 1a0a4d6..97c6537 100644
--- a/ast/toaq.go
+++ b/ast/toaq.go
@@ -18156,63 +18156,121 @@ fail:
 }
 
 func _wordAccepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
-	var labels [2]string
+	var labels [5]string
 	use(labels)
 	if dp, de, ok := _memo(parser, _word, start); ok {
 		return dp, de
 	}
 	pos, perr := start, -1
-	// action
-	// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word?
-	// w:(non_function_word/toned_function_word/neutral_function_word)
+	// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word? {…}/m:moq q:(questions?) s1:space_word? {…}
 	{
-		pos1 := pos
-		// (non_function_word/toned_function_word/neutral_function_word)
-		// non_function_word/toned_function_word/neutral_function_word
+		pos3 := pos
+		// action
+		// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word?
+		// w:(non_function_word/toned_function_word/neutral_function_word)
 		{
-			pos5 := pos
-			// non_function_word
-			if !_accept(parser, _non_function_wordAccepts, &pos, &perr) {
-				goto fail6
+			pos6 := pos
+			// (non_function_word/toned_function_word/neutral_function_word)
+			// non_function_word/toned_function_word/neutral_function_word
+			{
+				pos10 := pos
+				// non_function_word
+				if !_accept(parser, _non_function_wordAccepts, &pos, &perr) {
+					goto fail11
+				}
+				goto ok7
+			fail11:
+				pos = pos10
+				// toned_function_word
+				if !_accept(parser, _toned_function_wordAccepts, &pos, &perr) {
+					goto fail12
+				}
+				goto ok7
+			fail12:
+				pos = pos10
+				// neutral_function_word
+				if !_accept(parser, _neutral_function_wordAccepts, &pos, &perr) {
+					goto fail13
+				}
+				goto ok7
+			fail13:
+				pos = pos10
+				goto fail4
+			ok7:
 			}
-			goto ok2
-		fail6:
-			pos = pos5
-			// toned_function_word
-			if !_accept(parser, _toned_function_wordAccepts, &pos, &perr) {
-				goto fail7
+			labels[0] = parser.text[pos6:pos]
+		}
+		// s:space_word?
+		{
+			pos14 := pos
+			// space_word?
+			{
+				pos16 := pos
+				// space_word
+				if !_accept(parser, _space_wordAccepts, &pos, &perr) {
+					goto fail17
+				}
+				goto ok18
+			fail17:
+				pos = pos16
+			ok18:
 			}
-			goto ok2
-		fail7:
-			pos = pos5
-			// neutral_function_word
-			if !_accept(parser, _neutral_function_wordAccepts, &pos, &perr) {
-				goto fail8
+			labels[1] = parser.text[pos14:pos]
+		}
+		goto ok0
+	fail4:
+		pos = pos3
+		// action
+		// m:moq q:(questions?) s1:space_word?
+		// m:moq
+		{
+			pos21 := pos
+			// moq
+			if !_accept(parser, _moqAccepts, &pos, &perr) {
+				goto fail19
 			}
-			goto ok2
-		fail8:
-			pos = pos5
-			goto fail
-		ok2:
+			labels[2] = parser.text[pos21:pos]
 		}
-		labels[0] = parser.text[pos1:pos]
-	}
-	// s:space_word?
-	{
-		pos9 := pos
-		// space_word?
+		// q:(questions?)
 		{
-			pos11 := pos
-			// space_word
-			if !_accept(parser, _space_wordAccepts, &pos, &perr) {
-				goto fail12
+			pos22 := pos
+			// (questions?)
+			// questions?
+			{
+				pos24 := pos
+				// questions
+				if !_accept(parser, _questionsAccepts, &pos, &perr) {
+					goto fail25
+				}
+				goto ok26
+			fail25:
+				pos = pos24
+			ok26:
 			}
-			goto ok13
-		fail12:
-			pos = pos11
-		ok13:
+			labels[3] = parser.text[pos22:pos]
 		}
-		labels[1] = parser.text[pos9:pos]
+		// s1:space_word?
+		{
+			pos27 := pos
+			// space_word?
+			{
+				pos29 := pos
+				// space_word
+				if !_accept(parser, _space_wordAccepts, &pos, &perr) {
+					goto fail30
+				}
+				goto ok31
+			fail30:
+				pos = pos29
+			ok31:
+			}
+			labels[4] = parser.text[pos27:pos]
+		}
+		goto ok0
+	fail19:
+		pos = pos3
+		goto fail
+	ok0:
 	}
 	return _memoize(parser, _word, start, pos, perr)
 fail:
@@ -18220,7 +18278,7 @@ fail:
 }
 
 func _wordNode(parser *_Parser, start int) (int, *peg.Node) {
-	var labels [2]string
+	var labels [5]string
 	use(labels)
 	dp := parser.deltaPos[start][_word]
 	if dp < 0 {
@@ -18233,69 +18291,140 @@ func _wordNode(parser *_Parser, start int) (int, *peg.Node) {
 	}
 	pos := start
 	node = &peg.Node{Name: "word"}
-	// action
-	// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word?
-	// w:(non_function_word/toned_function_word/neutral_function_word)
+	// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word? {…}/m:moq q:(questions?) s1:space_word? {…}
 	{
-		pos1 := pos
-		// (non_function_word/toned_function_word/neutral_function_word)
+		pos3 := pos
+		nkids1 := len(node.Kids)
+		// action
+		// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word?
+		// w:(non_function_word/toned_function_word/neutral_function_word)
 		{
-			nkids2 := len(node.Kids)
-			pos03 := pos
-			// non_function_word/toned_function_word/neutral_function_word
+			pos6 := pos
+			// (non_function_word/toned_function_word/neutral_function_word)
 			{
-				pos7 := pos
-				nkids5 := len(node.Kids)
-				// non_function_word
-				if !_node(parser, _non_function_wordNode, node, &pos) {
-					goto fail8
+				nkids7 := len(node.Kids)
+				pos08 := pos
+				// non_function_word/toned_function_word/neutral_function_word
+				{
+					pos12 := pos
+					nkids10 := len(node.Kids)
+					// non_function_word
+					if !_node(parser, _non_function_wordNode, node, &pos) {
+						goto fail13
+					}
+					goto ok9
+				fail13:
+					node.Kids = node.Kids[:nkids10]
+					pos = pos12
+					// toned_function_word
+					if !_node(parser, _toned_function_wordNode, node, &pos) {
+						goto fail14
+					}
+					goto ok9
+				fail14:
+					node.Kids = node.Kids[:nkids10]
+					pos = pos12
+					// neutral_function_word
+					if !_node(parser, _neutral_function_wordNode, node, &pos) {
+						goto fail15
+					}
+					goto ok9
+				fail15:
+					node.Kids = node.Kids[:nkids10]
+					pos = pos12
+					goto fail4
+				ok9:
 				}
-				goto ok4
-			fail8:
-				node.Kids = node.Kids[:nkids5]
-				pos = pos7
-				// toned_function_word
-				if !_node(parser, _toned_function_wordNode, node, &pos) {
-					goto fail9
+				sub := _sub(parser, pos08, pos, node.Kids[nkids7:])
+				node.Kids = append(node.Kids[:nkids7], sub)
+			}
+			labels[0] = parser.text[pos6:pos]
+		}
+		// s:space_word?
+		{
+			pos16 := pos
+			// space_word?
+			{
+				nkids17 := len(node.Kids)
+				pos18 := pos
+				// space_word
+				if !_node(parser, _space_wordNode, node, &pos) {
+					goto fail19
 				}
-				goto ok4
-			fail9:
-				node.Kids = node.Kids[:nkids5]
-				pos = pos7
-				// neutral_function_word
-				if !_node(parser, _neutral_function_wordNode, node, &pos) {
-					goto fail10
+				goto ok20
+			fail19:
+				node.Kids = node.Kids[:nkids17]
+				pos = pos18
+			ok20:
+			}
+			labels[1] = parser.text[pos16:pos]
+		}
+		goto ok0
+	fail4:
+		node.Kids = node.Kids[:nkids1]
+		pos = pos3
+		// action
+		// m:moq q:(questions?) s1:space_word?
+		// m:moq
+		{
+			pos23 := pos
+			// moq
+			if !_node(parser, _moqNode, node, &pos) {
+				goto fail21
+			}
+			labels[2] = parser.text[pos23:pos]
+		}
+		// q:(questions?)
+		{
+			pos24 := pos
+			// (questions?)
+			{
+				nkids25 := len(node.Kids)
+				pos026 := pos
+				// questions?
+				{
+					nkids27 := len(node.Kids)
+					pos28 := pos
+					// questions
+					if !_node(parser, _questionsNode, node, &pos) {
+						goto fail29
+					}
+					goto ok30
+				fail29:
+					node.Kids = node.Kids[:nkids27]
+					pos = pos28
+				ok30:
 				}
-				goto ok4
-			fail10:
-				node.Kids = node.Kids[:nkids5]
-				pos = pos7
-				goto fail
-			ok4:
+				sub := _sub(parser, pos026, pos, node.Kids[nkids25:])
+				node.Kids = append(node.Kids[:nkids25], sub)
 			}
-			sub := _sub(parser, pos03, pos, node.Kids[nkids2:])
-			node.Kids = append(node.Kids[:nkids2], sub)
+			labels[3] = parser.text[pos24:pos]
 		}
-		labels[0] = parser.text[pos1:pos]
-	}
-	// s:space_word?
-	{
-		pos11 := pos
-		// space_word?
+		// s1:space_word?
 		{
-			nkids12 := len(node.Kids)
-			pos13 := pos
-			// space_word
-			if !_node(parser, _space_wordNode, node, &pos) {
-				goto fail14
+			pos31 := pos
+			// space_word?
+			{
+				nkids32 := len(node.Kids)
+				pos33 := pos
+				// space_word
+				if !_node(parser, _space_wordNode, node, &pos) {
+					goto fail34
+				}
+				goto ok35
+			fail34:
+				node.Kids = node.Kids[:nkids32]
+				pos = pos33
+			ok35:
 			}
-			goto ok15
-		fail14:
-			node.Kids = node.Kids[:nkids12]
-			pos = pos13
-		ok15:
+			labels[4] = parser.text[pos31:pos]
 		}
-		labels[1] = parser.text[pos11:pos]
+		goto ok0
+	fail21:
+		node.Kids = node.Kids[:nkids1]
+		pos = pos3
+		goto fail
+	ok0:
 	}
 	node.Text = parser.text[start:pos]
 	parser.node[key] = node
@@ -18305,7 +18434,7 @@ fail:
 }
 
 func _wordFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
-	var labels [2]string
+	var labels [5]string
 	use(labels)
 	pos, failure := _failMemo(parser, _word, start, errPos)
 	if failure != nil {
@@ -18316,57 +18445,115 @@ func _wordFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
 		Pos:  int(start),
 	}
 	key := _key{start: start, rule: _word}
-	// action
-	// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word?
-	// w:(non_function_word/toned_function_word/neutral_function_word)
+	// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word? {…}/m:moq q:(questions?) s1:space_word? {…}
 	{
-		pos1 := pos
-		// (non_function_word/toned_function_word/neutral_function_word)
-		// non_function_word/toned_function_word/neutral_function_word
+		pos3 := pos
+		// action
+		// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word?
+		// w:(non_function_word/toned_function_word/neutral_function_word)
 		{
-			pos5 := pos
-			// non_function_word
-			if !_fail(parser, _non_function_wordFail, errPos, failure, &pos) {
-				goto fail6
+			pos6 := pos
+			// (non_function_word/toned_function_word/neutral_function_word)
+			// non_function_word/toned_function_word/neutral_function_word
+			{
+				pos10 := pos
+				// non_function_word
+				if !_fail(parser, _non_function_wordFail, errPos, failure, &pos) {
+					goto fail11
+				}
+				goto ok7
+			fail11:
+				pos = pos10
+				// toned_function_word
+				if !_fail(parser, _toned_function_wordFail, errPos, failure, &pos) {
+					goto fail12
+				}
+				goto ok7
+			fail12:
+				pos = pos10
+				// neutral_function_word
+				if !_fail(parser, _neutral_function_wordFail, errPos, failure, &pos) {
+					goto fail13
+				}
+				goto ok7
+			fail13:
+				pos = pos10
+				goto fail4
+			ok7:
+			}
+			labels[0] = parser.text[pos6:pos]
+		}
+		// s:space_word?
+		{
+			pos14 := pos
+			// space_word?
+			{
+				pos16 := pos
+				// space_word
+				if !_fail(parser, _space_wordFail, errPos, failure, &pos) {
+					goto fail17
+				}
+				goto ok18
+			fail17:
+				pos = pos16
+			ok18:
 			}
-			goto ok2
-		fail6:
-			pos = pos5
-			// toned_function_word
-			if !_fail(parser, _toned_function_wordFail, errPos, failure, &pos) {
-				goto fail7
+			labels[1] = parser.text[pos14:pos]
+		}
+		goto ok0
+	fail4:
+		pos = pos3
+		// action
+		// m:moq q:(questions?) s1:space_word?
+		// m:moq
+		{
+			pos21 := pos
+			// moq
+			if !_fail(parser, _moqFail, errPos, failure, &pos) {
+				goto fail19
 			}
-			goto ok2
-		fail7:
-			pos = pos5
-			// neutral_function_word
-			if !_fail(parser, _neutral_function_wordFail, errPos, failure, &pos) {
-				goto fail8
+			labels[2] = parser.text[pos21:pos]
+		}
+		// q:(questions?)
+		{
+			pos22 := pos
+			// (questions?)
+			// questions?
+			{
+				pos24 := pos
+				// questions
+				if !_fail(parser, _questionsFail, errPos, failure, &pos) {
+					goto fail25
+				}
+				goto ok26
+			fail25:
+				pos = pos24
+			ok26:
 			}
-			goto ok2
-		fail8:
-			pos = pos5
-			goto fail
-		ok2:
+			labels[3] = parser.text[pos22:pos]
 		}
-		labels[0] = parser.text[pos1:pos]
-	}
-	// s:space_word?
-	{
-		pos9 := pos
-		// space_word?
+		// s1:space_word?
 		{
-			pos11 := pos
-			// space_word
-			if !_fail(parser, _space_wordFail, errPos, failure, &pos) {
-				goto fail12
+			pos27 := pos
+			// space_word?
+			{
+				pos29 := pos
+				// space_word
+				if !_fail(parser, _space_wordFail, errPos, failure, &pos) {
+					goto fail30
+				}
+				goto ok31
+			fail30:
+				pos = pos29
+			ok31:
 			}
-			goto ok13
-		fail12:
-			pos = pos11
-		ok13:
+			labels[4] = parser.text[pos27:pos]
 		}
-		labels[1] = parser.text[pos9:pos]
+		goto ok0
+	fail19:
+		pos = pos3
+		goto fail
+	ok0:
 	}
 	parser.fail[key] = failure
 	return pos, failure
@@ -18376,10 +18563,13 @@ fail:
 }
 
 func _wordAction(parser *_Parser, start int) (int, *(*Word)) {
-	var labels [2]string
+	var labels [5]string
 	use(labels)
 	var label0 string
 	var label1 *Mod
+	var label2 Word
+	var label3 *Mod
+	var label4 *Mod
 	dp := parser.deltaPos[start][_word]
 	if dp < 0 {
 		return -1, nil
@@ -18392,83 +18582,165 @@ func _wordAction(parser *_Parser, start int) (int, *(*Word)) {
 	}
 	var node (*Word)
 	pos := start
-	// action
+	// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word? {…}/m:moq q:(questions?) s1:space_word? {…}
 	{
-		start0 := pos
-		// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word?
-		// w:(non_function_word/toned_function_word/neutral_function_word)
+		pos3 := pos
+		var node2 (*Word)
+		// action
 		{
-			pos2 := pos
-			// (non_function_word/toned_function_word/neutral_function_word)
-			// non_function_word/toned_function_word/neutral_function_word
+			start5 := pos
+			// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word?
+			// w:(non_function_word/toned_function_word/neutral_function_word)
 			{
-				pos6 := pos
-				var node5 string
-				// non_function_word
-				if p, n := _non_function_wordAction(parser, pos); n == nil {
-					goto fail7
-				} else {
-					label0 = *n
-					pos = p
-				}
-				goto ok3
-			fail7:
-				label0 = node5
-				pos = pos6
-				// toned_function_word
-				if p, n := _toned_function_wordAction(parser, pos); n == nil {
-					goto fail8
-				} else {
-					label0 = *n
-					pos = p
+				pos7 := pos
+				// (non_function_word/toned_function_word/neutral_function_word)
+				// non_function_word/toned_function_word/neutral_function_word
+				{
+					pos11 := pos
+					var node10 string
+					// non_function_word
+					if p, n := _non_function_wordAction(parser, pos); n == nil {
+						goto fail12
+					} else {
+						label0 = *n
+						pos = p
+					}
+					goto ok8
+				fail12:
+					label0 = node10
+					pos = pos11
+					// toned_function_word
+					if p, n := _toned_function_wordAction(parser, pos); n == nil {
+						goto fail13
+					} else {
+						label0 = *n
+						pos = p
+					}
+					goto ok8
+				fail13:
+					label0 = node10
+					pos = pos11
+					// neutral_function_word
+					if p, n := _neutral_function_wordAction(parser, pos); n == nil {
+						goto fail14
+					} else {
+						label0 = *n
+						pos = p
+					}
+					goto ok8
+				fail14:
+					label0 = node10
+					pos = pos11
+					goto fail4
+				ok8:
 				}
-				goto ok3
-			fail8:
-				label0 = node5
-				pos = pos6
-				// neutral_function_word
-				if p, n := _neutral_function_wordAction(parser, pos); n == nil {
-					goto fail9
-				} else {
-					label0 = *n
-					pos = p
+				labels[0] = parser.text[pos7:pos]
+			}
+			// s:space_word?
+			{
+				pos15 := pos
+				// space_word?
+				{
+					pos17 := pos
+					label1 = new(Mod)
+					// space_word
+					if p, n := _space_wordAction(parser, pos); n == nil {
+						goto fail18
+					} else {
+						*label1 = *n
+						pos = p
+					}
+					goto ok19
+				fail18:
+					label1 = nil
+					pos = pos17
+				ok19:
 				}
-				goto ok3
-			fail9:
-				label0 = node5
-				pos = pos6
-				goto fail
-			ok3:
+				labels[1] = parser.text[pos15:pos]
 			}
-			labels[0] = parser.text[pos2:pos]
+			node = func(
+				start, end int, s *Mod, w string) *Word {
+				return (*Word)(spacedWord(Word{S: start, E: end, T: w}, s))
+			}(
+				start5, pos, label1, label0)
 		}
-		// s:space_word?
+		goto ok0
+	fail4:
+		node = node2
+		pos = pos3
+		// action
 		{
-			pos10 := pos
-			// space_word?
+			start21 := pos
+			// m:moq q:(questions?) s1:space_word?
+			// m:moq
 			{
-				pos12 := pos
-				label1 = new(Mod)
-				// space_word
-				if p, n := _space_wordAction(parser, pos); n == nil {
-					goto fail13
+				pos23 := pos
+				// moq
+				if p, n := _moqAction(parser, pos); n == nil {
+					goto fail20
 				} else {
-					*label1 = *n
+					label2 = *n
 					pos = p
 				}
-				goto ok14
-			fail13:
-				label1 = nil
-				pos = pos12
-			ok14:
+				labels[2] = parser.text[pos23:pos]
+			}
+			// q:(questions?)
+			{
+				pos24 := pos
+				// (questions?)
+				// questions?
+				{
+					pos26 := pos
+					label3 = new(Mod)
+					// questions
+					if p, n := _questionsAction(parser, pos); n == nil {
+						goto fail27
+					} else {
+						*label3 = *n
+						pos = p
+					}
+					goto ok28
+				fail27:
+					label3 = nil
+					pos = pos26
+				ok28:
+				}
+				labels[3] = parser.text[pos24:pos]
+			}
+			// s1:space_word?
+			{
+				pos29 := pos
+				// space_word?
+				{
+					pos31 := pos
+					label4 = new(Mod)
+					// space_word
+					if p, n := _space_wordAction(parser, pos); n == nil {
+						goto fail32
+					} else {
+						*label4 = *n
+						pos = p
+					}
+					goto ok33
+				fail32:
+					label4 = nil
+					pos = pos31
+				ok33:
+				}
+				labels[4] = parser.text[pos29:pos]
 			}
-			labels[1] = parser.text[pos10:pos]
+			node = func(
+				start, end int, m Word, q *Mod, s *Mod, s1 *Mod, w string) *Word {
+				return (*Word)(m.mod(q).mod(s1))
+			}(
+				start21, pos, label2, label3, label1, label4, label0)
 		}
-		node = func(
-			start, end int, s *Mod, w string) *Word {
-			return (*Word)(Word{S: start, E: end, T: w}.mod(s))
-		}(
-			start0, pos, label1, label0)
+		goto ok0
+	fail20:
+		node = node2
+		pos = pos3
+		goto fail
+	ok0:
 	}
 	parser.act[key] = node
 	return pos, &node
@@ -19033,7 +19305,7 @@ func _toned_function_wordAccepts(parser *_Parser, start int) (deltaPos, deltaErr
 		return dp, de
 	}
 	pos, perr := start, -1
-	// !neutral_syllable (LU/MI/MO/PO)
+	// !neutral_syllable &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 	// !neutral_syllable
 	{
 		pos2 := pos
@@ -19049,40 +19321,74 @@ func _toned_function_wordAccepts(parser *_Parser, start int) (deltaPos, deltaErr
 		pos = pos2
 		perr = perr4
 	}
-	// (LU/MI/MO/PO)
-	// LU/MI/MO/PO
+	// &(LU/MI/MO/PO)
 	{
-		pos8 := pos
-		// LU
-		if !_accept(parser, _LUAccepts, &pos, &perr) {
-			goto fail9
-		}
-		goto ok5
-	fail9:
-		pos = pos8
-		// MI
-		if !_accept(parser, _MIAccepts, &pos, &perr) {
-			goto fail10
-		}
-		goto ok5
-	fail10:
-		pos = pos8
-		// MO
-		if !_accept(parser, _MOAccepts, &pos, &perr) {
-			goto fail11
-		}
-		goto ok5
-	fail11:
-		pos = pos8
-		// PO
-		if !_accept(parser, _POAccepts, &pos, &perr) {
-			goto fail12
+		pos6 := pos
+		perr8 := perr
+		// (LU/MI/MO/PO)
+		// LU/MI/MO/PO
+		{
+			pos13 := pos
+			// LU
+			if !_accept(parser, _LUAccepts, &pos, &perr) {
+				goto fail14
+			}
+			goto ok10
+		fail14:
+			pos = pos13
+			// MI
+			if !_accept(parser, _MIAccepts, &pos, &perr) {
+				goto fail15
+			}
+			goto ok10
+		fail15:
+			pos = pos13
+			// MO
+			if !_accept(parser, _MOAccepts, &pos, &perr) {
+				goto fail16
+			}
+			goto ok10
+		fail16:
+			pos = pos13
+			// PO
+			if !_accept(parser, _POAccepts, &pos, &perr) {
+				goto fail17
+			}
+			goto ok10
+		fail17:
+			pos = pos13
+			goto fail9
+		ok10:
 		}
 		goto ok5
-	fail12:
-		pos = pos8
+	fail9:
+		pos = pos6
+		perr = _max(perr8, pos)
 		goto fail
 	ok5:
+		pos = pos6
+		perr = perr8
+	}
+	// (initial_syllable/compound_syllable)
+	// initial_syllable/compound_syllable
+	{
+		pos21 := pos
+		// initial_syllable
+		if !_accept(parser, _initial_syllableAccepts, &pos, &perr) {
+			goto fail22
+		}
+		goto ok18
+	fail22:
+		pos = pos21
+		// compound_syllable
+		if !_accept(parser, _compound_syllableAccepts, &pos, &perr) {
+			goto fail23
+		}
+		goto ok18
+	fail23:
+		pos = pos21
+		goto fail
+	ok18:
 	}
 	return _memoize(parser, _toned_function_word, start, pos, perr)
 fail:
@@ -19101,7 +19407,7 @@ func _toned_function_wordNode(parser *_Parser, start int) (int, *peg.Node) {
 	}
 	pos := start
 	node = &peg.Node{Name: "toned_function_word"}
-	// !neutral_syllable (LU/MI/MO/PO)
+	// !neutral_syllable &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 	// !neutral_syllable
 	{
 		pos2 := pos
@@ -19117,51 +19423,93 @@ func _toned_function_wordNode(parser *_Parser, start int) (int, *peg.Node) {
 		pos = pos2
 		node.Kids = node.Kids[:nkids3]
 	}
-	// (LU/MI/MO/PO)
+	// &(LU/MI/MO/PO)
 	{
-		nkids5 := len(node.Kids)
-		pos06 := pos
-		// LU/MI/MO/PO
+		pos6 := pos
+		nkids7 := len(node.Kids)
+		// (LU/MI/MO/PO)
 		{
-			pos10 := pos
-			nkids8 := len(node.Kids)
-			// LU
-			if !_node(parser, _LUNode, node, &pos) {
-				goto fail11
-			}
-			goto ok7
-		fail11:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
-			// MI
-			if !_node(parser, _MINode, node, &pos) {
-				goto fail12
+			nkids10 := len(node.Kids)
+			pos011 := pos
+			// LU/MI/MO/PO
+			{
+				pos15 := pos
+				nkids13 := len(node.Kids)
+				// LU
+				if !_node(parser, _LUNode, node, &pos) {
+					goto fail16
+				}
+				goto ok12
+			fail16:
+				node.Kids = node.Kids[:nkids13]
+				pos = pos15
+				// MI
+				if !_node(parser, _MINode, node, &pos) {
+					goto fail17
+				}
+				goto ok12
+			fail17:
+				node.Kids = node.Kids[:nkids13]
+				pos = pos15
+				// MO
+				if !_node(parser, _MONode, node, &pos) {
+					goto fail18
+				}
+				goto ok12
+			fail18:
+				node.Kids = node.Kids[:nkids13]
+				pos = pos15
+				// PO
+				if !_node(parser, _PONode, node, &pos) {
+					goto fail19
+				}
+				goto ok12
+			fail19:
+				node.Kids = node.Kids[:nkids13]
+				pos = pos15
+				goto fail9
+			ok12:
 			}
-			goto ok7
-		fail12:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
-			// MO
-			if !_node(parser, _MONode, node, &pos) {
-				goto fail13
+			sub := _sub(parser, pos011, pos, node.Kids[nkids10:])
+			node.Kids = append(node.Kids[:nkids10], sub)
+		}
+		goto ok5
+	fail9:
+		pos = pos6
+		goto fail
+	ok5:
+		pos = pos6
+		node.Kids = node.Kids[:nkids7]
+	}
+	// (initial_syllable/compound_syllable)
+	{
+		nkids20 := len(node.Kids)
+		pos021 := pos
+		// initial_syllable/compound_syllable
+		{
+			pos25 := pos
+			nkids23 := len(node.Kids)
+			// initial_syllable
+			if !_node(parser, _initial_syllableNode, node, &pos) {
+				goto fail26
 			}
-			goto ok7
-		fail13:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
-			// PO
-			if !_node(parser, _PONode, node, &pos) {
-				goto fail14
+			goto ok22
+		fail26:
+			node.Kids = node.Kids[:nkids23]
+			pos = pos25
+			// compound_syllable
+			if !_node(parser, _compound_syllableNode, node, &pos) {
+				goto fail27
 			}
-			goto ok7
-		fail14:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
+			goto ok22
+		fail27:
+			node.Kids = node.Kids[:nkids23]
+			pos = pos25
 			goto fail
-		ok7:
+		ok22:
 		}
-		sub := _sub(parser, pos06, pos, node.Kids[nkids5:])
-		node.Kids = append(node.Kids[:nkids5], sub)
+		sub := _sub(parser, pos021, pos, node.Kids[nkids20:])
+		node.Kids = append(node.Kids[:nkids20], sub)
 	}
 	node.Text = parser.text[start:pos]
 	parser.node[key] = node
@@ -19180,7 +19528,7 @@ func _toned_function_wordFail(parser *_Parser, start, errPos int) (int, *peg.Fai
 		Pos:  int(start),
 	}
 	key := _key{start: start, rule: _toned_function_word}
-	// !neutral_syllable (LU/MI/MO/PO)
+	// !neutral_syllable &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 	// !neutral_syllable
 	{
 		pos2 := pos
@@ -19202,40 +19550,80 @@ func _toned_function_wordFail(parser *_Parser, start, errPos int) (int, *peg.Fai
 		pos = pos2
 		failure.Kids = failure.Kids[:nkids3]
 	}
-	// (LU/MI/MO/PO)
-	// LU/MI/MO/PO
+	// &(LU/MI/MO/PO)
 	{
-		pos8 := pos
-		// LU
-		if !_fail(parser, _LUFail, errPos, failure, &pos) {
+		pos6 := pos
+		nkids7 := len(failure.Kids)
+		// (LU/MI/MO/PO)
+		// LU/MI/MO/PO
+		{
+			pos13 := pos
+			// LU
+			if !_fail(parser, _LUFail, errPos, failure, &pos) {
+				goto fail14
+			}
+			goto ok10
+		fail14:
+			pos = pos13
+			// MI
+			if !_fail(parser, _MIFail, errPos, failure, &pos) {
+				goto fail15
+			}
+			goto ok10
+		fail15:
+			pos = pos13
+			// MO
+			if !_fail(parser, _MOFail, errPos, failure, &pos) {
+				goto fail16
+			}
+			goto ok10
+		fail16:
+			pos = pos13
+			// PO
+			if !_fail(parser, _POFail, errPos, failure, &pos) {
+				goto fail17
+			}
+			goto ok10
+		fail17:
+			pos = pos13
 			goto fail9
+		ok10:
 		}
 		goto ok5
 	fail9:
-		pos = pos8
-		// MI
-		if !_fail(parser, _MIFail, errPos, failure, &pos) {
-			goto fail10
+		pos = pos6
+		failure.Kids = failure.Kids[:nkids7]
+		if pos >= errPos {
+			failure.Kids = append(failure.Kids, &peg.Fail{
+				Pos:  int(pos),
+				Want: "&(LU/MI/MO/PO)",
+			})
 		}
-		goto ok5
-	fail10:
-		pos = pos8
-		// MO
-		if !_fail(parser, _MOFail, errPos, failure, &pos) {
-			goto fail11
+		goto fail
+	ok5:
+		pos = pos6
+		failure.Kids = failure.Kids[:nkids7]
+	}
+	// (initial_syllable/compound_syllable)
+	// initial_syllable/compound_syllable
+	{
+		pos21 := pos
+		// initial_syllable
+		if !_fail(parser, _initial_syllableFail, errPos, failure, &pos) {
+			goto fail22
 		}
-		goto ok5
-	fail11:
-		pos = pos8
-		// PO
-		if !_fail(parser, _POFail, errPos, failure, &pos) {
-			goto fail12
+		goto ok18
+	fail22:
+		pos = pos21
+		// compound_syllable
+		if !_fail(parser, _compound_syllableFail, errPos, failure, &pos) {
+			goto fail23
 		}
-		goto ok5
-	fail12:
-		pos = pos8
+		goto ok18
+	fail23:
+		pos = pos21
 		goto fail
-	ok5:
+	ok18:
 	}
 	parser.fail[key] = failure
 	return pos, failure
@@ -19257,7 +19645,7 @@ func _toned_function_wordAction(parser *_Parser, start int) (int, *string) {
 	}
 	var node string
 	pos := start
-	// !neutral_syllable (LU/MI/MO/PO)
+	// !neutral_syllable &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 	{
 		var node0 string
 		// !neutral_syllable
@@ -19276,57 +19664,90 @@ func _toned_function_wordAction(parser *_Parser, start int) (int, *string) {
 			node0 = ""
 		}
 		node, node0 = node+node0, ""
-		// (LU/MI/MO/PO)
-		// LU/MI/MO/PO
+		// &(LU/MI/MO/PO)
 		{
-			pos8 := pos
-			var node7 string
-			// LU
-			if p, n := _LUAction(parser, pos); n == nil {
+			pos6 := pos
+			// (LU/MI/MO/PO)
+			// LU/MI/MO/PO
+			{
+				pos13 := pos
+				// LU
+				if p, n := _LUAction(parser, pos); n == nil {
+					goto fail14
+				} else {
+					pos = p
+				}
+				goto ok10
+			fail14:
+				pos = pos13
+				// MI
+				if p, n := _MIAction(parser, pos); n == nil {
+					goto fail15
+				} else {
+					pos = p
+				}
+				goto ok10
+			fail15:
+				pos = pos13
+				// MO
+				if p, n := _MOAction(parser, pos); n == nil {
+					goto fail16
+				} else {
+					pos = p
+				}
+				goto ok10
+			fail16:
+				pos = pos13
+				// PO
+				if p, n := _POAction(parser, pos); n == nil {
+					goto fail17
+				} else {
+					pos = p
+				}
+				goto ok10
+			fail17:
+				pos = pos13
 				goto fail9
-			} else {
-				node0 = *n
-				pos = p
+			ok10:
 			}
 			goto ok5
 		fail9:
-			node0 = node7
-			pos = pos8
-			// MI
-			if p, n := _MIAction(parser, pos); n == nil {
-				goto fail10
-			} else {
-				node0 = *n
-				pos = p
-			}
-			goto ok5
-		fail10:
-			node0 = node7
-			pos = pos8
-			// MO
-			if p, n := _MOAction(parser, pos); n == nil {
-				goto fail11
+			pos = pos6
+			goto fail
+		ok5:
+			pos = pos6
+			node0 = ""
+		}
+		node, node0 = node+node0, ""
+		// (initial_syllable/compound_syllable)
+		// initial_syllable/compound_syllable
+		{
+			pos21 := pos
+			var node20 string
+			// initial_syllable
+			if p, n := _initial_syllableAction(parser, pos); n == nil {
+				goto fail22
 			} else {
 				node0 = *n
 				pos = p
 			}
-			goto ok5
-		fail11:
-			node0 = node7
-			pos = pos8
-			// PO
-			if p, n := _POAction(parser, pos); n == nil {
-				goto fail12
+			goto ok18
+		fail22:
+			node0 = node20
+			pos = pos21
+			// compound_syllable
+			if p, n := _compound_syllableAction(parser, pos); n == nil {
+				goto fail23
 			} else {
 				node0 = *n
 				pos = p
 			}
-			goto ok5
-		fail12:
-			node0 = node7
-			pos = pos8
+			goto ok18
+		fail23:
+			node0 = node20
+			pos = pos21
 			goto fail
-		ok5:
+		ok18:
 		}
 		node, node0 = node+node0, ""
 	}
diff --git a/ast/toaq.peg b/ast/toaq.peg
index a9a9ffa..ab65d96 100644
--- a/ast/toaq.peg
+++ b/ast/toaq.peg
@@ -97,11 +97,11 @@ parenthetical <- parenthetical_1 _ end_parenthetical
 parenthetical_1 <- start_parenthetical _ discourse
 incidental <- start_incidental _ statement
 vocative <- vocative_marker _ argument
-word <- (non_function_word/toned_function_word/neutral_function_word) space_word?
+word <- (non_function_word/toned_function_word/neutral_function_word) space_word?/moq (questions?) space_word?
 predicate_word<syllable> <- (syllable compound_syllable+/!function_word syllable)
 non_function_word <- initial_syllable compound_syllable+/!function_word initial_syllable
 neutral_function_word <- !toned_function_word &function_word neutral_syllable
-toned_function_word <- !neutral_syllable (LU/MI/MO/PO)
+toned_function_word <- !neutral_syllable &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 initial_syllable <- arg_syllable/relative_syllable/verb_syllable/content_syllable/preposition_syllable/adverb_syllable
 focus <- &KU neutral_syllable
 end_quote <- &TEO neutral_syllable
@@ -183,14 +183,13 @@ compound_tone <- [\-1]
 é <- [éÉ]/e (acute_combiner/arg_tone)
 acute_combiner "◌́" <- "\u0301"
 arg_tone <- [/2]
-ǎ <- [ǎǍăĂäÄ]/a (caron_combiner/breve_combiner/diaeresis_combiner/relative_tone)
-ǔ <- [ǔǓŭŬüÜ]/u (caron_combiner/breve_combiner/diaeresis_combiner/relative_tone)
-ǐ <- [ǐǏĭĬïÏ]/i (caron_combiner/breve_combiner/diaeresis_combiner/relative_tone)
-ǒ <- [ǒǑŏŎöÖ]/o (caron_combiner/breve_combiner/diaeresis_combiner/relative_tone)
-ě <- [ěĚĕĔëË]/e (caron_combiner/breve_combiner/diaeresis_combiner/relative_tone)
+ǎ <- [ǎǍăĂ]/a (caron_combiner/breve_combiner/relative_tone)
+ǔ <- [ǔǓŭŬ]/u (caron_combiner/breve_combiner/relative_tone)
+ǐ <- [ǐǏĭĬ]/i (caron_combiner/breve_combiner/relative_tone)
+ǒ <- [ǒǑŏŎ]/o (caron_combiner/breve_combiner/relative_tone)
+ě <- [ěĚĕĔ]/e (caron_combiner/breve_combiner/relative_tone)
 caron_combiner "◌̌" <- "\u030c"
 breve_combiner "◌̆" <- "\u0306"
-diaeresis_combiner "◌̈" <- "\u0308"
 relative_tone <- [V3]
 ả <- [ảẢ]/a (hook_combiner/verb_tone)
 ủ <- [ủỦ]/u (hook_combiner/verb_tone)
diff --git a/ast/toaq.peggy b/ast/toaq.peggy
index 9ba1973..e84abdf 100644
--- a/ast/toaq.peggy
+++ b/ast/toaq.peggy
@@ -358,7 +358,9 @@ word <- w:(
 		non_function_word /
 		toned_function_word /
 		neutral_function_word
-	) s:space_word? { return (*Word)(Word{S: start, E: end, T: w}.mod(s)) }
+	) s:space_word? { return (*Word)(spacedWord(Word{S: start, E: end, T: w}, s)) } /
+	# As in illocutionary, we allow ? after moq.
+	m:moq q:( questions? ) s1:space_word? { return (*Word)(m.mod(q).mod(s1)) }
 predicate_word<syllable> <- w:(
 		syllable compound_syllable+ /
 		!function_word syllable
@@ -368,7 +370,7 @@ non_function_word <-
 neutral_function_word <-
 	!toned_function_word &function_word neutral_syllable
 toned_function_word <-
-	!neutral_syllable ( LU / MI / MO / PO )
+	!neutral_syllable &( LU / MI / MO / PO ) ( initial_syllable / compound_syllable )
 initial_syllable <-
 	arg_syllable /
 	relative_syllable /
-- 
2.43.0


From 99eff1b6da55fb85094a8e861039eb0c3353238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 12/36] fix: tone.ToASCII put the tone marker before a final
 capital Q

The Q is part of the syllable: the marker follows it, as it follows q.
---
 tone/tone.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tone/tone.go b/tone/tone.go
index ce1893b..add95ae 100644
--- a/tone/tone.go
+++ b/tone/tone.go
@@ -160,7 +160,7 @@ func ToASCII(txt string) string {
 			continue
 		}
 		if t != None {
-			if !strings.ContainsRune(vowels, r) && r != 'q' {
+			if !strings.ContainsRune(vowels, r) && r != 'q' && r != 'Q' {
 				s.WriteRune(t)
 				t = None
 			}
-- 
2.43.0


From 5f9779cdcb2a1fb4cdd713cb56340b8b0b1238b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:43 +0000
Subject: [PATCH 13/36] fix: dict.Load panicked on a response without an error
 or without data

---
 dict/dict.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dict/dict.go b/dict/dict.go
index 25e3946..9926928 100644
--- a/dict/dict.go
+++ b/dict/dict.go
@@ -3,6 +3,7 @@ package dict
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"strings"
@@ -41,8 +42,14 @@ func Load(url string, query string) (map[string]Word, error) {
 		return nil, err
 	}
 	if !response.Success {
+		if response.Error == nil {
+			return nil, errors.New("Toadua returned an unspecified error")
+		}
 		return nil, fmt.Errorf("Toadua returned error: %s", *response.Error)
 	}
+	if response.Entries == nil {
+		return nil, errors.New("Toadua returned no data")
+	}
 	entries := *response.Entries
 	ws := make(map[string]Word)
 	for _, e := range entries {
-- 
2.43.0


From d456a14426220ddb0b237e04f71cdaaf7d51999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:44 +0000
Subject: [PATCH 14/36] fix: server reported a fragment when the interpreter
 panicked with an error

Only panics with a string were reported. Others, such as run-time
errors, were silently taken for a text of only fragments.
---
 server/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index bf6a6b7..3a4746a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,7 +2,7 @@ package main
 
 import (
 	"encoding/json"
-	"errors"
+	"fmt"
 	"html/template"
 	"io/ioutil"
 	"net/http"
@@ -86,8 +86,8 @@ func rootHandler(w http.ResponseWriter, req *http.Request) {
 // on some things that are unimplemented.
 func safeInterp(text *ast.Text) (st logic.Statement, err error) {
 	defer func() {
-		if str, ok := recover().(string); ok {
-			err = errors.New("bug: " + str)
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
 		}
 	}()
 	return logic.Interpret(text), nil
-- 
2.43.0


From fcfb844aab28fc77c6cf877caf1434815bbcc438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:45 +0000
Subject: [PATCH 15/36] fix: a message that the interpreter does not support
 killed the bot

The interpreter panics on some things that are unimplemented.
As the server does, the bot now replies with the panic instead.
---
 bot/bot.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/bot/bot.go b/bot/bot.go
index 2bc85ea..ed9e6f3 100644
--- a/bot/bot.go
+++ b/bot/bot.go
@@ -80,15 +80,29 @@ func parse(input string) string {
 		parse += "\n"
 	}
 	var math string
-	stmt := logic.Interpret(text)
-	if stmt == nil {
+	switch stmt, err := safeInterp(text); {
+	case err != nil:
+		math = err.Error()
+	case stmt == nil:
 		math = "fragment"
-	} else {
+	default:
 		math = logic.PrettyString(stmt)
 	}
 	return parse + math
 }
 
+// safeInterp calls the interpreter and recovers any panics.
+// The interpreter should not panic, but currently it does
+// on some things that are unimplemented.
+func safeInterp(text *ast.Text) (st logic.Statement, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
+		}
+	}()
+	return logic.Interpret(text), nil
+}
+
 func fixBridgeMessage(msg *chat.Message) {
 	if msg.From == nil ||
 		msg.From.Nick != "ToaqBridgeBot" ||
-- 
2.43.0


From f0fc0ba9100809a52c8509f2fdc3a03dcae1855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 16/36] fix: branches of connected arguments overwrote each
 other's terms

The terms of the left branch were interpreted with its connected
arguments replaced in place, so the right branch, and the second
interpretation of a preposition's statement, saw the replacements
instead of the original terms:
	mai? ji/ ru suq/ ho/ ru maq/
was missing mai(suq, ho).
---
 logic/interp.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 85573fb..be86ef8 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -515,7 +515,6 @@ func (interp *interpreter) poArgument(n ast.Node, pred Predicate, arg0 Argument,
 }
 
 // prenexStatement interprets a prenex statement using the given term list.
-// This function modifies the contents of the terms slice.
 func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatement, terms ast.Terms) Statement {
 	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
 
@@ -1088,10 +1087,9 @@ func goPos(w ast.Word) int {
 	panic("impossible: " + w.T)
 }
 
-// withTerm0 sets ts[0] to t and returns ts.
+// withTerm0 returns a copy of ts with ts[0] set to t.
 func withTerm0(t ast.Term, ts ast.Terms) ast.Terms {
-	ts[0] = t
-	return ts
+	return ts[1:].Prepend(t)
 }
 
 // hasFreeVars returns whether a logic-sub-tree has un-bound variables.
-- 
2.43.0


From 029bfa256695fc5ebcf59e64ffcff9b85130ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:01 +0000
Subject: [PATCH 17/36] fix: the right of a connected prepositional argument
 was ignored

---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index be86ef8..adb72be 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -680,7 +680,7 @@ func (interp *interpreter) predicationPreposition(p ast.Predicate, arg0 interfac
 		return &Connection{
 			Connector: connector(arg1.RU),
 			Left:      interp.predicationPreposition(p, arg0, arg1.Left.(ast.Argument)),
-			Right:     interp.predicationPreposition(p, arg0, arg1.Left.(ast.Argument)),
+			Right:     interp.predicationPreposition(p, arg0, arg1.Right.(ast.Argument)),
 			AST:       arg1,
 		}
 	default:
-- 
2.43.0


From 4c20329ddedd2b252206501b113c9b29db95971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:02 +0000
Subject: [PATCH 18/36] fix: a variable beginning with a capital D was not a
 variable

The name of a variable is compared case-insensitively,
but Do/ was not recognized as one.
---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index adb72be..19de062 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -1155,7 +1155,7 @@ var oLetters, oTones = func() ([]rune, []rune) {
 // If the text does not begin with "do" in any tone,
 // then false is returned.
 func splitVar(txt string) (rune, string, bool) {
-	if len(txt) < 1 || txt[0] != 'd' || txt[0] == 'D' {
+	if len(txt) < 1 || txt[0] != 'd' && txt[0] != 'D' {
 		return tone.None, "", false
 	}
 	r, w := utf8.DecodeRuneInString(txt[1:])
-- 
2.43.0


From 07c9fb8e4866862b20a407f3789f219800934d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:03 +0000
Subject: [PATCH 19/36] fix: a variable bound within a roi-phrase stayed in
 scope after it

The binding is inside of the restriction of the roi-phrase.
A later use of the variable referred to a binding it is not within:
	mai? sa do/ roi suq/ do/
---
 logic/interp.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index 19de062..9f103e1 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -733,6 +733,8 @@ func (interp *interpreter) adverb(n ast.Adverb, arg Argument) Statement {
 }
 
 func (interp *interpreter) roi(n *ast.CoPArgument) (*Binding, Argument) {
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	x := interp.newVar()
 	b := &Binding{N: x, Quantifier: The, AST: n}
 	a := &Variable{N: x, Def: b, AST: n}
-- 
2.43.0


From 56cd4395dc8c9b450df00a63c89dad07392eac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:04 +0000
Subject: [PATCH 20/36] fix: Interpret panicked on clauses connected to a
 statement

The grammar allows a statement to the right of an afterthought-connected
relative or content clause, and it makes the left of a forethought
connection of predicates in an argument a PredicateArgument.
Interpret expected a clause or a predicate in those places.
---
 logic/interp.go | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 9f103e1..a938071 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -376,8 +376,8 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 	case *ast.CoPPredicate:
 		return &predConnection{
 			con:   connector(n.RU),
-			left:  interp.predicate(n.Left.(ast.Predicate)),
-			right: interp.predicate(n.Right.(ast.Predicate)),
+			left:  interp.connectedPredicate(n.Left),
+			right: interp.connectedPredicate(n.Right),
 			AST:   n,
 		}
 	// Content clauses can be predicates when content argument
@@ -391,8 +391,8 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 	case *ast.CoPContent:
 		return &predConnection{
 			con:   connector(n.RU),
-			left:  interp.predicate(n.Left.(ast.Predicate)),
-			right: interp.predicate(n.Right.(ast.Predicate)),
+			left:  interp.contentPredicate(n.Left),
+			right: interp.contentPredicate(n.Right),
 			AST:   n,
 		}
 	case *ast.LUContent:
@@ -406,6 +406,25 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 	}
 }
 
+// connectedPredicate interprets either side of a predicate connection.
+// The left of a forethought connection in an argument
+// is an argument consisting of only a predicate.
+func (interp *interpreter) connectedPredicate(n ast.Node) interface{} {
+	if a, ok := n.(*ast.PredicateArgument); ok {
+		return interp.predicate(a.Predicate)
+	}
+	return interp.predicate(n.(ast.Predicate))
+}
+
+// contentPredicate interprets either side of a content clause connection.
+// The right of an afterthought connection is a statement.
+func (interp *interpreter) contentPredicate(n ast.Node) interface{} {
+	if p, ok := n.(ast.Predicate); ok {
+		return interp.predicate(p)
+	}
+	return interp.makeContentPred(n, interp.subordinateStatement(n.(ast.Statement)))
+}
+
 func (interp *interpreter) makeContentPred(n ast.Node, st Statement) Predicate {
 	equal := &Pred{Name: Equal, AST: n}
 	content := &Abstraction{Statement: st, AST: n}
@@ -954,8 +973,8 @@ func (interp *interpreter) relativeClause(b *Binding, n ast.Relative) Statement
 	case *ast.CoPRelative:
 		return &Connection{
 			Connector: connector(n.RU),
-			Left:      interp.relativeClause(nil, n.Left.(ast.Relative)),
-			Right:     interp.relativeClause(nil, n.Right.(ast.Relative)),
+			Left:      interp.connectedRelative(n.Left),
+			Right:     interp.connectedRelative(n.Right),
 			AST:       n,
 		}
 	default:
@@ -963,6 +982,15 @@ func (interp *interpreter) relativeClause(b *Binding, n ast.Relative) Statement
 	}
 }
 
+// connectedRelative interprets either side of a relative clause connection.
+// The right of an afterthought connection can be a statement.
+func (interp *interpreter) connectedRelative(n ast.Node) Statement {
+	if r, ok := n.(ast.Relative); ok {
+		return interp.relativeClause(nil, r)
+	}
+	return interp.subordinateStatement(n.(ast.Statement))
+}
+
 func (interp *interpreter) makePredication(pred ast.Predicate, args ...Argument) Statement {
 	var as arguments
 	for _, a := range args {
-- 
2.43.0


From c5be82c06325743b05150142da64285b45b753b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:06 +0000
Subject: [PATCH 21/36] =?UTF-8?q?fix:=20simplification=20dropped=20argumen?=
 =?UTF-8?q?ts=20and=20bindings=20of=20=CE=BB-predicates?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

If an argument is missing, the given ones do not correspond to the λs:
	lu? gi? hoa/ na go ji/
lost ji. And a λ-bound variable that is used as a predicate cannot be
substituted by an argument, but its binding was removed anyway:
	lu? hoa? ji/ na suq/
---
 logic/simplify.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/logic/simplify.go b/logic/simplify.go
index 514b385..aad9b87 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -115,15 +115,23 @@ func newState(n Statement) *state {
 		if !ok {
 			return
 		}
-		v, ok := p.Predicate.(*Variable)
-		if !ok {
-			return
-		}
-		s.predVars[v.N] = true
+		s.addPredVars(p.Predicate)
 	})
 	return s
 }
 
+func (s *state) addPredVars(p Predicate) {
+	switch p := p.(type) {
+	case *Variable:
+		s.predVars[p.N] = true
+	case *Serial:
+		s.addPredVars(p.Left)
+		s.addPredVars(p.Right)
+	case *Swap:
+		s.addPredVars(p.Predicate)
+	}
+}
+
 func (n *Binding) simplifyStatement(s *state) Statement {
 	if n.Restriction != nil {
 		n.Restriction = n.Restriction.simplifyStatement(s)
@@ -221,12 +229,21 @@ func lambdaSub(s *state, n *Predication, pred *Abstraction) Statement {
 		nlambda++
 		b, ok = b.Scope.(*Binding)
 	}
-	if nlambda == 0 || nargs != nlambda {
+	if nlambda == 0 || nargs != nlambda || len(n.Arguments) != nlambda {
 		return nil
 	}
 
 	var i int
 	st := pred.Statement
+	for i = 0; i < nlambda; i++ {
+		b := st.(*Binding)
+		if s.predVars[b.N] {
+			// This variable is used as a predicate; we cannot substitute it.
+			return nil
+		}
+		st = b.Scope
+	}
+	st = pred.Statement
 	for i = 0; i < nlambda; i++ {
 		b := st.(*Binding)
 		s.sub[b.N] = n.Arguments[i]
-- 
2.43.0


From 634cbb3fc0248f0570e08a372f40ae783c473dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:07 +0000
Subject: [PATCH 22/36] fix: simplification removed bindings that their
 restriction does not define

A binding is removed if its restriction equates a variable to a quote,
a plurality, or an abstraction; but the variable might not be the bound
one, or the bound one might also be used in what it is equated to.
---
 logic/simplify.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index aad9b87..ba4e226 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -165,6 +165,10 @@ func sub(s *state, n *Binding) bool {
 			return false
 		}
 	}
+	if l.N != n.N || usesVar(right, n.N) {
+		// This isn't a definition of the bound variable.
+		return false
+	}
 	if s.predVars[l.N] {
 		// This variable is used as a predicate; we cannot substitute it.
 		return false
@@ -178,6 +182,17 @@ func sub(s *state, n *Binding) bool {
 	return true
 }
 
+// usesVar returns whether the variable is used within the sub-tree.
+func usesVar(n Node, v int) bool {
+	used := false
+	n.Visit(func(n Node) {
+		if n, ok := n.(*Variable); ok && n.N == v {
+			used = true
+		}
+	})
+	return used
+}
+
 func (n *Connection) simplifyStatement(s *state) Statement {
 	n.Left = n.Left.simplifyStatement(s)
 	n.Right = n.Right.simplifyStatement(s)
-- 
2.43.0


From 4019716167af832a8006d491465f95be63455f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:08 +0000
Subject: [PATCH 23/36] =?UTF-8?q?fix:=20bindings=20were=20lifted=20over=20?=
 =?UTF-8?q?=CE=B9-bindings=20that=20are=20not=20at=20the=20top?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Not every ι-binding is lifted to the top-most scope: ke do/, a
roi-phrase, or one with the relative clause that is being interpreted.
A binding referring to one of those was lifted out of its scope:
	ke do/ bi mai? poq/ paiV do/
---
 logic/interp.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index a938071..abf16c6 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -604,7 +604,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 		return bindScope(b, st)
 	case ast.Preposition:
 		sub := interp.prenexStatement(args, n, terms[1:])
-		if hasFreeVars(sub) {
+		if interp.hasFreeVars(sub) {
 			return interp.preposition(t, &statementTail{args, n, terms[1:]})
 		}
 		x := interp.newVar()
@@ -627,7 +627,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 			Arguments: []Argument{a},
 			AST:       t,
 		}
-		if hasFreeVars(sub) {
+		if interp.hasFreeVars(sub) {
 			b.Quantifier = All
 			return bindScope(b, interp.adverb(t, a))
 		}
@@ -844,7 +844,7 @@ func (interp *interpreter) predicateArgument(n *ast.PredicateArgument) (*Binding
 	}
 
 	if b.Quantifier == The {
-		if hasFreeVars(b) {
+		if interp.hasFreeVars(b) {
 			b.Quantifier = All
 			return b, a
 		}
@@ -1122,16 +1122,20 @@ func withTerm0(t ast.Term, ts ast.Terms) ast.Terms {
 	return ts[1:].Prepend(t)
 }
 
-// hasFreeVars returns whether a logic-sub-tree has un-bound variables.
-func hasFreeVars(n Node) bool {
+// hasFreeVars returns whether a logic-sub-tree has variables
+// that are bound neither within it nor at the top-most scope.
+func (interp *interpreter) hasFreeVars(n Node) bool {
 	free := false
 	binds := make(map[*Binding]bool)
+	for _, b := range interp.theScope {
+		binds[b] = true
+	}
 	n.Visit(func(n Node) {
 		switch n := n.(type) {
 		case *Binding:
 			binds[n] = true
 		case *Variable:
-			if n.Def != nil && n.Def.Quantifier != The && !binds[n.Def] {
+			if n.Def != nil && !binds[n.Def] {
 				free = true
 			}
 		}
-- 
2.43.0


From b493501a1e6f064dfaabfb71797e90bbe213f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:09 +0000
Subject: [PATCH 24/36] fix: a second interpretation of a clause used the
 hi-binding of the first

A hi-binding is lifted to the top of its containing clause. If the
clause is interpreted again for another branch, it needs its own:
	sa do/ bi mai? ji/ ru suq/ gi^ do/ hi poq/
---
 logic/interp.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index abf16c6..0c004ba 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -175,6 +175,15 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 		interp.clearHiFreeVarDefs(scope, hi)
 		st = bindScope(hi, st)
 	}
+	// If the AST is interpreted again in another branch,
+	// that is outside of the scope of these bindings.
+	for n, b := range interp.liftedScope {
+		for _, hi := range hiScope {
+			if b == hi {
+				delete(interp.liftedScope, n)
+			}
+		}
+	}
 	return st
 }
 
-- 
2.43.0


From f4f8713e29805c52308b65ae4f057b2efe466a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:10 +0000
Subject: [PATCH 25/36] fix: variables within a hi-phrase that it was not
 lifted over were unbound

Those are the ones bound within the phrase itself, at the top-most
scope, and by the hoa of a containing clause:
	rai? hi mi/ Hoaq?
---
 logic/interp.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 0c004ba..5a9da0a 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -191,9 +191,19 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 // and assigns a new, unique number
 // to all Variables over which the hi-binding was lifted.
 func (interp *interpreter) clearHiFreeVarDefs(scope []varScope, hi *Binding) {
+	visible := make(map[*Binding]bool)
+	for _, b := range interp.theScope {
+		visible[b] = true
+	}
+	for _, b := range interp.hoaScope {
+		visible[b] = true
+	}
 	hi.Visit(func(n Node) {
+		if b, ok := n.(*Binding); ok {
+			visible[b] = true
+		}
 		v, ok := n.(*Variable)
-		if !ok {
+		if !ok || visible[v.Def] {
 			return
 		}
 		for _, s := range scope {
-- 
2.43.0


From 39547a9e3624aa52c9722de23a77b331a7355f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:21 +0000
Subject: [PATCH 26/36] fix: the syntax error was lost if a predicate had
 looked ahead of it

In the pass that collects the failures, rules beyond the error position
were cut off as failing, also within predicates that had succeeded,
so the failure after such a predicate was not reached: the error of "tora-"
was at offset 0 and wanted nothing.
---
 ast/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast/parser.go b/ast/parser.go
index 1372ad6..851a534 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -120,10 +120,12 @@ func (p *Parser) parse(
 	}
 	// Forget the fail nodes and the error position of other parses,
 	// so the error does not depend on calls made before this one.
+	// Rules beyond the error position must not be cut off:
+	// the predicates that were successful may look ahead of it.
 	// Note that perr is relative to start.
 	errPos := start + perr
 	p._Parser.fail = make(map[_key]*peg.Fail)
-	p._Parser.lastFail = errPos
+	p._Parser.lastFail = len(p._Parser.text)
 	_, failTree := ruleFail(p._Parser, start, errPos)
 	return p.parseError(failTree)
 }
-- 
2.43.0


From e0a7d4f161935cd91b1922b2eff67f24d6cb3c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:14 +0000
Subject: [PATCH 27/36] fix: tone.Tone gave the tone of a later syllable if the
 first has none

---
 tone/tone.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tone/tone.go b/tone/tone.go
index add95ae..e412e27 100644
--- a/tone/tone.go
+++ b/tone/tone.go
@@ -217,9 +217,15 @@ func WithTone(str string, t rune) string {
 // Tone returns the tone of first syllable of the string.
 func Tone(s string) rune {
 	ascii := ToASCII(s)
-	i := strings.IndexAny(ascii, toneNameRunes)
+	i := strings.IndexAny(ascii, vowels)
 	if i < 0 {
 		return None
 	}
-	return rune(ascii[i])
+	// The tone marker, if any, follows the rest of the syllable.
+	end := strings.TrimLeft(ascii[i:], vowels+"qQ")
+	r, _ := utf8.DecodeRuneInString(end)
+	if !strings.ContainsRune(toneNameRunes, r) {
+		return None
+	}
+	return r
 }
-- 
2.43.0


From f2c85726cf3ae4f18f2ade5f29a69e54b6b06ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:03 +0000
Subject: [PATCH 28/36] fix: a hi-binding that another one refers to lost its
 variable

---
 logic/interp.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 5a9da0a..28a03e0 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -167,11 +167,15 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 
 	st := f()
 
-	scope := interp.varScope
 	hiScope := interp.hiScope[len(interp.hiScope)-1]
 	for i := len(hiScope) - 1; i >= 0; i-- {
 		hi := hiScope[i]
-		scope = append(scope, varScope{"", hi})
+		// Visible are the variables outside of the statement
+		// and those of the hi-bindings that this one is within.
+		scope := append([]varScope{}, interp.varScope...)
+		for _, outer := range hiScope[:i+1] {
+			scope = append(scope, varScope{"", outer})
+		}
 		interp.clearHiFreeVarDefs(scope, hi)
 		st = bindScope(hi, st)
 	}
-- 
2.43.0


From 5cc5f98b3c0a8f3e0d880d6d13d89b7b814ace40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:04 +0000
Subject: [PATCH 29/36] fix: variables of one alternative were visible in the
 other within roi

---
 logic/interp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index 28a03e0..8f4dd8a 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -785,6 +785,8 @@ func (interp *interpreter) roi(n *ast.CoPArgument) (*Binding, Argument) {
 }
 
 func (interp *interpreter) roiLeft(x *Variable, left, right ast.Argument) Statement {
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	var a Argument
 	var b *Binding
 	switch n := left.(type) {
@@ -808,6 +810,8 @@ func (interp *interpreter) roiLeft(x *Variable, left, right ast.Argument) Statem
 }
 
 func (interp *interpreter) roiRight(x *Variable, left Argument, right ast.Argument) Statement {
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	var a Argument
 	var b *Binding
 	switch n := right.(type) {
-- 
2.43.0


From d63cbe1081965077fabe77ed4bbb0e83ce87efb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:18 +0000
Subject: [PATCH 30/36] fix: focus was lost on variables, hoa, and the second
 alternative of a distribution

---
 logic/interp.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 8f4dd8a..8b7f51f 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -848,7 +848,7 @@ func (interp *interpreter) predicateArgument(n *ast.PredicateArgument) (*Binding
 		// This was a ι- or hi-quantified predicate
 		// that already had its scope lifted
 		// by a previous conditional branch.
-		return nil, &Variable{N: b.N, Def: b, AST: n}
+		return nil, &Variable{N: b.N, Def: b, Focus: n.Focus != nil, AST: n}
 	}
 	if _, _, ok := isVariablePredicate(n.Predicate); ok {
 		return interp.varArgument(n)
@@ -909,7 +909,7 @@ func (interp *interpreter) varArgument(n *ast.PredicateArgument) (*Binding, Argu
 		b := &Binding{Quantifier: quantifier(n.Quantifier), AST: n}
 		x := interp.pushVar(s, b)
 		b.N = x
-		a := &Variable{N: x, Def: b, AST: n}
+		a := &Variable{N: x, Def: b, Focus: n.Focus != nil, AST: n}
 		if n.Relative != nil {
 			b.Restriction = interp.relativeClause(b, n.Relative)
 		}
@@ -919,12 +919,13 @@ func (interp *interpreter) varArgument(n *ast.PredicateArgument) (*Binding, Argu
 	x, def := interp.lookupVar(s)
 	ax := &Variable{N: x, Def: def, AST: n}
 	if n.Relative == nil {
+		ax.Focus = n.Focus != nil
 		return nil, ax
 	}
 
 	y := interp.newVar()
 	b := &Binding{N: y, Quantifier: All, AST: n}
-	ay := &Variable{N: y, Def: b, AST: n}
+	ay := &Variable{N: y, Def: b, Focus: n.Focus != nil, AST: n}
 	b.Restriction = &Connection{
 		Connector: And,
 		Left: &Predication{
@@ -943,19 +944,20 @@ func (interp *interpreter) hoaArgument(n *ast.PredicateArgument) (*Binding, Argu
 	}
 	if len(interp.hoaScope) == 0 {
 		// This is an un-bound, would-be λ-bound variable.
-		return nil, &Variable{N: interp.newVar(), AST: n}
+		return nil, &Variable{N: interp.newVar(), Focus: n.Focus != nil, AST: n}
 	}
 
 	def := interp.hoaScope[len(interp.hoaScope)-1]
 	x := def.N
 	ax := &Variable{N: x, Def: def, AST: n}
 	if n.Quantifier == nil && n.Relative == nil {
+		ax.Focus = n.Focus != nil
 		return nil, ax
 	}
 
 	y := interp.newVar()
 	b := &Binding{N: y, Quantifier: All, AST: n}
-	ay := &Variable{N: y, Def: b, AST: n}
+	ay := &Variable{N: y, Def: b, Focus: n.Focus != nil, AST: n}
 	b.Restriction = &Predication{
 		Predicate: &Pred{Name: Among, AST: n},
 		Arguments: []Argument{ay, ax},
-- 
2.43.0


From 67196f7c996ce474ea51ce8db1b3084bcc981321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:00 +0000
Subject: [PATCH 31/36] =?UTF-8?q?fix:=20an=20open=20place=20of=20=3D=20and?=
 =?UTF-8?q?=20=E2=89=BA=20was=20not=20printed?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 logic/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/string.go b/logic/string.go
index 218228e..4842a4a 100644
--- a/logic/string.go
+++ b/logic/string.go
@@ -57,7 +57,7 @@ func parens(n *Connection, arg Statement) (string, string) {
 
 func (n *Predication) print(pr *printer) error {
 	if p, ok := n.Predicate.(*Pred); ok && len(n.Arguments) == 2 && isBinOp(p) {
-		return pr.write(n.Arguments[0], p.Name, n.Arguments[1])
+		return pr.write(n.Arguments[:1], p.Name, n.Arguments[1:])
 	}
 	return pr.write(n.Predicate, "(", n.Arguments, ")")
 }
-- 
2.43.0


From ea367632e28b5329ea65815ac62c519ca781d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:25 +0000
Subject: [PATCH 32/36] fix: the dictionary generator removed "dict." from
 definitions

---
 dict/main.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dict/main.go b/dict/main.go
index 2ad08df..55ef52b 100644
--- a/dict/main.go
+++ b/dict/main.go
@@ -13,6 +13,7 @@ import (
 	"go/token"
 	"io"
 	"os"
+	"sort"
 	"strings"
 	"time"
 
@@ -41,11 +42,17 @@ func main() {
 	}
 	defer f.Close()
 
+	var words []string
+	for w, e := range ws {
+		// The source is in package dict itself.
+		word := strings.TrimPrefix(fmt.Sprintf("%#v", e), "dict.")
+		words = append(words, fmt.Sprintf("%q: %s", w, word))
+	}
+	sort.Strings(words)
 	src := fmt.Sprintf("package dict\n"+
 		"// Words contains the dictionary of words.\n"+
 		"// Last updated: %v.\n"+
-		"var Words = %#v\n", time.Now(), ws)
-	src = strings.Replace(src, "dict.", "", -1)
+		"var Words = map[string]Word{%s}\n", time.Now(), strings.Join(words, ", "))
 	if err := gofmt(f, src); err != nil {
 		fmt.Printf(err.Error())
 		os.Exit(1)
-- 
2.43.0


From f96371a76e667d10740f7bcafced444df1613f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:25 +0000
Subject: [PATCH 33/36] fix: the dictionary generator interpreted % in error
 messages

---
 dict/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dict/main.go b/dict/main.go
index 55ef52b..33a21bb 100644
--- a/dict/main.go
+++ b/dict/main.go
@@ -32,12 +32,12 @@ func main() {
 
 	ws, err := dict.Load(url, query)
 	if err != nil {
-		fmt.Printf(err.Error())
+		fmt.Println(err)
 		os.Exit(1)
 	}
 	f, err := os.Create(*out)
 	if err != nil {
-		fmt.Printf(err.Error())
+		fmt.Println(err)
 		os.Exit(1)
 	}
 	defer f.Close()
@@ -54,7 +54,7 @@ func main() {
 		"// Last updated: %v.\n"+
 		"var Words = map[string]Word{%s}\n", time.Now(), strings.Join(words, ", "))
 	if err := gofmt(f, src); err != nil {
-		fmt.Printf(err.Error())
+		fmt.Println(err)
 		os.Exit(1)
 	}
 }
-- 
2.43.0


From 68144b352f1aec5ccdf5c203ac4370bc5a1f35e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:19 +0000
Subject: [PATCH 34/36] fix: a late answer replaced that for the last text on
 the page

---
 server/template | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server/template b/server/template
index a726723..66b5030 100644
--- a/server/template
+++ b/server/template
@@ -97,8 +97,15 @@
 			textArea.focus();
 		}
 
+		// xhttp is the last request.
+		var xhttp = null;
+
 		function parse() {
-			var xhttp = new XMLHttpRequest();
+			// The answer to an earlier request must not replace this one's.
+			if (xhttp !== null) {
+				xhttp.abort();
+			}
+			xhttp = new XMLHttpRequest();
 			xhttp.onreadystatechange = function() {
 				if (this.readyState != 4 || this.status != 200) {
 					return;
-- 
2.43.0


From f8b655b57b4f23a873592a9442e21c62729e6b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:20 +0000
Subject: [PATCH 35/36] fix: the page selected the wrong place after characters
 beyond the BMP

---
 server/template | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/template b/server/template
index 66b5030..0d38555 100644
--- a/server/template
+++ b/server/template
@@ -91,7 +91,9 @@
 				offs += lines[i].length;
 			}
 			offs += line - 1; // newlines
-			offs += col - 1; // 0-indexed
+			// The column counts characters, but the selection UTF-16 code units.
+			var chars = Array.from(lines[line-1] || "");
+			offs += chars.slice(0, col-1).join("").length;
 			textArea.selectionStart = offs;
 			textArea.selectionEnd = text.length;
 			textArea.focus();
-- 
2.43.0


From 3c1d2f3579cd098b2ee2dad1e267ece6963b45a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:01 +0000
Subject: [PATCH 36/36] fix: stray brace in the dump of an interjection

---
 ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 070eeff..70e6482 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -684,7 +684,7 @@ func (n Vocative) mod(m *Mod) Mod {
 // An Interjection is an interjection word.
 type Interjection Word
 
-func (n Interjection) PrettyPrint() string         { return `Interjection("` + n.T + `"})` }
+func (n Interjection) PrettyPrint() string         { return `Interjection("` + n.T + `")` }
 func (n *Interjection) Start() int                 { return (*Word)(n).Start() }
 func (n *Interjection) End() int                   { return (*Word)(n).End() }
 func (n Interjection) modNode(m *Mod) Node         { return n.mod(m) }
-- 
2.43.0

