package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/toaq/ast"
)

func deepGen(r *rand.Rand, i int) string {
	if i%12 == 0 {
		return pumpText(r)
	}
	return genText(r)
}
func textGen(r *rand.Rand, i int) string { return genText(r) }
func goodGen(r *rand.Rand, i int) string { return genGood(r) }

const textRule = "Texts are generated from the grammar (weighted by random feature boosts, random tone notation, case, spacing and free modifiers), token- and byte-mutated, or noise; plus fixed hostile texts. "

func init() {
	register(&prop{id: "C01", quick: 64000, thorough: 400000, fixed: withLong(66000), gen: deepGen, check: checkC01,
		rule: textRule + "Non-trivial: a text of at least two words' length; distinct by text.", need: []string{"accepted", "rejected", "words read", "word errors"}})
	register(&prop{id: "C02", quick: 70000, thorough: 1000000, fixed: withLong(33500), more: func() []string { return append(exhaustiveTexts(), pairTexts()...) }, gen: tripleGen(70000, textGen), check: checkC02,
		rule: textRule + "Non-trivial: distinct reference derivations (rule structure without the words), or distinct rejected texts.", need: nodeNeeds("accepted", "rejected")})
	register(&prop{id: "C03", quick: 84000, thorough: 1000000, fixed: withLong(66000), more: exhaustiveTexts, gen: goodGen, check: checkC03,
		rule: textRule + "Non-trivial: accepted text with at least two words.", need: nodeNeeds("accepted", "words")})
	register(&prop{id: "C04", quick: 56000, thorough: 300000, more: syllableTexts, gen: textGen, check: checkC04,
		rule: textRule + "Each is re-spelled three times, each syllable in a random one of the notations and spaces added or removed. Non-trivial: accepted and re-spelled differently.", need: []string{"accepted", "rejected", "respellings"}})
	register(&prop{id: "C05", quick: 42000, thorough: 500000, fixed: withLong(33500), more: pairTexts, gen: tripleGen(42000, rejectedGen), check: checkC05,
		rule: textRule + "Non-trivial: rejected text, distinct by (text before the reported offset).", need: []string{"rejected", "errors at EOF", "errors after line 1"}})
	register(&prop{id: "C06", quick: 84000, thorough: 1000000, fixed: withLong(66000), gen: goodGen, check: checkC06,
		rule: textRule + "Non-trivial: accepted text with at least five nodes; the monitor asks every node.", need: nodeNeeds("accepted", "nodes")})
	register(&prop{id: "C08", quick: 20000, thorough: 300000, fixed: withLong(33500), gen: textGen, check: checkC08,
		rule: textRule + "Every text is read word by word, and words are requested at every offset (at most 120 per text). Non-trivial: texts with at least two words read.", need: []string{"accepted", "words read", "word errors"}})
	register(&prop{id: "C09", quick: 56000, thorough: 800000, fixed: withLong(66000), gen: goodGen, check: checkC09,
		rule: textRule + "The trace of visitor calls, with and without skipped subtrees, is compared with the trace specification. Non-trivial: accepted texts, distinct by shape of the trace.", need: nodeNeeds("events", "skips", "nodes: PrefixedPredicate")})
	register(&prop{id: "C10", quick: 20000, thorough: 120000, fixed: hostileTexts, gen: goodGen, check: checkC10,
		rule: textRule + "Every text is compared with itself, with single-point changes of itself, with the text before it, and its nodes with one another. Non-trivial: distinct (kind of change, node type) and accepted texts.", need: nodeNeeds("equal pairs", "unequal pairs", "single-point changes")})
	register(&prop{id: "C11", quick: 70000, thorough: 800000, fixed: withLong(66000), gen: goodGen, check: checkC11,
		rule: textRule + "Non-trivial: accepted text whose bracketed form has brackets.", need: nodeNeeds("accepted", "bracket pairs", "nodes: PrefixedPredicate")})
	register(&prop{id: "C12", quick: 40000, thorough: 300000, fixed: withLong(66000), more: exhaustiveTexts, gen: goodGen, check: checkC12,
		rule: textRule + "Non-trivial: accepted text with at least two words.", need: []string{"accepted", "words"}})
}

// nodeNeeds are the counters of the node types every run has to have observed.
func nodeNeeds(more ...string) []string {
	for _, t := range strings.Fields(`Text Discourse StatementSentence CoPSentence Prenex PrenexStatement Predication CoPStatement
		SerialPredicate WordPredicate MIPredicate POPredicate MOPredicate LUPredicate CoPPredicate LinkedTerm Terms TermSet
		PredicateArgument CoPArgument PredicationRelative LURelative CoPRelative PredicateAdverb CoPAdverb PredicationPreposition
		CoPPreposition PredicationContent LUContent CoPContent Parenthetical Incidental Vocative Interjection Space CoP LUPhrase Word`) {
		more = append(more, "nodes: "+t)
	}
	return more
}

func countNodes(o *obs, t ast.Node) {
	walk(t, func(n ast.Node) {
		s := fmt.Sprintf("%T", n)
		o.count("nodes: "+s[strings.IndexByte(s, '.')+1:], 1)
	})
}

func checkC01(o *obs, text string) string {
	p := ast.NewParser(text)
	t, err := p.Text()
	if (t == nil) == (err == nil) {
		return fmt.Sprintf("Text returned tree=%v and error=%v", t != nil, err)
	}
	p2 := ast.NewParser(text)
	tree, terr := p2.Tree()
	if (tree == nil) == (terr == nil) {
		return fmt.Sprintf("Tree returned tree=%v and error=%v", tree != nil, terr)
	}
	if (err == nil) != (terr == nil) {
		return fmt.Sprintf("Text gives error %v but Tree gives %v", err, terr)
	}
	if len(text) > 5 {
		o.nontrivial(text)
	}
	if err != nil {
		o.count("rejected", 1)
		for _, e := range []ast.Error{err, terr} {
			if e.Error() == "" {
				return "error without a message"
			}
			if off := e.ByteOffset(); off < 0 || off > len(text) {
				return fmt.Sprintf("error offset %d is not in the text of %d bytes", off, len(text))
			}
			if e.Tree() == nil {
				return "error without a failure tree"
			}
		}
	} else {
		o.count("accepted", 1)
		if tree.Text != text {
			return fmt.Sprintf("accepted, but the parse tree covers only %q", tree.Text)
		}
		if !utf8.ValidString(text) {
			return "invalid UTF-8 is accepted"
		}
	}
	for _, off := range offsets(text, 40) {
		w, n, err := p.Word(off)
		if (w == nil) == (err == nil) {
			return fmt.Sprintf("Word(%d) returned word=%v and error=%v", off, w != nil, err)
		}
		if err != nil {
			o.count("word errors", 1)
			if err.Error() == "" {
				return fmt.Sprintf("Word(%d): error without a message", off)
			}
			if e := err.ByteOffset(); e < 0 || e > len(text) {
				return fmt.Sprintf("Word(%d): error offset %d is not in the text of %d bytes", off, e, len(text))
			}
			continue
		}
		o.count("words read", 1)
		if n <= 0 || off+n > len(text) {
			return fmt.Sprintf("Word(%d) parsed %d of %d bytes", off, n, len(text))
		}
	}
	return ""
}

// offsets returns up to max offsets within the text.
func offsets(text string, max int) []int {
	var os []int
	if len(text) <= max {
		for i := 0; i < len(text); i++ {
			os = append(os, i)
		}
		return os
	}
	r := textRand("offsets", text)
	seen := map[int]bool{}
	for len(os) < max {
		i := r.Intn(len(text))
		if !seen[i] {
			seen[i] = true
			os = append(os, i)
		}
	}
	sort.Ints(os)
	return os
}

func shape(n *rnode, b *strings.Builder) {
	if n.end == n.start {
		return
	}
	switch n.base {
	case "predicate_word", "space_word", "initial", "desinence":
		b.WriteString(n.name)
		return
	}
	b.WriteString(n.name)
	b.WriteByte('(')
	for _, k := range n.kids {
		shape(k, b)
	}
	b.WriteByte(')')
}

func checkC02(o *obs, text string) string {
	root, _ := refParse(text)
	p := ast.NewParser(text)
	tree, err := p.Tree()
	if (root == nil) != (err != nil) {
		if root == nil {
			return "accepted, but the grammar does not derive the text"
		}
		return fmt.Sprintf("rejected (%v), but the grammar derives the text", err)
	}
	t, terr := p.Text()
	if (root == nil) != (terr != nil) {
		return fmt.Sprintf("Text: error %v, but the grammar derives the text: %v", terr, root != nil)
	}
	if root == nil {
		o.count("rejected", 1)
		o.nontrivial(text)
		return ""
	}
	o.count("accepted", 1)
	if what := compareTrees(o, text, root, tree); what != "" {
		return what
	}
	var b strings.Builder
	shape(root, &b)
	o.nontrivial(b.String())
	want := dump(refAST(text, root), dumpFull)
	got := dump(t, dumpFull)
	countNodes(o, t)
	if want != got {
		return "AST differs from that of the grammar: " + firstDiff(got, want)
	}
	return ""
}

// firstDiff shows where two strings differ.
func firstDiff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	from := i - 150
	if from < 0 {
		from = 0
	}
	end := func(s string) string {
		j := i + 250
		if j > len(s) {
			j = len(s)
		}
		if from > j {
			return ""
		}
		return s[from:j]
	}
	return fmt.Sprintf("\ngot  …%s\nwant …%s", end(got), end(want))
}

func compareTrees(o *obs, text string, root *rnode, tree *peg.Node) string {
	// Flatten both to (name, start, end) in pre-order; anonymous nodes are left out.
	type ev struct {
		name       string
		start, end int
		depth      int
	}
	var want, got []ev
	var fw func(n *rnode, d int)
	fw = func(n *rnode, d int) {
		want = append(want, ev{n.name, n.start, n.end, d})
		for _, k := range n.kids {
			fw(k, d+1)
		}
	}
	fw(root, 0)
	bad := ""
	var fg func(n *peg.Node, pos, d int)
	fg = func(n *peg.Node, pos, d int) {
		if n.Name != "" {
			got = append(got, ev{n.Name, pos, pos + len(n.Text), d})
			d++
		}
		if pos+len(n.Text) > len(text) || text[pos:pos+len(n.Text)] != n.Text {
			bad = fmt.Sprintf("parse tree node %q has text %q, not that of its place", n.Name, n.Text)
			return
		}
		q := pos
		for _, k := range n.Kids {
			fg(k, q, d)
			q += len(k.Text)
		}
		if len(n.Kids) > 0 && q != pos+len(n.Text) {
			bad = fmt.Sprintf("children of parse tree node %q do not make up its text %q", n.Name, n.Text)
		}
	}
	fg(tree, 0, 0)
	if bad != "" {
		return bad
	}
	o.count("parse tree nodes", len(got))
	for _, e := range got {
		o.count("rule: "+e.name, 1)
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) || i >= len(want) || got[i] != want[i] {
			g, w := "nothing", "nothing"
			if i < len(got) {
				g = fmt.Sprintf("%s [%d,%d) depth %d", got[i].name, got[i].start, got[i].end, got[i].depth)
			}
			if i < len(want) {
				w = fmt.Sprintf("%s [%d,%d) depth %d", want[i].name, want[i].start, want[i].end, want[i].depth)
			}
			return fmt.Sprintf("parse tree: got %s, want %s", g, w)
		}
	}
	return ""
}

// visitedWords uses ast.Visit.
func visitedWords(n ast.Node) []*ast.Word {
	var ws []*ast.Word
	ast.Visit(n, ast.FuncVisitor(func(n ast.Node) {
		if w, ok := n.(*ast.Word); ok {
			ws = append(ws, w)
		}
	}))
	return ws
}

func checkC03(o *obs, text string) string {
	t := accepted(text)
	if t == nil {
		o.count("rejected", 1)
		return ""
	}
	o.count("accepted", 1)
	ws := visitedWords(t)
	countNodes(o, t)
	o.count("words", len(ws))
	pos := 0
	var sp strings.Builder
	for i, w := range ws {
		if w.S != pos || w.E <= w.S || w.E > len(text) {
			return fmt.Sprintf("word %d %q is at [%d,%d), but the one before ended at %d of %d", i, w.T, w.S, w.E, pos, len(text))
		}
		raw := text[w.S:w.E]
		want := raw
		if !isSpaceText(raw) {
			want = normWord(raw)
		}
		if w.T != want {
			return fmt.Sprintf("word %d, %q in the text, is spelled %q, not %q", i, raw, w.T, want)
		}
		pos = w.E
		sp.WriteString(w.T)
	}
	if pos != len(text) {
		return fmt.Sprintf("words end at %d of %d bytes", pos, len(text))
	}
	if len(ws) > 1 {
		o.nontrivial(text)
	}
	t2, err := parse(sp.String())
	if err != nil {
		return fmt.Sprintf("its spelling %q is rejected: %v", sp.String(), err)
	}
	if !ast.Equal(t, t2) {
		return fmt.Sprintf("its spelling %q does not parse to an equal AST", sp.String())
	}
	if d, d2 := dump(t, dumpNoS), dump(t2, dumpNoS); d != d2 {
		return fmt.Sprintf("its spelling %q parses to a different AST: %s", sp.String(), firstDiff(d2, d))
	}
	return ""
}

// isSpaceText tells whether the text of a word has no letters.
func isSpaceText(s string) bool {
	for _, r := range s {
		if unicode.IsLetter(r) {
			return false
		}
	}
	return true
}

// respell splits a text into syllables and separators and re-renders it.
// It returns false if the text has something that is not a syllable (in a known notation).
type piece struct {
	s   syl
	sep string // verbatim text, if not ""
}

func splitText(text string) ([]piece, bool) {
	var ps []piece
	rs := []rune(text)
	if !utf8.ValidString(text) {
		return nil, false
	}
	isOnset := func(r rune) bool { return strings.ContainsRune("bcdfghjklmnprstBCDFGHJKLMNPRST", r) }
	base := func(r rune) (byte, byte, bool) { // letter, tone, ok
		if r == 'ı' {
			return 'i', 0, true
		}
		if strings.ContainsRune("aeiouAEIOU", r) {
			return byte(r), 0, true
		}
		if lt, ok := decomp[r]; ok {
			return byte(lt.letter), lt.tone, true
		}
		return 0, 0, false
	}
	i := 0
	for i < len(rs) {
		if !isOnset(rs[i]) {
			ps = append(ps, piece{sep: string(rs[i])})
			i++
			continue
		}
		j := i
		var letters []byte
		letters = append(letters, byte(rs[j]))
		j++
		if l := rs[j-1] | 0x20; j < len(rs) && (l == 'c' || l == 's') && (rs[j] == 'h' || rs[j] == 'H') {
			letters = append(letters, byte(rs[j]))
			j++
		}
		on := len(letters)
		s := syl{}
		nv := 0
		ok := true
	des:
		for j < len(rs) {
			if l, t, isv := base(rs[j]); isv {
				if t != 0 {
					if nv != 0 || s.tone != 0 {
						ok = false
						break
					}
					s.tone = t
				}
				letters = append(letters, l)
				nv++
				j++
				continue
			}
			switch r := rs[j]; {
			case nv > 0 && (combOf[r] != 0 || markOf[r] != 0):
				t, comb := markOf[r], combOf[r] != 0
				if comb {
					t = combOf[r]
				}
				if s.tone != 0 || (comb && nv != 1) {
					ok = false
					break des
				}
				if nv > 1 { // must be the end of the syllable
					s.tone = t
					j++
					if j < len(rs) {
						if _, _, isv := base(rs[j]); isv || rs[j] == 'q' || rs[j] == 'Q' || combOf[rs[j]] != 0 {
							ok = false
						}
					}
					break des
				}
				s.tone = t
				j++
				continue
			case nv > 0 && (r == 'q' || r == 'Q'):
				letters = append(letters, byte(r))
				j++
				if j < len(rs) && s.tone == 0 && markOf[rs[j]] != 0 {
					s.tone = markOf[rs[j]]
					j++
				}
				break des
			}
			break
		}
		if nv == 0 {
			ok = false
		}
		if !ok {
			return nil, false
		}
		for k := range letters {
			if letters[k] < 'a' {
				s.caps |= 1 << uint(k)
				letters[k] |= 0x20
			}
		}
		s.on, s.des = string(letters[:on]), string(letters[on:])
		if s.on+s.des == "moq" && s.tone == '?' {
			// moq? is moq and a question mark.
			return nil, false
		}
		ps = append(ps, piece{s: s})
		i = j
	}
	return ps, true
}

func respell(r *rand.Rand, ps []piece, respace bool) string {
	var b strings.Builder
	for i, p := range ps {
		if p.sep != "" {
			if respace && p.sep == " " && r.Intn(3) == 0 && i > 0 && i+1 < len(ps) && ps[i-1].sep == "" && ps[i+1].sep == "" && ps[i+1].s.tone != '-' {
				continue
			}
			b.WriteString(p.sep)
			continue
		}
		if respace && i > 0 && ps[i-1].sep == "" && p.s.tone != '-' && r.Intn(3) == 0 {
			b.WriteString([]string{" ", "  ", "\n", ", "}[r.Intn(4)])
		}
		b.WriteString(p.s.render(r.Intn(nStyles), r.Intn(2) == 0))
	}
	return b.String()
}

func checkC04(o *obs, text string) string {
	ps, ok := splitText(text)
	if !ok {
		o.count("not splittable", 1)
		return ""
	}
	r := textRand("C04", text)
	// Respacing separates syllables, so the text is first put into a canonical spacing form:
	// a syllable not in the level tone always begins a new word.
	t, err := parse(text)
	var want string
	if t != nil {
		o.count("accepted", 1)
		want = dump(t, dumpBare)
	} else {
		o.count("rejected", 1)
	}
	for i := 0; i < 3; i++ {
		s := respell(r, ps, i > 0)
		if s == text {
			continue
		}
		o.count("respellings", 1)
		t2, err2 := parse(s)
		if (err == nil) != (err2 == nil) {
			return fmt.Sprintf("accepted: %v (%v); but as %q: %v (%v)", err == nil, err, s, err2 == nil, err2)
		}
		if err != nil {
			continue
		}
		o.nontrivial(s)
		if got := dump(t2, dumpBare); got != want {
			return fmt.Sprintf("%q parses to a different AST: %s", s, firstDiff(got, want))
		}
	}
	return ""
}

func rejectedGen(r *rand.Rand, i int) string {
	for k := 0; k < 4; k++ {
		s := genText(r)
		if r.Intn(30) == 0 {
			s = pumpText(r)
		} else if r.Intn(5) == 0 {
			s = brokenSyllable(r)
		} else if r.Intn(3) > 0 {
			s = mutateBytes(r, s)
		}
		if r.Intn(4) == 0 {
			s = genGood(r) + "\n" + s
		}
		if root, _ := refParse(s); root == nil {
			return s
		}
	}
	return genText(r)
}

func checkC05(o *obs, text string) string {
	_, want := refParse(text)
	var wants map[string]bool
	for _, path := range []string{"", "dir/x.toaq"} {
		for _, tree := range []bool{false, true} {
			p := ast.NewParser(text)
			p.FilePath = path
			var err ast.Error
			if tree {
				_, err = p.Tree()
			} else {
				_, err = p.Text()
			}
			if err == nil {
				o.count("accepted", 1)
				return ""
			}
			off := err.ByteOffset()
			if off != want {
				return fmt.Sprintf("reported offset %d, but the furthest failure is at %d of %d", off, want, len(text))
			}
			if off < 0 || off > len(text) {
				return fmt.Sprintf("reported offset %d is not in the text", off)
			}
			line, col := 1, 1
			for _, r := range text[:off] {
				col++
				if r == '\n' {
					line++
					col = 1
				}
			}
			msg := err.Error()
			pre := fmt.Sprintf("%s:%d.%d: ", path, line, col)
			if !strings.HasPrefix(msg, pre) {
				return fmt.Sprintf("message %q does not begin with %q", msg, pre)
			}
			got := "EOF"
			if off < len(text) {
				end := off + 10
				if end > len(text) {
					end = len(text)
				}
				got = "'" + text[off:end] + "'"
			}
			if !strings.HasSuffix(msg, "got "+got) {
				return fmt.Sprintf("message %q does not show what is found at offset %d: %s", msg, off, got)
			}
			if wants == nil {
				wants = refWants(text, "full_text", 0, off)
				if end, _, _ := newRefParser(text).apply(refG.index["full_text"], 0); end >= 0 {
					// Accepted up to bytes that are not UTF-8.
					wants = map[string]bool{"EOF": true}
				}
			}
			if bad := diffWants(err, off, msg, wants); bad != "" {
				return bad
			}
			if bad := checkFailTree(err.Tree(), len(text), map[*peg.Fail]bool{}); bad != "" {
				return bad
			}
			if path == "" && !tree {
				o.count("rejected", 1)
				o.count("wants", len(wants))
				if off == len(text) {
					o.count("errors at EOF", 1)
				}
				if line > 1 {
					o.count("errors after line 1", 1)
				}
				o.nontrivial(text[:off])
			}
		}
	}
	return ""
}

// checkFailTree checks that every part of a failure tree begins within the text,
// and not before the part that it is part of.
func checkFailTree(f *peg.Fail, n int, seen map[*peg.Fail]bool) string {
	if seen[f] {
		return ""
	}
	seen[f] = true
	if f.Pos < 0 || f.Pos > n {
		return fmt.Sprintf("failure tree node %q is at %d of %d", f.Name, f.Pos, n)
	}
	for _, k := range f.Kids {
		if k.Pos < f.Pos {
			return fmt.Sprintf("failure tree node %q is at %d, before node %q at %d that it is part of", k.Name, k.Pos, f.Name, f.Pos)
		}
		if bad := checkFailTree(k, n, seen); bad != "" {
			return bad
		}
	}
	return ""
}

// diffWants compares what an error says it wants with what it should.
func diffWants(err ast.Error, off int, msg string, wants map[string]bool) string {
	got := make(map[string]bool)
	for _, f := range peg.LeafFails(err.Tree()) {
		w := normWant(f.Want)
		got[w] = true
		if f.Pos != off {
			return fmt.Sprintf("the error is at %d, but what it wants at %d", off, f.Pos)
		}
		if !wants[w] {
			return fmt.Sprintf("the error says %q is possible at offset %d, but it is not", f.Want, off)
		}
		if !strings.Contains(msg, f.Want) {
			return fmt.Sprintf("message %q does not mention %s", msg, f.Want)
		}
	}
	for w := range wants {
		if !got[w] {
			return fmt.Sprintf("the error does not say that %q is possible at offset %d: %s", w, off, msg)
		}
	}
	return ""
}

// ownWords returns the first and last word of a node's own, without what hangs on words.
func ownSpan(n ast.Node) (first, last *ast.Word) {
	if w, ok := n.(*ast.Word); ok {
		return w, w
	}
	if t, ok := n.(*ast.Text); ok {
		n = &t.Discourse
	}
	for _, k := range kids(n) {
		f, l := ownSpan(k)
		if f == nil {
			continue
		}
		if first == nil || f.S < first.S {
			first = f
		}
		if last == nil || l.E > last.E {
			last = l
		}
	}
	return first, last
}

func checkC06(o *obs, text string) string {
	t := accepted(text)
	if t == nil {
		o.count("rejected", 1)
		return ""
	}
	o.count("accepted", 1)
	countNodes(o, t)
	bad := ""
	nodes := 0
	fail := func(f string, args ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, args...)
		}
	}
	walk(t, func(n ast.Node) {
		if bad != "" {
			return
		}
		if d, ok := n.(*ast.Discourse); ok && len(*d) == 0 {
			return // has no span
		}
		nodes++
		s, e := n.Start(), n.End()
		f, l := ownSpan(n)
		if f == nil {
			if _, ok := n.(*ast.Text); !ok {
				fail("%T without words", n)
			} else if s != e || s < 0 || s > len(text) {
				fail("a text without words has span [%d,%d)", s, e)
			}
			return
		}
		if s != f.S {
			fail("%T starts at %d; its first word %q starts at %d", n, s, f.T, f.S)
		}
		if e != l.E {
			fail("%T ends at %d; its last word %q ends at %d", n, e, l.T, l.E)
		}
		if w, ok := n.(*ast.Word); ok {
			raw := text[w.S:w.E]
			if raw != w.T && normWord(raw) != w.T {
				fail("the span of word %q is that of %q", w.T, raw)
			}
			return
		}
		// children in order, disjoint, within the node.
		pos := s
		for i, k := range kids(n) {
			if _, ok := n.(*ast.Text); ok && i == 0 && t.Leading != nil {
				continue // leading space is before the discourse
			}
			ks, ke := k.Start(), k.End()
			if ks < pos || ke > e || ke < ks {
				fail("child %T [%d,%d) of %T [%d,%d) is out of place; siblings before it end at %d", k, ks, ke, n, s, e, pos)
			}
			pos = ke
		}
	})
	o.count("nodes", nodes)
	if nodes >= 5 {
		o.nontrivial(text)
	}
	return bad
}

func checkC08(o *obs, text string) string {
	p := ast.NewParser(text)
	// At every offset: the word the grammar's word rule derives there, or an error at or after it.
	for _, off := range offsets(text, 120) {
		w, n, err := p.Word(off)
		ref, refEnd := refWord(text, off)
		if (ref == nil) != (err != nil) {
			return fmt.Sprintf("Word(%d): error %v, but the grammar has a word there: %v", off, err, ref != nil)
		}
		if err != nil {
			o.count("word errors", 1)
			if e := err.ByteOffset(); e < off || e > len(text) {
				return fmt.Sprintf("Word(%d): the error is at %d", off, e)
			} else if e != refEnd {
				return fmt.Sprintf("Word(%d): the error is at %d; the furthest failure is at %d", off, e, refEnd)
			}
			if bad := diffWants(err, refEnd, err.Error(), refWants(text, "word", off, refEnd)); bad != "" {
				return fmt.Sprintf("Word(%d): %s", off, bad)
			}
			continue
		}
		o.count("words read", 1)
		if off+n != refEnd {
			return fmt.Sprintf("Word(%d) parsed %d bytes, not the %d of the word and its space", off, n, refEnd-off)
		}
		// word text ends where trailing space begins.
		end := refEnd
		for _, k := range ref.kids {
			if (k.base == "space_word" || k.base == "questions") && k.start < end {
				end = k.start
			}
		}
		if w.S != off || w.E != end || w.T != normWord(text[off:end]) {
			return fmt.Sprintf("Word(%d) is %q [%d,%d), not %q [%d,%d)", off, w.T, w.S, w.E, normWord(text[off:end]), off, end)
		}
		pos := w.E
		for m := w.M; m != nil; {
			s, ok := m.(*ast.Space)
			if !ok {
				return fmt.Sprintf("Word(%d): a %T hangs on it", off, m)
			}
			if s.S != pos || s.E > len(text) || s.E <= s.S || s.T != text[s.S:s.E] {
				return fmt.Sprintf("Word(%d): the space %q is at [%d,%d), not at %d", off, s.T, s.S, s.E, pos)
			}
			pos = s.E
			m = s.M
		}
		if pos != refEnd {
			return fmt.Sprintf("Word(%d): the trailing space ends at %d, not at %d", off, pos, refEnd)
		}
	}
	t := accepted(text)
	if t == nil {
		o.count("rejected", 1)
		return ""
	}
	o.count("accepted", 1)
	var ws []*ast.Word
	for _, w := range wordsOf(t) {
		if !isSpaceText(text[w.S:w.E]) {
			ws = append(ws, w)
		}
	}
	if len(ws) > 1 {
		o.nontrivial(text)
	}
	pos := 0
	if t.Leading != nil {
		pos = t.Leading.End()
	}
	for i, want := range ws {
		w, n, err := p.Word(pos)
		if err != nil {
			return fmt.Sprintf("reading word %d, %q, at %d: %v", i, want.T, pos, err)
		}
		if w.T != want.T || w.S != want.S || w.E != want.E {
			return fmt.Sprintf("word %d at %d is %q [%d,%d); the text has %q [%d,%d)", i, pos, w.T, w.S, w.E, want.T, want.S, want.E)
		}
		pos += n
		o.count("words walked", 1)
	}
	if pos != len(text) {
		return fmt.Sprintf("the last word ends at %d of %d", pos, len(text))
	}
	return ""
}

// A tracer is a visitor that records calls.
type tracer struct {
	t     *trace
	owner string // node for which it was returned
	id    int
}
type trace struct {
	events []string
	n      int
	skip   map[int]bool
	limit  int
}

func nodeID(n ast.Node) string {
	if ts, ok := n.(ast.Terms); ok {
		return fmt.Sprintf("Terms/%d", len(ts))
	}
	return fmt.Sprintf("%T@%p", n, n)
}

func (v *tracer) Visit(n ast.Node) ast.Visitor {
	t := v.t
	if len(t.events) > t.limit {
		panic("visitor called too often")
	}
	if n == nil {
		t.events = append(t.events, fmt.Sprintf("v%d exit", v.id))
		return nil
	}
	if nilNode(n) {
		t.events = append(t.events, fmt.Sprintf("v%d nil %T", v.id, n))
		return nil
	}
	k := t.n
	t.n++
	t.events = append(t.events, fmt.Sprintf("v%d %s", v.id, nodeID(n)))
	if t.skip[k] {
		return nil
	}
	return &tracer{t: t, id: k + 1}
}

func expectedTrace(n ast.Node, vid int, t *trace) {
	k := t.n
	t.n++
	t.events = append(t.events, fmt.Sprintf("v%d %s", vid, nodeID(n)))
	if t.skip[k] {
		return
	}
	for _, c := range kids(n) {
		expectedTrace(c, k+1, t)
	}
	t.events = append(t.events, fmt.Sprintf("v%d exit", k+1))
}

func checkC09(o *obs, text string) string {
	t := accepted(text)
	if t == nil {
		o.count("rejected", 1)
		return ""
	}
	r := textRand("C09", text)
	var nodes []ast.Node
	walk(t, func(n ast.Node) { nodes = append(nodes, n) })
	run := func(root ast.Node, skip map[int]bool) string {
		want := &trace{skip: skip}
		expectedTrace(root, 0, want)
		got := &trace{skip: skip, limit: 2*len(want.events) + 10}
		ast.Visit(root, &tracer{t: got})
		o.count("events", len(got.events))
		o.count("skips", len(skip))
		for i := 0; i < len(got.events) || i < len(want.events); i++ {
			g, w := "nothing", "nothing"
			if i < len(got.events) {
				g = got.events[i]
			}
			if i < len(want.events) {
				w = want.events[i]
			}
			if g != w {
				return fmt.Sprintf("event %d of visiting %T: got %q, want %q", i, root, g, w)
			}
		}
		return ""
	}
	if what := run(t, nil); what != "" {
		return what
	}
	var sb strings.Builder
	for _, n := range nodes {
		fmt.Fprintf(&sb, "%T ", n)
	}
	o.nontrivial(sb.String())
	for i := 0; i < 3; i++ {
		skip := map[int]bool{}
		for j := r.Intn(4); j >= 0; j-- {
			skip[r.Intn(len(nodes))] = true
		}
		if what := run(t, skip); what != "" {
			return what
		}
	}
	// from any node
	if what := run(nodes[r.Intn(len(nodes))], map[int]bool{r.Intn(10): true}); what != "" {
		return what
	}
	// trees the parser would not make
	if e := edited(o, r, text); e != nil {
		if r.Intn(2) == 0 {
			walk(e, func(n ast.Node) {
				if p, ok := n.(*ast.Predication); ok && r.Intn(3) == 0 {
					p.Terms = ast.Terms{}
					o.count("lists of terms emptied", 1)
				}
			})
		}
		if what := run(e, map[int]bool{r.Intn(40): true}); what != "" {
			return "after edits: " + what
		}
		countNodes(o, e)
	}
	// FuncVisitor sees every node, and one nil per node.
	in, out := 0, 0
	ast.Visit(t, ast.FuncVisitor(func(n ast.Node) {
		if n == nil {
			out++
		} else {
			in++
		}
	}))
	if in != len(nodes) || out != len(nodes) {
		return fmt.Sprintf("function visitor: %d nodes and %d exits for %d nodes", in, out, len(nodes))
	}
	return ""
}

func isSpaceNode(n ast.Node) (*ast.Space, bool) { s, ok := n.(*ast.Space); return s, ok }

// refBraces computes the bracketed form.
func refBraces(n ast.Node, depth int, pairs *int) string {
	const open, clos = "({[<", ")}]>"
	var items []interface{}
	add := func(k ast.Node) {
		for !nilNode(k) {
			s, ok := isSpaceNode(k)
			if !ok {
				items = append(items, k)
				return
			}
			k = s.M
		}
	}
	if w, ok := n.(*ast.Word); ok {
		items = append(items, w.T)
	}
	for _, k := range kids(n) {
		add(k)
	}
	d := depth
	if len(items) > 1 {
		d = depth + 1
		*pairs++
	}
	var ss []string
	for _, it := range items {
		if s, ok := it.(string); ok {
			ss = append(ss, s)
		} else {
			ss = append(ss, refBraces(it.(ast.Node), d, pairs))
		}
	}
	s := strings.Join(ss, " ")
	if len(items) > 1 {
		s = string(open[depth%4]) + s + string(clos[depth%4])
	}
	return s
}

func checkC11(o *obs, text string) string {
	t := accepted(text)
	if t == nil {
		o.count("rejected", 1)
		return ""
	}
	o.count("accepted", 1)
	before := dump(t, dumpFull)
	got := ast.BracesString(t)
	pairs := 0
	want := refBraces(t, 0, &pairs)
	o.count("bracket pairs", pairs)
	if pairs > 0 {
		o.nontrivial(got)
	}
	// words
	var ws []string
	for _, w := range wordsOf(t) {
		if !isSpaceText(text[w.S:w.E]) {
			ws = append(ws, w.T)
		}
	}
	plain := strings.Join(strings.FieldsFunc(got, func(r rune) bool { return strings.ContainsRune("(){}[]<> ", r) }), " ")
	if plain != strings.Join(ws, " ") {
		return fmt.Sprintf("bracketed form %q does not show the words %q", got, ws)
	}
	if got != want {
		return fmt.Sprintf("bracketed form %q, want %q", got, want)
	}
	if dump(t, dumpFull) != before {
		return "bracketing changed the AST"
	}
	// sub-trees
	r := textRand("C11", text)
	var nodes []ast.Node
	walk(t, func(n ast.Node) { nodes = append(nodes, n) })
	if e := edited(o, r, text); e != nil {
		p := 0
		want := refBraces(e, 0, &p)
		if got := ast.BracesString(e); got != want {
			return fmt.Sprintf("bracketed form after edits: %q, want %q", got, want)
		}
		countNodes(o, e)
	}
	for i := 0; i < 3; i++ {
		n := nodes[r.Intn(len(nodes))]
		p := 0
		want := refBraces(n, 0, &p)
		if _, ok := n.(*ast.Space); ok {
			want = refBracesSpace(n)
		}
		if w, ok := n.(*ast.Word); ok && isSpaceText(w.T) {
			continue // the inner word of a Space is not visible
		}
		if got := ast.BracesString(n); got != want {
			return fmt.Sprintf("bracketed form of a %T: %q, want %q", n, got, want)
		}
	}
	return ""
}

func refBracesSpace(n ast.Node) string {
	for !nilNode(n) {
		s, ok := isSpaceNode(n)
		if !ok {
			p := 0
			return refBraces(n, 0, &p)
		}
		n = s.M
	}
	return ""
}

// asciiWord is the ASCII form of a normalized word.
func asciiWord(s string) string {
	var b strings.Builder
	var t byte
	flush := func() {
		if t != 0 {
			b.WriteByte(t)
			t = 0
		}
	}
	for _, r := range s {
		switch {
		case r == 'ı':
			b.WriteByte('i')
		case strings.ContainsRune("aeiouAEIOUqQ", r):
			b.WriteRune(r)
		default:
			if lt, ok := decomp[r]; ok {
				b.WriteRune(lt.letter)
				t = lt.tone
				continue
			}
			flush()
			b.WriteRune(r)
		}
	}
	flush()
	return b.String()
}

func checkC12(o *obs, text string) string {
	t, t2 := accepted(text), accepted(text)
	if t == nil || t2 == nil {
		o.count("rejected", 1)
		return ""
	}
	o.count("accepted", 1)
	ast.ToASCII(t2)
	ws, ws2 := wordsOf(t), wordsOf(t2)
	if len(ws) != len(ws2) {
		return "number of words changed"
	}
	o.count("words", len(ws))
	if len(ws) > 1 {
		o.nontrivial(text)
	}
	var b strings.Builder
	for i, w2 := range ws2 {
		raw := text[ws[i].S:ws[i].E]
		want := raw
		if !isSpaceText(raw) {
			want = asciiWord(normWord(raw))
			for _, r := range w2.T {
				if r >= utf8.RuneSelf {
					return fmt.Sprintf("ASCII form of %q is %q", raw, w2.T)
				}
			}
		}
		if w2.T != want {
			return fmt.Sprintf("ASCII form of %q is %q, not %q", raw, w2.T, want)
		}
		b.WriteString(w2.T)
	}
	first := dump(t2, dumpFull)
	ast.ToASCII(t2)
	if d := dump(t2, dumpFull); d != first {
		return "not idempotent: " + firstDiff(d, first)
	}
	// Everything but spelling is unchanged.
	for i, w := range ws {
		ws2[i].T = w.T
	}
	if d, d0 := dump(t2, dumpFull), dump(t, dumpFull); d != d0 {
		return "more than spelling changed: " + firstDiff(d, d0)
	}
	t3, err := parse(b.String())
	if err != nil {
		return fmt.Sprintf("the ASCII spelling %q is rejected: %v", b.String(), err)
	}
	opt := dumpOpts{spaces: true, breve: true}
	if d, d0 := dump(t3, opt), dump(t, opt); d != d0 {
		return fmt.Sprintf("the ASCII spelling %q parses to a different AST: %s", b.String(), firstDiff(d, d0))
	}
	return ""
}
