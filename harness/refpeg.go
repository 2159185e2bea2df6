package main

// refpeg is a reference implementation of PEG recognition,
// interpreting a frozen snapshot of the published grammar (grammar.peg).
// It shares no code with the generated parser under observation.

import (
	_ "embed"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

//go:embed grammar.peg
var grammarText string

type opKind int

const (
	opSeq opKind = iota
	opAlt
	opRef
	opClass
	opLit
	opDot
	opAnd
	opNot
	opOpt
	opStar
	opPlus
	opPunct // the &{…} predicate of the punctuation rule
)

type pexpr struct {
	op    opKind
	kids  []*pexpr
	name  string  // opRef: rule name
	args  []pname // opRef: template arguments
	runes []rune  // opClass
	lit   string  // opLit
	rule  int     // opRef resolved
	want  string  // opClass, opAnd, opNot: as named in errors
}

// pname is a (possibly parameterized) rule name.
type pname struct {
	name string
	args []pname
}

func (p pname) String() string {
	if len(p.args) == 0 {
		return p.name
	}
	var ss []string
	for _, a := range p.args {
		ss = append(ss, a.String())
	}
	return p.name + "<" + strings.Join(ss, ", ") + ">"
}

type ptemplate struct {
	name, errName string
	params        []string
	expr          *pexpr
}

type prule struct {
	name    string // instantiated name
	base    string // template name
	errName string
	expr    *pexpr
}

type refGrammar struct {
	templates map[string]*ptemplate
	rules     []*prule
	index     map[string]int
	order     []string
}

type gparser struct {
	s   []rune
	pos int
}

func (g *gparser) peek() rune {
	if g.pos >= len(g.s) {
		return -1
	}
	return g.s[g.pos]
}
func (g *gparser) sp() {
	for g.peek() == ' ' {
		g.pos++
	}
}
func isNameRune(r rune) bool {
	return r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) || unicode.Is(unicode.Mn, r)
}
func (g *gparser) ident() string {
	i := g.pos
	for g.pos < len(g.s) && isNameRune(g.s[g.pos]) {
		g.pos++
	}
	return string(g.s[i:g.pos])
}
func (g *gparser) nameArgs() pname {
	n := pname{name: g.ident()}
	if n.name == "" {
		panic(fmt.Sprintf("grammar: name expected at %q", string(g.s[g.pos:])))
	}
	if g.peek() == '<' && g.pos+1 < len(g.s) && g.s[g.pos+1] != '-' {
		g.pos++
		for {
			g.sp()
			n.args = append(n.args, g.nameArgs())
			g.sp()
			r := g.peek()
			g.pos++
			if r == '>' {
				break
			}
			if r != ',' {
				panic("grammar: bad template args")
			}
		}
	}
	return n
}
func (g *gparser) alt() *pexpr {
	kids := []*pexpr{g.seq()}
	for g.peek() == '/' {
		g.pos++
		kids = append(kids, g.seq())
	}
	if len(kids) == 1 {
		return kids[0]
	}
	return &pexpr{op: opAlt, kids: kids}
}
func (g *gparser) seq() *pexpr {
	var kids []*pexpr
	for {
		g.sp()
		r := g.peek()
		if r == -1 || r == '/' || r == ')' {
			break
		}
		kids = append(kids, g.prefix())
	}
	if len(kids) == 1 {
		return kids[0]
	}
	return &pexpr{op: opSeq, kids: kids}
}
func (g *gparser) prefix() *pexpr {
	switch g.peek() {
	case '&':
		g.pos++
		if g.peek() == '{' {
			for g.peek() != '}' {
				g.pos++
			}
			g.pos++
			return &pexpr{op: opPunct}
		}
		i := g.pos
		k := g.prefix()
		return &pexpr{op: opAnd, kids: []*pexpr{k}, want: "&" + string(g.s[i:g.pos])}
	case '!':
		g.pos++
		i := g.pos
		k := g.prefix()
		return &pexpr{op: opNot, kids: []*pexpr{k}, want: "!" + string(g.s[i:g.pos])}
	}
	e := g.primary()
	for {
		switch g.peek() {
		case '?':
			g.pos++
			e = &pexpr{op: opOpt, kids: []*pexpr{e}}
		case '*':
			g.pos++
			e = &pexpr{op: opStar, kids: []*pexpr{e}}
		case '+':
			g.pos++
			e = &pexpr{op: opPlus, kids: []*pexpr{e}}
		default:
			return e
		}
	}
}
func (g *gparser) primary() *pexpr {
	switch r := g.peek(); r {
	case '(':
		g.pos++
		e := g.alt()
		if g.peek() != ')' {
			panic("grammar: ) expected")
		}
		g.pos++
		return e
	case '.':
		g.pos++
		return &pexpr{op: opDot}
	case '[':
		g.pos++
		var rs []rune
		for g.peek() != ']' {
			r := g.peek()
			g.pos++
			if r == '\\' {
				r = g.peek()
				g.pos++
				switch r {
				case 't':
					r = '\t'
				case 'n':
					r = '\n'
				case 'r':
					r = '\r'
				}
			}
			rs = append(rs, r)
		}
		g.pos++
		return &pexpr{op: opClass, runes: rs}
	case '"':
		i := g.pos
		g.pos++
		for g.peek() != '"' {
			g.pos++
		}
		g.pos++
		s, err := strconv.Unquote(string(g.s[i:g.pos]))
		if err != nil {
			panic(err)
		}
		return &pexpr{op: opLit, lit: s}
	default:
		n := g.nameArgs()
		return &pexpr{op: opRef, name: n.name, args: n.args}
	}
}

func loadGrammar(src string) *refGrammar {
	g := &refGrammar{templates: map[string]*ptemplate{}, index: map[string]int{}}
	for _, line := range strings.Split(src, "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		p := &gparser{s: []rune(line)}
		n := p.nameArgs()
		t := &ptemplate{name: n.name}
		for _, a := range n.args {
			t.params = append(t.params, a.name)
		}
		p.sp()
		if p.peek() == '"' {
			p.pos++
			i := p.pos
			for p.peek() != '"' {
				p.pos++
			}
			t.errName = string(p.s[i:p.pos])
			p.pos++
			p.sp()
		}
		if !strings.HasPrefix(string(p.s[p.pos:]), "<-") {
			panic("grammar: <- expected: " + line)
		}
		p.pos += 2
		t.expr = p.alt()
		if p.pos != len(p.s) {
			panic("grammar: trailing text: " + line)
		}
		g.templates[t.name] = t
		g.order = append(g.order, t.name)
	}
	return g
}

func substName(n pname, env map[string]pname) pname {
	if len(n.args) == 0 {
		if m, ok := env[n.name]; ok {
			return m
		}
		return n
	}
	m := pname{name: n.name}
	for _, a := range n.args {
		m.args = append(m.args, substName(a, env))
	}
	return m
}

func (g *refGrammar) rule(n pname) int {
	key := n.String()
	if i, ok := g.index[key]; ok {
		return i
	}
	t := g.templates[n.name]
	if t == nil {
		panic("grammar: no rule " + n.name)
	}
	r := &prule{name: key, base: n.name, errName: t.errName}
	i := len(g.rules)
	g.rules = append(g.rules, r)
	g.index[key] = i
	env := map[string]pname{}
	for j, p := range t.params {
		env[p] = n.args[j]
	}
	r.expr = g.instantiate(t.expr, env)
	return i
}

func (g *refGrammar) instantiate(e *pexpr, env map[string]pname) *pexpr {
	c := &pexpr{op: e.op, runes: e.runes, lit: e.lit, want: e.want}
	if e.op == opClass {
		c.want = classWant(e.runes)
	}
	for _, k := range e.kids {
		c.kids = append(c.kids, g.instantiate(k, env))
	}
	if e.op == opRef {
		c.rule = g.rule(substName(pname{e.name, e.args}, env))
	}
	return c
}

var refG = func() *refGrammar {
	g := loadGrammar(grammarText)
	g.rule(pname{name: "full_text"})
	g.rule(pname{name: "word"})
	return g
}()

// rnode is a node of the reference parse tree: one per rule application.
type rnode struct {
	rule       int
	name, base string
	start, end int
	kids       []*rnode
}

type memoEnt struct {
	pos  int32 // 0 if not set; 1 if failed; 2 + the end
	perr int
	node *rnode
}

type refParser struct {
	g    *refGrammar
	text string
	memo [][]memoEnt
	// steps counts expression evaluations.
	steps int
}

func newRefParser(text string) *refParser {
	return &refParser{g: refG, text: text, memo: make([][]memoEnt, len(text)+1)}
}

// apply parses the rule at pos; the returned pos is -1 on failure.
// perr is the furthest failure, or -1 if nothing failed.
func (p *refParser) apply(rule, pos int) (int, int, *rnode) {
	if p.memo[pos] == nil {
		p.memo[pos] = make([]memoEnt, len(p.g.rules))
	}
	m := &p.memo[pos][rule]
	if m.pos > 0 {
		end := int(m.pos) - 2
		return end, m.perr, m.node
	}
	r := p.g.rules[rule]
	node := &rnode{rule: rule, name: r.name, base: r.base, start: pos}
	perr := -1
	end := p.eval(r.expr, pos, &perr, &node.kids)
	if r.errName != "" {
		// A failure within a named rule is reported as a failure of the rule,
		// at the start of the rule. If the rule succeeds,
		// failures within it are of no interest.
		if end >= 0 {
			perr = at(pos)
		} else if perr >= 0 {
			perr = perr>>32<<32 | pos
		}
	}
	m = &p.memo[pos][rule]
	if end < 0 {
		m.pos, m.perr = 1, perr
		return -1, perr, nil
	}
	node.end = end
	m.pos, m.perr, m.node = int32(end)+2, perr, node
	return end, perr, node
}

// at encodes a failure: how far it got, and the position to report it at.
func at(pos int) int { return pos<<32 | pos }

func reportPos(perr int) int { return perr & (1<<32 - 1) }

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (p *refParser) eval(e *pexpr, pos int, perr *int, kids *[]*rnode) int {
	p.steps++
	switch e.op {
	case opSeq:
		for _, k := range e.kids {
			pos = p.eval(k, pos, perr, kids)
			if pos < 0 {
				return -1
			}
		}
		return pos
	case opAlt:
		n := len(*kids)
		for _, k := range e.kids {
			*kids = (*kids)[:n:n]
			if q := p.eval(k, pos, perr, kids); q >= 0 {
				return q
			}
		}
		*kids = (*kids)[:n:n]
		return -1
	case opRef:
		q, pe, node := p.apply(e.rule, pos)
		*perr = maxi(*perr, pe)
		if q >= 0 {
			*kids = append(*kids, node)
		}
		return q
	case opClass:
		r, w := utf8.DecodeRuneInString(p.text[pos:])
		if w > 0 {
			for _, c := range e.runes {
				if c == r {
					return pos + w
				}
			}
		}
		*perr = maxi(*perr, at(pos))
		return -1
	case opLit:
		if strings.HasPrefix(p.text[pos:], e.lit) {
			return pos + len(e.lit)
		}
		*perr = maxi(*perr, at(pos))
		return -1
	case opDot:
		r, w := utf8.DecodeRuneInString(p.text[pos:])
		if w == 0 || r == utf8.RuneError {
			*perr = maxi(*perr, at(pos))
			return -1
		}
		return pos + w
	case opPunct:
		r, _ := utf8.DecodeLastRuneInString(p.text[:pos])
		if unicode.IsPunct(r) {
			return pos
		}
		*perr = maxi(*perr, at(pos))
		return -1
	case opAnd, opNot:
		var ignore []*rnode
		inner := *perr
		q := p.eval(e.kids[0], pos, &inner, &ignore)
		if (q >= 0) == (e.op == opAnd) {
			return pos
		}
		*perr = maxi(*perr, at(pos))
		return -1
	case opOpt:
		n := len(*kids)
		if q := p.eval(e.kids[0], pos, perr, kids); q >= 0 {
			return q
		}
		*kids = (*kids)[:n:n]
		return pos
	case opStar, opPlus:
		if e.op == opPlus {
			pos = p.eval(e.kids[0], pos, perr, kids)
			if pos < 0 {
				return -1
			}
		}
		for {
			n := len(*kids)
			q := p.eval(e.kids[0], pos, perr, kids)
			if q < 0 || q == pos {
				*kids = (*kids)[:n:n]
				return pos
			}
			pos = q
		}
	}
	panic("bad op")
}

// refParse parses text as a full text.
// It returns the tree, or nil and the furthest failure position.
func refParse(text string) (*rnode, int) {
	p := newRefParser(text)
	end, perr, node := p.apply(refG.index["full_text"], 0)
	if end < 0 {
		return nil, reportPos(perr)
	}
	if end < len(text) {
		// EOF also matches before invalid UTF-8; that is an error there.
		return nil, end
	}
	return node, -1
}

// refWord parses a word at offs, returning its end, or -1 and the furthest failure position.
func refWord(text string, offs int) (*rnode, int) {
	p := newRefParser(text)
	end, perr, node := p.apply(refG.index["word"], offs)
	if end < 0 {
		return nil, reportPos(perr)
	}
	return node, end
}

// classWant is a character class as it is named by errors, with its characters in order.
func classWant(rs []rune) string {
	c := append([]rune{}, rs...)
	sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
	return "[" + string(c) + "]"
}

// normWant is a want of an error, with the characters of a class in order and without escapes,
// and the code of a predicate left out.
func normWant(w string) string {
	if strings.HasPrefix(w, "&{") {
		return "&{}"
	}
	if !strings.HasPrefix(w, "[") || !strings.HasSuffix(w, "]") {
		return w
	}
	g := &gparser{s: []rune(w)}
	return classWant(g.primary().runes)
}

// refWants returns what the grammar could have continued with
// at the furthest failure of a rule, which must fail at the position.
func refWants(text, rule string, offs, failPos int) map[string]bool {
	p := newRefParser(text)
	_, perr, _ := p.apply(refG.index[rule], offs)
	reach := perr >> 32
	wants := make(map[string]bool)
	visited := make(map[[2]int]bool)
	var eval func(e *pexpr, pos int) int
	want := func(pos int, w string) {
		if pos == failPos {
			wants[w] = true
		}
	}
	apply := func(rule, pos int) int {
		end, perr, _ := p.apply(rule, pos)
		if perr < 0 || perr>>32 < reach {
			return end
		}
		r := p.g.rules[rule]
		if r.errName != "" {
			if end < 0 {
				want(pos, r.errName)
			}
			return end
		}
		if k := [2]int{rule, pos}; !visited[k] {
			visited[k] = true
			eval(r.expr, pos)
		}
		return end
	}
	leaf := func(e *pexpr, pos int, w string) int {
		ignore := -1
		end := p.eval(e, pos, &ignore, new([]*rnode))
		if end < 0 && pos >= reach {
			want(pos, w)
		}
		return end
	}
	eval = func(e *pexpr, pos int) int {
		switch e.op {
		case opSeq:
			for _, k := range e.kids {
				if pos = eval(k, pos); pos < 0 {
					return -1
				}
			}
			return pos
		case opAlt:
			for _, k := range e.kids {
				if q := eval(k, pos); q >= 0 {
					return q
				}
			}
			return -1
		case opRef:
			return apply(e.rule, pos)
		case opClass:
			return leaf(e, pos, e.want)
		case opLit:
			return leaf(e, pos, strconv.Quote(e.lit))
		case opDot:
			return leaf(e, pos, ".")
		case opPunct:
			return leaf(e, pos, "&{}")
		case opAnd, opNot:
			return leaf(e, pos, e.want)
		case opOpt:
			if q := eval(e.kids[0], pos); q >= 0 {
				return q
			}
			return pos
		case opStar, opPlus:
			if e.op == opPlus {
				if pos = eval(e.kids[0], pos); pos < 0 {
					return -1
				}
			}
			for {
				q := eval(e.kids[0], pos)
				if q < 0 || q == pos {
					return pos
				}
				pos = q
			}
		}
		panic("bad op")
	}
	apply(refG.index[rule], offs)
	return wants
}
