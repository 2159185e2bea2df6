package main

// refast builds the expected AST of a text from the reference parse tree.

import (
	"fmt"

	"github.com/eaburns/toaq/ast"
)

type astBuilder struct {
	text string
	mods map[int]ast.Mod // by start offset
}

// refAST returns the expected AST for the reference tree of a full text.
func refAST(text string, root *rnode) *ast.Text {
	b := &astBuilder{text: text, mods: map[int]ast.Mod{}}
	t := b.fullText(root)
	b.attach(t)
	return t
}

func (b *astBuilder) word(n *rnode) ast.Word {
	return ast.Word{S: n.start, E: n.end, T: normWord(b.text[n.start:n.end])}
}

func (b *astBuilder) wordp(n *rnode) *ast.Word { w := b.word(n); return &w }

// attach hangs each modifier on the word it follows.
func (b *astBuilder) attach(t *ast.Text) {
	var visit func(n ast.Node)
	visit = func(n ast.Node) {
		if w, ok := n.(*ast.Word); ok {
			if m, ok := b.mods[w.E]; ok {
				w.M = m
			}
		}
		for _, k := range kids(n) {
			visit(k)
		}
	}
	if len(t.Discourse) > 0 {
		visit(&t.Discourse)
	}
}

func (n *rnode) find(base string) *rnode {
	for _, k := range n.kids {
		if k.base == base {
			return k
		}
	}
	return nil
}

func (b *astBuilder) fullText(n *rnode) *ast.Text {
	x := n.find("text")
	t := &ast.Text{}
	if s := x.find("space_word"); s != nil {
		t.Leading = b.space(s)
	}
	if d := x.find("discourse"); d != nil {
		t.Discourse = b.discourse(d)
	}
	return t
}

func (b *astBuilder) space(n *rnode) *ast.Space {
	return &ast.Space{S: n.start, E: n.end, T: b.text[n.start:n.end]}
}

func (b *astBuilder) discourse(n *rnode) ast.Discourse {
	var d ast.Discourse
	for _, k := range n.kids {
		if k.base == "_" {
			b.underscore(k)
		} else {
			d = append(d, b.node(k))
		}
	}
	return d
}

// underscore collects the modifiers of a _ node.
func (b *astBuilder) underscore(n *rnode) {
	for _, k := range n.kids { // space_or_freemod
		b.spaceOrFreemod(k)
	}
}

func (b *astBuilder) spaceOrFreemod(n *rnode) {
	for _, k := range n.kids {
		switch k.base {
		case "freemod":
			b.mods[k.start] = b.node(k).(ast.Mod)
		case "space_word":
			b.mods[k.start] = b.space(k)
		case "space_or_freemod":
			b.spaceOrFreemod(k)
		}
	}
}

// cop builds the connector phrase of afterthought_cop, forethought_cop and their _pred variants.
func (b *astBuilder) cop(n *rnode) *ast.CoP {
	switch n.base {
	case "afterthought_cop_pred", "forethought_cop_pred":
		return b.cop(n.kids[0])
	case "afterthought_cop": // left _ cop_bar(connective _ right)
		b.underscore(n.kids[1])
		bar := n.kids[2]
		b.underscore(bar.kids[1])
		return &ast.CoP{Left: b.node(n.kids[0]), RU: b.word(bar.kids[0]), Right: b.node(bar.kids[2])}
	case "forethought_cop": // forethought_connective(to _ ru) _ forethought_cop_1(left _ bar(to _ right))
		con, c1 := n.kids[0], n.kids[2]
		b.underscore(con.kids[1])
		b.underscore(n.kids[1])
		b.underscore(c1.kids[1])
		bar := c1.kids[2]
		b.underscore(bar.kids[1])
		return &ast.CoP{
			TO0: b.wordp(con.kids[0]), RU: b.word(con.kids[2]),
			Left: b.node(c1.kids[0]),
			TO1:  b.wordp(bar.kids[0]), Right: b.node(bar.kids[2]),
		}
	}
	panic("VMON-ERROR not a cop: " + n.name)
}

func isCop(n *rnode) bool {
	switch n.base {
	case "afterthought_cop", "forethought_cop", "afterthought_cop_pred", "forethought_cop_pred":
		return true
	}
	return false
}

// spaced handles rules of the form "x _".
func (b *astBuilder) spacedWord(n *rnode) *ast.Word {
	b.underscore(n.kids[1])
	return b.wordp(n.kids[0])
}

// node builds the AST node for a rule application.
func (b *astBuilder) node(n *rnode) ast.Node {
	k0 := func() *rnode { return n.kids[0] }
	switch n.base {
	case "fragment":
		b.underscore(n.kids[1])
		if isCop(k0()) {
			return (*ast.CoPRelative)(b.cop(k0()))
		}
		return b.node(k0())

	case "sentence", "sentence_1":
		if isCop(k0()) {
			return (*ast.CoPSentence)(b.cop(k0()))
		}
		return b.node(k0())
	case "sentence_2":
		var je *ast.Word
		if k := n.find("sentence_prefix_spaces"); k != nil {
			je = b.spacedWord(k)
		}
		s := b.node(n.find("sentence_3")).(*ast.StatementSentence)
		s.JE = je
		return s
	case "sentence_3":
		b.underscore(n.kids[1])
		s := &ast.StatementSentence{Statement: b.node(n.kids[0]).(ast.Statement)}
		if len(n.kids) > 2 {
			il := n.kids[2]
			if m := il.find("moq"); m != nil {
				s.DA = b.wordp(m)
				if q := il.find("questions"); q != nil {
					b.mods[q.start] = b.space(q)
				}
			} else {
				s.DA = b.wordp(il)
			}
		}
		return s

	case "statement":
		if p := n.find("prenex_spaces"); p != nil {
			b.underscore(p.kids[1])
			return &ast.PrenexStatement{
				Prenex:    *b.node(p.kids[0]).(*ast.Prenex),
				Statement: b.node(n.find("statement_1")).(ast.Statement),
			}
		}
		return b.node(n.find("statement_1"))
	case "statement_1", "statement_2":
		if isCop(k0()) {
			return (*ast.CoPStatement)(b.cop(k0()))
		}
		return b.node(k0())
	case "statement_3", "relative_clause_3", "content_statement":
		b.underscore(n.kids[1])
		p := b.node(n.kids[0]).(*ast.Predication)
		if len(n.kids) > 2 {
			p.NA = b.wordp(n.kids[2])
		}
		switch n.base {
		case "relative_clause_3":
			return &ast.PredicationRelative{Predication: *p}
		case "content_statement":
			return &ast.PredicationContent{Predication: *p}
		}
		return p
	case "predication", "relative_predication", "content_predication":
		b.underscore(n.kids[1])
		p := &ast.Predication{Predicate: b.node(n.kids[0]).(ast.Predicate)}
		if len(n.kids) > 2 {
			p.Terms = b.node(n.kids[2]).(ast.Terms)
		}
		return p
	case "prenex":
		b.underscore(n.kids[1])
		return &ast.Prenex{Terms: b.node(n.kids[0]).(ast.Terms), BI: b.word(n.kids[2])}

	case "predicate_1", "predicate_2", "arg_6", "relative_predicate_1", "adverb_3",
		"preposition", "preposition_1", "preposition_3", "content_predicate_1":
		if isCop(k0()) {
			return (*ast.CoPPredicate)(b.cop(k0()))
		}
		return b.node(k0())
	case "predicate", "serial_predicate", "predicate_3", "arg_7", "relative_predicate", "relative_predicate_2",
		"adverb_4", "preposition_2", "preposition_4", "content_predicate", "content_predicate_2",
		"MI_complement", "freemod":
		if len(n.kids) > 1 {
			b.underscore(n.kids[1])
		}
		return b.node(k0())
	case "serial":
		b.underscore(n.kids[1])
		return &ast.SerialPredicate{Left: b.node(n.kids[0]).(ast.Predicate), Right: b.node(n.kids[2]).(ast.Predicate)}
	case "predicate_word":
		return (*ast.WordPredicate)(b.wordp(n))

	case "terms":
		if k0().base == "term" {
			return ast.Terms{b.node(k0()).(ast.Term)}
		}
		return b.node(k0())
	case "terms_2", "terms_III", "terms_IV", "terms_V":
		b.underscore(n.kids[1])
		return append(ast.Terms{b.node(n.kids[0]).(ast.Term)}, b.node(n.kids[2]).(ast.Terms)...)
	case "terms_II":
		b.underscore(n.kids[1])
		return ast.Terms{b.node(n.kids[0]).(ast.Term), b.node(n.kids[2]).(ast.Term)}
	case "term":
		return b.node(k0())
	case "linked_argument":
		a := b.node(n.find("argument")).(ast.Argument)
		if l := n.find("linking_word_spaces"); l != nil {
			return &ast.LinkedTerm{GO: *b.spacedWord(l), Argument: a}
		}
		return a
	case "termset":
		return (*ast.TermSet)(b.cop(k0()))

	case "argument", "arg_1":
		if isCop(k0()) {
			return (*ast.CoPArgument)(b.cop(k0()))
		}
		return b.node(k0())
	case "arg_2":
		a := b.node(n.find("arg_3")).(*ast.PredicateArgument)
		if f := n.find("focus_spaces"); f != nil {
			a.Focus = b.spacedWord(f)
		}
		return a
	case "arg_3":
		a := b.node(n.find("arg_4")).(*ast.PredicateArgument)
		if q := n.find("quantifier_spaces"); q != nil {
			a.Quantifier = b.spacedWord(q)
		}
		return a
	case "arg_4":
		b.underscore(n.kids[1])
		a := b.node(n.kids[0]).(*ast.PredicateArgument)
		if len(n.kids) > 2 {
			a.Relative = b.node(n.kids[2]).(ast.Relative)
		}
		return a
	case "arg_5":
		return &ast.PredicateArgument{Predicate: b.node(k0()).(ast.Predicate)}

	case "relative_clause", "relative_clause_1", "relative_clause_2":
		if isCop(k0()) {
			return (*ast.CoPRelative)(b.cop(k0()))
		}
		if k0().base == "LU_phrase" {
			return (*ast.LURelative)(b.lu(k0()))
		}
		return b.node(k0())

	case "adverb", "adverb_1":
		if isCop(k0()) {
			return (*ast.CoPAdverb)(b.cop(k0()))
		}
		return b.node(k0())
	case "adverb_2":
		return &ast.PredicateAdverb{Predicate: b.node(k0()).(ast.Predicate)}

	case "prepositional_phrase", "prepositional_phrase_1":
		if isCop(k0()) {
			return (*ast.CoPPreposition)(b.cop(k0()))
		}
		return b.node(k0())
	case "prepositional_phrase_2":
		b.underscore(n.kids[1])
		return &ast.PredicationPreposition{Predicate: b.node(n.kids[0]).(ast.Predicate), Argument: b.node(n.kids[2]).(ast.Argument)}

	case "content_clause":
		if isCop(k0()) {
			return (*ast.CoPContent)(b.cop(k0()))
		}
		return b.node(k0())
	case "content_clause_1":
		if k0().base == "LU_phrase" {
			return (*ast.LUContent)(b.lu(k0()))
		}
		return b.node(k0())

	case "LU_predicate":
		return (*ast.LUPredicate)(b.lu(k0()))
	case "MI_phrase":
		m := n.kids[0]
		b.underscore(m.kids[1])
		b.underscore(n.kids[1])
		p := &ast.MIPredicate{MI: b.word(m.kids[0]), Phrase: b.node(m.kids[2]).(ast.Phrase)}
		if len(n.kids) > 2 {
			p.GA = b.wordp(n.kids[2])
		}
		return p
	case "PO_phrase":
		m := n.kids[0]
		b.underscore(m.kids[1])
		b.underscore(n.kids[1])
		p := &ast.POPredicate{PO: b.word(m.kids[0]), Argument: b.node(m.kids[2]).(ast.Argument)}
		if len(n.kids) > 2 {
			p.GA = b.wordp(n.kids[2])
		}
		return p
	case "MO_phrase":
		m := n.kids[0]
		if s := m.find("space_word"); s != nil {
			b.mods[s.start] = b.space(s)
		}
		b.underscore(n.kids[1])
		return &ast.MOPredicate{MO: b.word(m.kids[0]), Discourse: b.discourse(m.find("discourse")), TEO: b.word(n.kids[2])}

	case "parenthetical":
		p1 := n.kids[0]
		b.underscore(p1.kids[1])
		b.underscore(n.kids[1])
		return &ast.Parenthetical{KIO: b.word(p1.kids[0]), Discourse: b.discourse(p1.kids[2]), KI: b.word(n.kids[2])}
	case "incidental":
		b.underscore(n.kids[1])
		return &ast.Incidental{JU: b.word(n.kids[0]), Statement: b.node(n.kids[2]).(ast.Statement)}
	case "vocative":
		b.underscore(n.kids[1])
		return &ast.Vocative{HU: b.word(n.kids[0]), Argument: b.node(n.kids[2]).(ast.Argument)}
	case "interjection":
		return (*ast.Interjection)(b.wordp(n))
	}
	panic(fmt.Sprintf("VMON-ERROR no AST for rule %s", n.name))
}

func (b *astBuilder) lu(n *rnode) *ast.LUPhrase {
	b.underscore(n.kids[1])
	return &ast.LUPhrase{LU: b.word(n.kids[0]), Statement: b.node(n.kids[2]).(ast.Statement)}
}
