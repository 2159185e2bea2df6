package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/eaburns/toaq/logic"
)

func init() {
	register(&prop{id: "C22", quick: 180000, thorough: 2000000, fixed: append(append([]string{}, hostileTexts...), logicTexts...), gen: func(r *rand.Rand, i int) string {
		switch i % 4 {
		case 0:
			return fmt.Sprintf("tree:%d", r.Int63())
		case 1:
			// many variables of few initials
			o := logicOpts(r)
			o.budgetHint()
			ts := genTokens(r, o, false, 30+r.Intn(60), 2+r.Intn(3))
			return plainText(ts)
		}
		return logicGen(r, i)
	}, check: checkC22,
		rule:        logicRule + "One in four is a random formula built from the exported types instead of a text. The printed string is matched against the statement: literal parts must agree and the names of variables must correspond one to one to the variables. Non-trivial: distinct printed strings.",
		need:        []string{"statements", "random formulas", "parts of statements", "variables named", "free variables named", "more than ten variables of an initial", "open places", "infix predications", "infix operators with another number of arguments", "parenthesised sides", "pluralities", "quotes", "propositions", "swaps", "serial predicates"},
		assumptions: []string{"two sides of the same connective are printed without parentheses (it is associative)"}})
}

func (o *genOpts) budgetHint() {
	o.quant, o.randWord, o.rel, o.connect = .3, 0, .1, .05
}

// A seg is a literal or, if v is non-nil, the name of a variable.
type seg struct {
	lit string
	v   interface{}
	q   bool // a quantifier
}

type freeVar int

type segs struct {
	s      []seg
	o      *obs
	letter map[interface{}]string // expected letter of the name
	occ    map[interface{}]bool   // has an occurrence as a *Variable
}

func (b *segs) lit(s string) { b.s = append(b.s, seg{lit: s}) }

func varKey(v *logic.Variable) interface{} {
	if v.Def != nil {
		return v.Def
	}
	return freeVar(v.N)
}

// initial gives the letter that names a variable of a binding:
// the first letter of the leftmost predicate of its restriction.
func initial(b *logic.Binding) string {
	st := b.Restriction
	for {
		c, ok := st.(*logic.Connection)
		if !ok {
			break
		}
		st = c.Left
	}
	p, ok := st.(*logic.Predication)
	if !ok {
		return "X"
	}
	var first func(logic.Predicate) string
	first = func(p logic.Predicate) string {
		switch p := p.(type) {
		case *logic.Pred:
			return p.Name
		case *logic.Serial:
			l := first(p.Left)
			if l == "shi" {
				return first(p.Right)
			}
			return l
		}
		return ""
	}
	n := first(p.Predicate)
	if n == "" || n == "=" || n == "≺" {
		return "X"
	}
	r, _ := utf8.DecodeRuneInString(n)
	return strings.ToUpper(string(r))
}

func (b *segs) node(n logic.Node) {
	switch n := n.(type) {
	case *logic.Binding:
		if n.Restriction != nil {
			b.lit("[")
		}
		b.s = append(b.s, seg{lit: string(n.Quantifier), q: true}, seg{v: n})
		if n.Restriction != nil {
			b.lit(" : ")
			b.node(n.Restriction)
			b.lit("]")
		}
		b.lit(" ")
		b.node(n.Scope)
	case *logic.Connection:
		b.side(n, n.Left)
		b.lit(" " + string(n.Connector) + " ")
		b.side(n, n.Right)
	case *logic.Predication:
		if p, ok := n.Predicate.(*logic.Pred); ok && (p.Name == "=" || p.Name == "≺") {
			if len(n.Arguments) == 2 {
				b.o.count("infix predications", 1)
				b.arg(n.Arguments[0])
				b.lit(p.Name)
				b.arg(n.Arguments[1])
				return
			}
			b.o.count("infix operators with another number of arguments", 1)
		}
		b.node(n.Predicate)
		b.lit("(")
		b.args(n.Arguments)
		b.lit(")")
	case *logic.Variable:
		k := varKey(n)
		b.s = append(b.s, seg{v: k})
		b.occ[k] = true
		if n.Def == nil {
			b.letter[k] = "U"
		} else {
			b.letter[k] = initial(n.Def)
		}
	case *logic.Plurality:
		b.o.count("pluralities", 1)
		b.lit("⌊")
		b.args(n.Arguments)
		b.lit("⌉")
	case *logic.Quote:
		b.o.count("quotes", 1)
		if n.FullText {
			b.lit("«" + n.Text + "»")
		} else {
			b.lit("‹" + n.Text + "›")
		}
	case *logic.Pred:
		b.lit(n.Name)
	case *logic.Abstraction:
		b.o.count("propositions", 1)
		b.lit("{")
		b.node(n.Statement)
		b.lit("}")
	case *logic.Serial:
		b.o.count("serial predicates", 1)
		b.node(n.Left)
		b.lit("∘")
		b.node(n.Right)
	case *logic.Swap:
		b.o.count("swaps", 1)
		b.lit("(mu ")
		b.node(n.Predicate)
		b.lit(")")
	default:
		panic(fmt.Sprintf("VMON-ERROR unknown formula type %T", n))
	}
}

func (b *segs) side(c *logic.Connection, n logic.Statement) {
	paren := true
	switch n := n.(type) {
	case *logic.Predication:
		paren = false
	case *logic.Connection:
		paren = n.Connector != c.Connector
	}
	if paren {
		b.o.count("parenthesised sides", 1)
		b.lit("(")
	}
	b.node(n)
	if paren {
		b.lit(")")
	}
}

func (b *segs) arg(a logic.Argument) {
	if a == nil {
		b.o.count("open places", 1)
		b.lit("·")
		return
	}
	b.node(a)
}

func (b *segs) args(as []logic.Argument) {
	for i, a := range as {
		if i > 0 {
			b.lit(", ")
		}
		b.arg(a)
	}
}

const italicA = 0x1D434

// match matches a printed string with the segments and returns the names of the variables.
func (b *segs) match(s string, pretty bool) (map[interface{}]string, string) {
	names := map[interface{}]string{}
	vars := map[string]interface{}{}
	rest := s
	at := func() string {
		return fmt.Sprintf("at byte %d of %q: ", len(s)-len(rest), s)
	}
	for _, g := range b.s {
		if g.v == nil {
			l := g.lit
			if g.q && pretty && l == "ι" {
				l = "\u2129"
			}
			if !strings.HasPrefix(rest, l) {
				return nil, at() + fmt.Sprintf("want %q", l)
			}
			rest = rest[len(l):]
			continue
		}
		r, w := utf8.DecodeRuneInString(rest)
		if pretty {
			r -= italicA - 'A'
		}
		if r < 'A' || r > 'Z' {
			return nil, at() + "want the name of a variable"
		}
		n := string(r)
		rest = rest[w:]
		for len(rest) > 0 && rest[0] >= '0' && rest[0] <= '9' {
			n, rest = n+rest[:1], rest[1:]
		}
		if m, ok := names[g.v]; ok && m != n {
			return nil, at() + fmt.Sprintf("a variable is named %s here and %s before", n, m)
		}
		if v, ok := vars[n]; ok && v != g.v {
			return nil, at() + fmt.Sprintf("%s names two different variables", n)
		}
		names[g.v], vars[n] = n, g.v
	}
	if rest != "" && rest != "." {
		return nil, at() + "more than the statement"
	}
	return names, ""
}

// checkPrinted checks the printed forms of a node.
func checkPrinted(o *obs, n logic.Node, full bool) string {
	b := &segs{o: o, letter: map[interface{}]string{}, occ: map[interface{}]bool{}}
	b.node(n)
	s := logic.String(n)
	if full {
		o.nontrivial(s)
	}
	names, what := b.match(s, false)
	if what != "" {
		return "printed form " + what
	}
	p := logic.PrettyString(n)
	pnames, what := b.match(p, true)
	if what != "" {
		return "pretty form " + what
	}
	if strings.HasSuffix(s, ".") != strings.HasSuffix(p, ".") {
		return fmt.Sprintf("printed %q, but pretty %q", s, p)
	}
	byLetter := map[string]int{}
	for k, m := range names {
		if pnames[k] != m {
			return fmt.Sprintf("a variable is named %s in %q, but %s in %q", m, s, pnames[k], p)
		}
		if !full || !b.occ[k] {
			continue
		}
		o.count("variables named", 1)
		if _, ok := k.(freeVar); ok {
			o.count("free variables named", 1)
		}
		byLetter[m[:1]]++
		if byLetter[m[:1]] == 11 {
			o.count("more than ten variables of an initial", 1)
		}
		want := b.letter[k]
		if strings.HasSuffix(s, ".") && m[:1] != want && !(want == "X" && (m == "Y" || m == "Z")) {
			return fmt.Sprintf("the variable %s in %q should have initial %s", m, s, want)
		}
	}
	for i := 0; i < 2; i++ {
		if t := logic.String(n); t != s {
			return fmt.Sprintf("printed as %q and then as %q", s, t)
		}
	}
	return ""
}

func checkC22(o *obs, text string) string {
	var st logic.Statement
	if strings.HasPrefix(text, "tree:") {
		seed, err := strconv.ParseInt(text[5:], 10, 64)
		if err != nil {
			return ""
		}
		o.count("random formulas", 1)
		st = randomFormula(rand.New(rand.NewSource(seed)))
	} else {
		t := accepted(text)
		if t == nil {
			o.count("rejected", 1)
			return ""
		}
		ref, _ := refOf(newQuiet(), t)
		if ref == nil {
			return ""
		}
		st, _ = interpret(t)
		if st == nil {
			return ""
		}
		o.count("statements", 1)
	}
	before := canonLogic(st) + numbered(st)
	if what := checkPrinted(o, st, true); what != "" {
		return what
	}
	var all []logic.Node
	lwalk(st, func(n logic.Node) { all = append(all, n) })
	r := textRand("C22", text)
	for i := 0; i < 3; i++ {
		n := all[r.Intn(len(all))]
		o.count("parts of statements", 1)
		if what := checkPrinted(o, n, false); what != "" {
			return fmt.Sprintf("a %T of the statement: %s", n, what)
		}
	}
	if after := canonLogic(st) + numbered(st); after != before {
		return "printing changed the statement: " + firstDiff(after, before)
	}
	return ""
}

// randomFormula builds a formula of all node types, with variables numbered in sequence.
func randomFormula(r *rand.Rand) logic.Statement {
	f := &formulaGen{r: r, budget: 3 + r.Intn(40)}
	if r.Intn(3) == 0 {
		f.words = contentWords[:1+r.Intn(3)]
	} else {
		f.words = contentWords
	}
	st := f.statement(nil, 5)
	i := 0
	lwalk(st, func(n logic.Node) {
		switch n := n.(type) {
		case *logic.Binding:
			n.N = i
			i++
		case *logic.Variable:
			if n.Def != nil {
				n.N = n.Def.N
			} else {
				n.N = i
				i++
			}
		}
	})
	return st
}

type formulaGen struct {
	r      *rand.Rand
	budget int
	words  []string
}

func (f *formulaGen) statement(scope []*logic.Binding, d int) logic.Statement {
	f.budget--
	if f.budget < 0 || d <= 0 {
		return f.predication(scope, 0)
	}
	switch f.r.Intn(5) {
	case 0, 1:
		b := &logic.Binding{Quantifier: []logic.Quantifier{"ι", "λ", "∀", "Λ", "∃", "∄", "¿"}[f.r.Intn(7)]}
		in := append(scope[:len(scope):len(scope)], b)
		if f.r.Intn(3) > 0 {
			b.Restriction = f.statement(in, d-1)
			if f.r.Intn(3) == 0 {
				b.Restriction = &logic.Predication{Predicate: f.predicate(scope, 0), Arguments: []logic.Argument{&logic.Variable{Def: b}}}
			}
		}
		b.Scope = f.statement(in, d-1)
		return b
	case 2:
		return &logic.Connection{Connector: []logic.Connector{"∧", "∨", "?"}[f.r.Intn(3)], Left: f.statement(scope, d-1), Right: f.statement(scope, d-1)}
	}
	return f.predication(scope, d-1)
}

func (f *formulaGen) predication(scope []*logic.Binding, d int) logic.Statement {
	p := &logic.Predication{Predicate: f.predicate(scope, d)}
	for n := f.r.Intn(4); n > 0; n-- {
		p.Arguments = append(p.Arguments, f.argument(scope, d))
	}
	return p
}

func (f *formulaGen) predicate(scope []*logic.Binding, d int) logic.Predicate {
	switch k := f.r.Intn(12); {
	case k == 0:
		return &logic.Pred{Name: "="}
	case k == 1:
		return &logic.Pred{Name: "≺"}
	case k == 2 && d > 0:
		return &logic.Serial{Left: f.predicate(scope, d-1), Right: f.predicate(scope, d-1)}
	case k == 3 && d > 0:
		return &logic.Swap{Predicate: f.predicate(scope, d-1), Pos: 1}
	case k == 4 && d > 0:
		return &logic.Abstraction{Statement: f.statement(scope, d-1)}
	case k == 5:
		return f.variable(scope)
	}
	return &logic.Pred{Name: f.words[f.r.Intn(len(f.words))]}
}

func (f *formulaGen) variable(scope []*logic.Binding) *logic.Variable {
	if len(scope) == 0 || f.r.Intn(6) == 0 {
		return &logic.Variable{}
	}
	return &logic.Variable{Def: scope[f.r.Intn(len(scope))], Focus: f.r.Intn(5) == 0}
}

func (f *formulaGen) argument(scope []*logic.Binding, d int) logic.Argument {
	switch k := f.r.Intn(12); {
	case k == 0:
		return nil
	case k == 1:
		return &logic.Quote{Text: []string{"mả", "(A) X0 · ‹x›", "", "Λ∃, ι."}[f.r.Intn(4)], FullText: f.r.Intn(2) == 0}
	case k == 2 && d > 0:
		p := &logic.Plurality{}
		for n := f.r.Intn(3); n >= 0; n-- {
			p.Arguments = append(p.Arguments, f.argument(scope, d-1))
		}
		return p
	case k == 3 && d > 0:
		return &logic.Abstraction{Statement: f.statement(scope, d-1)}
	}
	return f.variable(scope)
}
