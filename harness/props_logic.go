package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

const interpBudget = 60000

const logicRule = "Texts are generated from the grammar with weights that favour bound variables, relative clauses, connectives, lifted arguments and roi (one in eight from the general generator), mostly in plain ASCII spelling; plus fixed hostile texts. "

func logicGen(r *rand.Rand, i int) string {
	if i%8 == 0 {
		return genGood(r)
	}
	return genLogic(r)
}

// A focus generates texts that exercise one aspect more than others.
func focusGen(set func(r *rand.Rand, o *genOpts)) func(*rand.Rand, int) string {
	return func(r *rand.Rand, i int) string {
		if i%3 == 0 {
			return logicGen(r, i/3)
		}
		o := logicOpts(r)
		set(r, &o)
		return plainText(genTokens(r, o, r.Intn(12) == 0, 4+r.Intn(16), 1+r.Intn(4)))
	}
}

func init() {
	model := "The formula is compared, up to names of variables, with that of an independent interpreter of the AST. "
	trust := []string{"the independent interpreter (harness/refinterp.go) states what the formula should be", "duplicate linking words for one place are outside the property"}
	register(&prop{id: "C14", quick: 200000, thorough: 2000000, fixed: append(append([]string{}, hostileTexts...), logicTexts...), gen: func(r *rand.Rand, i int) string {
		switch i % 4 {
		case 0:
			return genText(r)
		case 1:
			o := logicOpts(r)
			o.badConn = .3
			o.frag = .4
			return plainText(genTokens(r, o, r.Intn(4) == 0, 4+r.Intn(20), 1+r.Intn(4)))
		}
		return logicGen(r, i)
	}, check: checkC14,
		rule: textRule + logicRule + "One in four uses unsupported connectives and fragments on purpose. Non-trivial: distinct accepted texts that were interpreted.",
		need: []string{"statements", "fragments only", "unsupported connectives reported"}, assumptions: []string{"texts whose distribution would exceed the step budget are not interpreted"}})
	register(&prop{id: "C15", quick: 8000, thorough: 80000, fixed: append(append([]string{}, hostileTexts...), logicTexts...), gen: logicGen, check: checkC15, global: bursts("C15", 80, 800),
		rule: logicRule + "Each AST is interpreted several times, after others, and by concurrent goroutines under the race detector; one of the results is overwritten. The lists of a copy of the AST are moved to one array, so that what is written beyond the end of one is seen in the next. Bursts: processes in which 8 goroutines parse and interpret texts, many of rare words, as the first thing that happens; their results are compared with sequential ones in another process. Non-trivial: distinct formulas.",
		need: []string{"interpretations", "goroutines", "processes of bursts", "AST links", "results overwritten", "failed interpretations before", "lists moved to a shared array"}, assumptions: []string{"the race detector sees the interleavings of this run only"}})
	register(&prop{id: "C16", quick: 200000, thorough: 3000000, fixed: append(append([]string{}, hostileTexts...), logicTexts...), gen: logicGen, check: checkC16,
		rule: logicRule + "Every node of every statement is visited by the scope checker. Non-trivial: distinct formulas with a binding.", need: []string{"bindings", "bound occurrences", "free occurrences", "variable predicates"}})
	register(&prop{id: "C17", quick: 200000, thorough: 3000000, fixed: append(append([]string{}, hostileTexts...), logicTexts...), check: checkModel,
		gen: focusGen(func(r *rand.Rand, o *genOpts) {
			o.linked, o.serial, o.prenex, o.connect = .3*float64(r.Intn(3)), .25*float64(r.Intn(3)), .2*float64(r.Intn(4)), .05
			o.randWord = .3
		}),
		rule: logicRule + model + "Two in three favour linking words, serial predicates and prenexes. Non-trivial: distinct formulas.",
		need: []string{"interpreted", "linked fi", "linked go", "linked cu", "linked ta", "serial predicate", "pa-prenex", "bi-prenex", "mea", "jeqtu"}, assumptions: trust})
	register(&prop{id: "C18", quick: 200000, thorough: 3000000, fixed: append(append([]string{}, hostileTexts...), logicTexts...), check: checkModel,
		gen: focusGen(func(r *rand.Rand, o *genOpts) {
			o.connect, o.termset, o.adverbs, o.sentence = .2+.1*float64(r.Intn(4)), .1*float64(r.Intn(3)), .1*float64(r.Intn(5)), .4
			if r.Intn(3) == 0 {
				o.roi = .5
			}
		}),
		rule: logicRule + model + "Two in three favour connectives in all places, termsets and roi. Non-trivial: distinct formulas.",
		need: []string{"interpreted", "connective ru", "connective ra", "connective ri", "roi", "termset", "connected sentences", "connected statements", "connected predicates", "connected arguments", "connected adverbs", "connected prepositions", "connected relative clauses", "connected content clauses", "several sentences"}, assumptions: trust})
	register(&prop{id: "C19", quick: 200000, thorough: 3000000, fixed: append(append([]string{}, hostileTexts...), logicTexts...), check: checkModel,
		gen: focusGen(func(r *rand.Rand, o *genOpts) {
			o.quant, o.rel, o.bindRef, o.relHoa = .3+.2*float64(r.Intn(3)), .2+.2*float64(r.Intn(3)), .2*float64(r.Intn(4)), .2*float64(r.Intn(4))
			o.prenex = .3
		}),
		rule: logicRule + model + "Two in three favour quantifiers, bound variables, relative clauses and hoa. Non-trivial: distinct formulas.",
		need: []string{"interpreted", "quantifier ke", "quantifier ja", "quantifier sa", "quantifier tu", "quantifier sia", "quantifier hi", "definite, at the top", "definite, bound in place", "lifted once", "hi at the top of its clause", "hoa, bound", "hoa, free", "variable, bound", "variable, free", "variable with relative clause", "hoa with quantifier or relative clause", "implicit hoa", "focus", "relative lu-clause"}, assumptions: trust})
	register(&prop{id: "C20", quick: 200000, thorough: 3000000, fixed: append(append([]string{}, hostileTexts...), logicTexts...), check: checkModel,
		gen: focusGen(func(r *rand.Rand, o *genOpts) {
			o.special, o.adverbs, o.serial = .2+.2*float64(r.Intn(3)), .15*float64(r.Intn(4)), .1*float64(r.Intn(3))
			if r.Intn(4) == 0 {
				o.define = .3 * float64(r.Intn(3))
			}
		}),
		rule: logicRule + model + "Two in three favour clauses, lu-, mi-, po- and mo-predicates, adverbs and prepositions. Non-trivial: distinct formulas.",
		need: []string{"interpreted", "content clause", "content lu-clause", "predicate lu", "predicate li", "predicate po", "predicate jei", "predicate mi", "predicate shu", "predicate mo", "adverb", "preposition", "preposition, bound in place", "application reduced", "definition substituted", "definition refers to itself"}, assumptions: trust})
}

// logicTexts are fixed texts for the interpreter.
var logicTexts = strings.Split(strings.TrimSpace(`
mai? hi po/ hi ji/ ga
mai? hi ji/ hi po/ hi nuo/ ga
mai? to roi to ra sa do/ to do/ to ji/
mai? sa do/ roi do/
mai? ji/ roi suq/ roi ho/
mai? ru pai? ku ji/
ku ji/ bi mai?
ku sa ji/ bi mai?
ku sa do/ bi mai? do/
sa do/ bi tu do/mi- bi mai? do/ do/mi-
sa do/ bi sa do/ bi mai? do/
mai? sa do/ ru gi? do/
mai? ji/ giV do/ sa do/
mai? sa do/ ji/ giV do/
mai? tu gi/ poq/ deV hoa/
mai? tu gi/ maiV ji/ deV hoa/
lu? mai? hoa/ na ji/
lu? ja do/ bi mai? hoa/ do/ na ji/ suq/
lu? ja do/ bi do? ji/ na suq/ ho/
li? ja do/ bi mai? do/ na ji/
li? ja do/ bi ja do/mi- bi mai? do/ do/mi- na ji/ suq/
li? mai? ji/ na
mai? fi ji/ ta suq/
mai? ta ji/ suq/
mai? cu ji/ fi suq/ ho/ go poq/
ji/ pa suq/ pa mai? ho/
ji/ pa suq/ bi mai? ho/
ji/ bi suq/ pa mai? ho/
cu ji/ pa mai? suq/
gi~ mai? ji/
gi~ de~ mai? ji/
ji/ gi~ bi mai? suq/
sa do/ gi~ bi mai? do/
mai? sa do/ gi~ de\ do/ ji/
mai? gi~ ru de~ ji/
mai? gi\ ji/ ru de\ suq/ ho/
mai? gi\ sa ji/ ho/
mai? gi\ ji/ ru suq/ ho/
mai? sa do/ gi\ sa do/mi- suq/ do/
mai? gi^ ji/ na ru de^ ji/ na
mai? gi^ ji/ na roi suq/
mai? mo/ gi? ji/ teo
mai? mo/ gi? ji/ teo ru mo/ de? teo
mi? ji/ ga suq/
shu? gi? ga mo/ gi? teo
jei? ji/ roi suq/ ga ho/
po? ji/ ra suq/ ga ho/
po? sa do/ ga do/
mai? po/ sa do/ doV ga
mai? sa do/ luV gi? hoa/ do/ na
mai? sa ji/ luV hi gi/ bi mai? hoa/ na
mai? hi ji/ luV hi gi/ bi mai? hoa/ na
sa do/ bi mai? hi ji/ giV do/
mai? hi ji/ ru hi suq/
mai? hi ji/ ru suq/ hi ho/
to ru mai? to gi? ji/
to ra ji/ suq/ to ho/ poq/ pa mai?
mai? to ri ji/ suq/ to ho/ poq/ rai/
mai? ru pai? shi? ji/
mai? pai? ru jai? ji/
shi? mai? ru pai? ji/
mai? do/ giV
mai? hoa/ giV
mai? sa gi/ doV hoa/
mea? ji/ suq/
jeq?tu- ji/ suq/
mea? ji/
jeq?tu- ji/ suq/ ho/
mai? ke do/ jeqVtu- hoa/ mo/ gi? teo
mai? sa do/ jeqVtu- mo/ gi? teo hoa/
do? do/
sa do/ bi do? do/
ja do/ bi do? do/
mai? ji/. gi? ji/. da
mai? ji/ da ru gi? suq/ da
mai? ji/ ru gi? suq/ ra de? ho/
to ru mai? ji/ na to gi? suq/ na
ji/ giV
ji/ bi
mai? sa ji/ ra giV hoa/ ru deV
mai? sa ji/ to ru giV hoa/ to deV
mai? sa ji/ to ru luV gi? hoa/ to deV hoa/
gi? mai^ ji/ na ru gi? ji/ na suq/
gi? lu^ mai? ji/ na ru de? ji/ na suq/
mai? ke do/ jeqVtu- hoa/ gi^ do/
mai? ke do/ jeqVtu- hoa/ gi^ hoa/
mai? ke do/ jeqVtu- hoa/ hoa/ roi ji/
mai? ke do/ jeqVtu- ji/ roi hoa/ hoa/
mai? ke do/ jeqVtu- hoa/ ji/ roi suq/
mai? ke do/ jeqVtu- gi^ ji/ na hoa/
mai? sa do/ jeqVtu- hoa/ gi^ ji/
mai? sa do/ shiV li? do? ji/ na
mai? sa do/ shiV li? mai? ji/ na
mai? sa do/ shiV li? shi? li? do? ji/ na na
mai? sa do/ shiV li? gi? po? do/ ji/ na na
`), "\n")

// interpret runs the interpreter and catches its documented panics.
func interpret(t *ast.Text) (st logic.Statement, msg string) {
	defer func() {
		if e := recover(); e != nil {
			if re, ok := e.(runtime.Error); ok {
				panic(re)
			}
			st, msg = nil, fmt.Sprint(e)
			if msg == "" {
				msg = "(empty panic message)"
			}
		}
	}()
	return logic.Interpret(t), ""
}

// refOf runs the reference; it returns nil if there is nothing to interpret.
func refOf(o *obs, t *ast.Text) (interface{}, *refInterp) {
	ref, ri, uns, big := refStatement(t, interpBudget)
	switch {
	case big:
		o.count("too big to compare", 1)
		return nil, nil
	case uns != "":
		o.count("unsupported connective", 1)
		return nil, nil
	case ref == nil:
		o.count("fragments only", 1)
		return nil, nil
	}
	o.count("interpreted", 1)
	return ref, ri
}

func checkModel(o *obs, text string) string {
	t := accepted(text)
	if t == nil {
		o.count("rejected", 1)
		return ""
	}
	ref, ri := refOf(o, t)
	if ref == nil {
		return ""
	}
	st, msg := interpret(t)
	if msg != "" {
		return "panic: " + msg
	}
	if st == nil {
		return "no statement"
	}
	for f, n := range ri.features {
		o.count(f, n)
	}
	want := canonRef(ref)
	o.nontrivial(want)
	if ri.features["duplicate link"] > 0 {
		return ""
	}
	if got := canonLogic(st); got != want {
		if strings.Contains(got, "ILLSCOPED") || strings.Contains(got, "NOSCOPE") {
			return fmt.Sprintf("interpreted as %s: %s", logic.String(st), firstDiff(got, want))
		}
		// They may differ in how much was substituted if there is more to be.
		if full, ok := reduced(ref); !ok {
			o.count("too big to compare", 1)
			return ""
		} else if full != want {
			if g, ok := reduced(refOfLogic(st)); ok && g == full {
				o.count("substituted further", 1)
				return ""
			}
		}
		return fmt.Sprintf("interpreted as %s: %s", logic.String(st), firstDiff(got, want))
	}
	return ""
}

// lkids returns the children of a formula node, independently of Visit.
func lkids(n logic.Node) []logic.Node {
	var ks []logic.Node
	add := func(x logic.Node) {
		if !nilLogic(x) {
			ks = append(ks, x)
		}
	}
	switch n := n.(type) {
	case *logic.Binding:
		if n.Restriction != nil {
			add(n.Restriction)
		}
		if n.Scope != nil {
			add(n.Scope)
		}
	case *logic.Connection:
		add(n.Left)
		add(n.Right)
	case *logic.Predication:
		add(n.Predicate)
		for _, a := range n.Arguments {
			if a != nil {
				add(a)
			}
		}
	case *logic.Plurality:
		for _, a := range n.Arguments {
			if a != nil {
				add(a)
			}
		}
	case *logic.Abstraction:
		add(n.Statement)
	case *logic.Serial:
		add(n.Left)
		add(n.Right)
	case *logic.Swap:
		add(n.Predicate)
	}
	return ks
}

func lwalk(n logic.Node, f func(logic.Node)) {
	f(n)
	for _, k := range lkids(n) {
		lwalk(k, f)
	}
}

func checkC14(o *obs, text string) string {
	t := accepted(text)
	if t == nil {
		o.count("rejected", 1)
		return ""
	}
	_, _, uns, big := refStatement(t, interpBudget)
	if big {
		o.count("too big to interpret", 1)
		return ""
	}
	o.nontrivial(text)
	st, msg := interpret(t)
	if msg != "" {
		if uns == "" {
			return "panic, but every connective is supported: " + msg
		}
		named := false
		for _, w := range wordsOf(t) {
			switch low(w.T) {
			case "roi", "ro", "re", "ra", "ri":
				if strings.Contains(strings.ToLower(msg), strings.ToLower(w.T)) || strings.Contains(strings.ToLower(msg), low(w.T)) {
					named = true
				}
			}
		}
		if !named {
			return "panic with a message that does not name the connective: " + msg
		}
		o.count("unsupported connectives reported", 1)
		return ""
	}
	sentences := 0
	for _, k := range t.Discourse {
		if _, ok := k.(ast.Sentence); ok {
			sentences++
		}
	}
	if (st == nil) != (sentences == 0) {
		return fmt.Sprintf("%d sentences, but statement=%v", sentences, st != nil)
	}
	if st == nil {
		o.count("fragments only", 1)
		return ""
	}
	if isNilPtr(st) {
		return "a nil statement in a non-nil interface"
	}
	o.count("statements", 1)
	if logic.String(st) == "" || logic.PrettyString(st) == "" {
		return "printed as the empty string"
	}
	// Visit: every node once, parents first.
	var want, got []logic.Node
	lwalk(st, func(n logic.Node) { want = append(want, n) })
	st.Visit(func(n logic.Node) { got = append(got, n) })
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(want) || i >= len(got) || want[i] != got[i] {
			return fmt.Sprintf("visited %d nodes; node %d of %d is not the one expected", len(got), i, len(want))
		}
	}
	before := canonLogic(st)
	logic.NillOutAST(st)
	bad := ""
	lwalk(st, func(n logic.Node) {
		if n.ASTNode() != nil {
			bad = fmt.Sprintf("a %T still has its AST link after NillOutAST", n)
		}
	})
	if bad != "" {
		return bad
	}
	if after := canonLogic(st); after != before {
		return "NillOutAST changed the statement: " + firstDiff(after, before)
	}
	return ""
}

// numbered is a string form with the numbers of the variables.
func numbered(st logic.Node) string {
	if nilLogic(st) {
		return "nil"
	}
	var b strings.Builder
	lwalk(st, func(n logic.Node) {
		switch n := n.(type) {
		case *logic.Binding:
			fmt.Fprintf(&b, "%s%d ", n.Quantifier, n.N)
		case *logic.Variable:
			fmt.Fprintf(&b, "v%d ", n.N)
		default:
			fmt.Fprintf(&b, "%T ", n)
		}
		if a := n.ASTNode(); a != nil {
			fmt.Fprintf(&b, "%T ", a)
		}
	})
	return b.String()
}

func fullString(st logic.Statement) string {
	if st == nil {
		return "nil"
	}
	return canonLogic(st) + "\n" + numbered(st) + "\n" + logic.String(st)
}

// scrambleLogic overwrites a statement but not the AST it links to.
func scrambleLogic(st logic.Node) {
	var all []logic.Node
	lwalk(st, func(n logic.Node) { all = append(all, n) })
	for _, n := range all {
		switch n := n.(type) {
		case *logic.Predication:
			for i := range n.Arguments {
				n.Arguments[i] = nil
			}
			if c := cap(n.Arguments); c > len(n.Arguments) {
				for i, full := len(n.Arguments), n.Arguments[:c]; i < c; i++ {
					full[i] = nil
				}
			}
		case *logic.Plurality:
			for i := range n.Arguments {
				n.Arguments[i] = nil
			}
		}
		v := reflect.ValueOf(n).Elem()
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch f.Kind() {
			case reflect.Int:
				f.SetInt(-99)
			case reflect.String:
				f.SetString("☠")
			case reflect.Bool:
				f.SetBool(!f.Bool())
			default:
				f.Set(reflect.Zero(f.Type()))
			}
		}
	}
}

// failingText makes a text with a connective that is not supported, after or within something that opens scopes.
func failingText(r *rand.Rand) string {
	one := func(s string) string {
		ws := strings.Split(s, "|")
		return ws[r.Intn(len(ws))]
	}
	args := func() string {
		s := ""
		for n := r.Intn(4); n > 0; n-- {
			s += one("poq/ |sa do/ |hi ji/ |hi do/ |tu ne/ |sa do/fa- |fi sa poq/ |ke do/ |moq/ |maiV? |jai~ |mai^ ")
		}
		return s
	}
	bad := "ji/ " + one("ro|re") + " suq/ "
	inner := "mai? " + args() + bad + args() + "na "
	switch r.Intn(7) {
	case 0:
		inner = "mai? sa poq/ " + one("maiV|huoV|deV") + " " + args() + bad
	case 1:
		inner = "lu? hoa? " + args() + bad + "na "
	case 2:
		inner = "mai? lu^ chuq? hoa/ " + args() + bad + "na na "
	case 3:
		inner = args() + "bi mai? do/ " + bad
	case 4:
		inner = "mai? luV chuq? " + args() + bad
	case 5:
		inner = "mai? " + args() + "gi\\ po? " + bad
	}
	return one("|mai? sa do/ hi poq/ na da |ji/ mai? da ") + inner
}

// pack moves all lists of an AST into one array per type.
func pack(o *obs, t *ast.Text) {
	var terms ast.Terms
	var items ast.Discourse
	var lists []*ast.Terms
	var put []func(ast.Terms)
	var ds []*ast.Discourse
	list := func(l *ast.Terms, set func(ast.Terms)) {
		if len(*l) > 0 {
			lists, put = append(lists, l), append(put, set)
			terms = append(terms, *l...)
		}
	}
	disc := func(d *ast.Discourse) {
		if len(*d) > 0 {
			ds = append(ds, d)
			items = append(items, *d...)
		}
	}
	walk(t, func(n ast.Node) {
		switch n := n.(type) {
		case *ast.Text:
			disc(&n.Discourse)
		case *ast.MOPredicate:
			disc(&n.Discourse)
		case *ast.Prenex:
			list(&n.Terms, func(l ast.Terms) { n.Terms = l })
		case *ast.Predication:
			list(&n.Terms, func(l ast.Terms) { n.Terms = l })
		case *ast.CoP:
			if l, ok := n.Left.(ast.Terms); ok {
				list(&l, func(l ast.Terms) { n.Left = l })
			}
			if r, ok := n.Right.(ast.Terms); ok {
				list(&r, func(l ast.Terms) { n.Right = l })
			}
		}
	})
	// Room to grow, which is nobody's.
	terms = append(terms, make(ast.Terms, 8)...)
	items = append(items, make(ast.Discourse, 8)...)
	i := 0
	for j, l := range lists {
		n := len(*l)
		put[j](terms[i : i+n])
		i += n
		o.count("lists moved to a shared array", 1)
	}
	i = 0
	for _, d := range ds {
		n := len(*d)
		*d = items[i : i+n]
		i += n
	}
}

func checkC15(o *obs, text string) string {
	t := accepted(text)
	if t == nil {
		o.count("rejected", 1)
		return ""
	}
	ref, _ := refOf(o, t)
	if ref == nil {
		return ""
	}
	o.nontrivial(canonRef(ref))
	r := textRand("C15", text)
	before := dump(t, dumpFull)
	st, msg := interpret(t)
	o.count("interpretations", 1)
	if msg != "" {
		return "panic: " + msg
	}
	if d := dump(t, dumpFull); d != before {
		return "interpreting changed the AST: " + firstDiff(d, before)
	}
	want := fullString(st)
	if d := fullString(st); d != want {
		return "printing changed the statement: " + firstDiff(d, want)
	}

	// Links to the AST.
	nodes := map[interface{}]bool{}
	walk(t, func(n ast.Node) {
		if _, ok := n.(ast.Terms); !ok {
			nodes[n] = true
		}
	})
	bad := ""
	lwalk(st, func(n logic.Node) {
		a := n.ASTNode()
		if nilAST(a) || bad != "" {
			return
		}
		o.count("AST links", 1)
		if _, ok := a.(ast.Terms); !ok && nodes[a] {
			o.count("AST links to nodes of the text", 1)
		}
		if s, e := a.Start(), a.End(); s < 0 || s > len(text) || e < 0 || e > len(text) {
			bad = fmt.Sprintf("the AST link of a %T has span [%d,%d) of %d", n, s, e, len(text))
			return
		}
		for _, w := range wordsOf(a) {
			if w.E > w.S {
				raw := text[w.S:w.E]
				if raw != w.T && normWord(raw) != w.T {
					bad = fmt.Sprintf("the AST link of a %T has a word %q at [%d,%d), where the text has %q", n, w.T, w.S, w.E, raw)
					return
				}
			}
		}
		switch n := n.(type) {
		case *logic.Pred:
			if w, ok := a.(*ast.WordPredicate); ok && logicName(w.T) != n.Name {
				bad = fmt.Sprintf("predicate %q links to the word %q", n.Name, w.T)
			}
		case *logic.Quote:
			if q := quoted(a); q != n.Text {
				bad = fmt.Sprintf("quote %q links to %q", n.Text, q)
			}
		}
	})
	if bad != "" {
		return bad
	}

	// Lists that share their memory, with room after each that belongs to the next.
	if packed := accepted(text); packed != nil {
		pack(o, packed)
		stp, _ := interpret(packed)
		o.count("interpretations", 1)
		if d := dump(packed, dumpFull); d != before {
			return "interpreting changed an AST whose lists share an array: " + firstDiff(d, before)
		}
		if stp == nil {
			return "no statement for an AST whose lists share an array"
		}
		if d := fullString(stp); d != want {
			return "the interpretation of an AST whose lists share an array differs: " + firstDiff(d, want)
		}
	}

	// Again, after another text, and after overwriting a result.
	other := accepted(genLogic(r))
	if other != nil {
		if ref, _ := refOf(newQuiet(), other); ref != nil {
			interpret(other)
		}
	}
	if r.Intn(2) == 0 {
		// Also after one that was abandoned, in some scope.
		if f := accepted(failingText(r)); f != nil {
			if _, msg := interpret(f); msg != "" {
				o.count("failed interpretations before", 1)
			}
		}
	}
	st2, _ := interpret(t)
	o.count("interpretations", 1)
	if d := fullString(st2); d != want {
		return "a second interpretation differs: " + firstDiff(d, want)
	}
	scrambleLogic(st2)
	o.count("results overwritten", 1)
	if d := fullString(st); d != want {
		return "overwriting a second result changed the first: " + firstDiff(d, want)
	}
	if d := dump(t, dumpFull); d != before {
		return "overwriting a result changed the AST: " + firstDiff(d, before)
	}
	st3, _ := interpret(t)
	o.count("interpretations", 1)
	if d := fullString(st3); d != want {
		return "an interpretation after a result was overwritten differs: " + firstDiff(d, want)
	}
	// A fresh parse gives the same.
	st4, _ := interpret(accepted(text))
	if d := fullString(st4); d != want {
		return "the interpretation of a second AST of the text differs: " + firstDiff(d, want)
	}

	const g = 4
	bads := make([]string, g)
	var wg sync.WaitGroup
	start := make(chan bool)
	for j := 0; j < g; j++ {
		wg.Add(1)
		o.count("goroutines", 1)
		go func(j int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bads[j] = fmt.Sprintf("panic in a concurrent interpretation: %v", e)
				}
			}()
			<-start
			for k := 0; k < 2; k++ {
				st, _ := interpret(t)
				if d := fullString(st); d != want {
					bads[j] = "a concurrent interpretation differs: " + firstDiff(d, want)
				}
				if other != nil && j%2 == 0 && len(wordsOf(other)) < 60 {
					if ref, _ := refOf(newQuiet(), other); ref != nil {
						interpret(other)
					}
				}
			}
			if d := logic.PrettyString(st); d == "" {
				bads[j] = "printed as the empty string"
			}
		}(j)
	}
	close(start)
	wg.Wait()
	o.count("interpretations", 2*g)
	for _, b := range bads {
		if b != "" {
			return b
		}
	}
	return ""
}

func newQuiet() *obs {
	o := newObs()
	o.quiet = true
	return o
}

func nilAST(n ast.Node) bool { return nilNode(n) }

func logicName(w string) string {
	switch n := low(w); n {
	case "mea":
		return "≺"
	case "jeqtu":
		return "="
	default:
		return n
	}
}

func checkC16(o *obs, text string) string {
	t := accepted(text)
	if t == nil {
		o.count("rejected", 1)
		return ""
	}
	ref, _ := refOf(o, t)
	if ref == nil {
		return ""
	}
	st, msg := interpret(t)
	if msg != "" {
		return "panic: " + msg
	}
	if st == nil {
		return "no statement"
	}
	bad := ""
	fail := func(f string, args ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, args...) + " in " + logic.String(st)
		}
	}
	byN := map[int]interface{}{} // number to *Binding or free *Variable
	claim := func(n int, x interface{}, what string) {
		if n < 0 {
			fail("%s has number %d", what, n)
		}
		if y, ok := byN[n]; ok && y != x {
			fail("number %d is that of two different variables (%s)", n, what)
		}
		byN[n] = x
	}
	active := map[*logic.Binding]int{}
	bindings := 0
	var w func(n logic.Node)
	w = func(n logic.Node) {
		switch n := n.(type) {
		case *logic.Binding:
			bindings++
			o.count("bindings", 1)
			claim(n.N, n, "binding")
			if n.Scope == nil || isNilPtr(n.Scope) {
				fail("a binding (%s) has no scope", n.Quantifier)
				return
			}
			switch string(n.Quantifier) {
			case "ι", "λ", "∀", "Λ", "∃", "∄", "¿":
			default:
				fail("a binding has quantifier %q", n.Quantifier)
			}
			active[n]++
			if n.Restriction != nil {
				w(n.Restriction)
			}
			w(n.Scope)
			active[n]--
			return
		case *logic.Variable:
			if n.Def == nil {
				o.count("free occurrences", 1)
				claim(n.N, n, "free variable")
				return
			}
			o.count("bound occurrences", 1)
			if active[n.Def] == 0 {
				fail("a variable refers to a binding (%s, number %d) that it is not within", n.Def.Quantifier, n.Def.N)
			}
			if n.N != n.Def.N {
				fail("a variable has number %d, but its binding %d", n.N, n.Def.N)
			}
			return
		case *logic.Predication:
			if _, ok := n.Predicate.(*logic.Variable); ok {
				o.count("variable predicates", 1)
			}
			if n.Predicate == nil {
				fail("a predication has no predicate")
				return
			}
		case *logic.Connection:
			if n.Left == nil || n.Right == nil {
				fail("a connection lacks a side")
				return
			}
		case *logic.Abstraction:
			if n.Statement == nil {
				fail("an abstraction has no statement")
				return
			}
		}
		for _, k := range lkids(n) {
			w(k)
		}
	}
	w(st)
	if bindings > 0 {
		o.nontrivial(canonLogic(st))
	}
	return bad
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
