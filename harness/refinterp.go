package main

// An independent interpretation of the AST, as immutable formulas in continuation-passing style.

import (
	"fmt"
	"strings"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

// Formulas.
type (
	fvar  struct{ id int }
	fBind struct {
		q     string
		v     *fvar
		focus bool
		r, s  interface{} // r may be nil
	}
	fConn struct {
		op   string
		l, r interface{}
	}
	fPred struct {
		p    interface{}
		args []interface{} // nil is an open place
	}
	// Terms and predicates
	fV struct {
		v     *fvar // nil if free
		focus bool
	}
	fPl struct{ args []interface{} }
	fQ  struct {
		text string
		full bool
	}
	fAb  struct{ f interface{} }
	fW   struct{ name string }
	fSer struct{ l, r interface{} }
)

// unsupported is the panic value for what the interpreter is documented not to support.
type unsupported struct{ what string }

// tooBig is the panic value if the interpretation is too large to be compared.
type tooBig struct{}

type venv struct {
	name string
	v    *fvar
	next *venv
}
type henv struct {
	v    *fvar
	next *henv
}
type clauseCtx struct{ his []*fBind }

type renv struct {
	vars   *venv
	hoa    *henv
	clause *clauseCtx
}

type refInterp struct {
	nvar   int
	steps  int
	budget int
	top    []*fBind
	memo   map[*ast.PredicateArgument]*fBind
	// features counts what the text exercised
	features map[string]int
}

func (ri *refInterp) step() {
	ri.steps++
	if ri.steps > ri.budget {
		panic(tooBig{})
	}
}

func (ri *refInterp) feat(s string) { ri.features[s]++ }

func (ri *refInterp) fresh() *fvar { ri.nvar++; return &fvar{ri.nvar} }

// low is the plain spelling of a word: lower case, no tones, dotted i.
func low(s string) string {
	var b strings.Builder
	for _, r := range s {
		if lt, ok := decomp[r]; ok {
			r = lt.letter
		}
		if r == 'ı' {
			r = 'i'
		}
		if r >= 'A' && r <= 'Z' {
			r |= 0x20
		}
		b.WriteRune(r)
	}
	return b.String()
}

var connOps = map[string]string{"ru": "∧", "ra": "∨", "ri": "?"}

func (ri *refInterp) op(w ast.Word) string {
	o, ok := connOps[low(w.T)]
	if !ok {
		panic(unsupported{low(w.T)})
	}
	ri.feat("connective " + low(w.T))
	return o
}

func refStatement(t *ast.Text, budget int) (f interface{}, ri *refInterp, uns string, big bool) {
	ri = &refInterp{budget: budget, memo: map[*ast.PredicateArgument]*fBind{}, features: map[string]int{}}
	defer func() {
		switch e := recover().(type) {
		case nil:
		case unsupported:
			f, uns = nil, e.what
		case tooBig:
			f, big = nil, true
		default:
			panic(e)
		}
	}()
	for _, k := range t.Discourse {
		s, ok := k.(ast.Sentence)
		if !ok {
			ri.feat("fragment")
			continue
		}
		g := ri.sentence(s)
		if f == nil {
			f = g
		} else {
			ri.feat("several sentences")
			f = &fConn{"∧", f, g}
		}
	}
	if f == nil {
		return nil, ri, "", false
	}
	for i := len(ri.top) - 1; i >= 0; i-- {
		b := *ri.top[i]
		b.s = f
		f = &b
	}
	f = ri.simplify(f)
	return f, ri, "", false
}

func (ri *refInterp) sentence(n ast.Sentence) interface{} {
	switch n := n.(type) {
	case *ast.StatementSentence:
		return ri.clauseOf(renv{}, n.Statement)
	case *ast.CoPSentence:
		if low(n.RU.T) != "ru" {
			panic(unsupported{low(n.RU.T)})
		}
		ri.feat("connected sentences")
		l := ri.sentence(n.Left.(ast.Sentence))
		return &fConn{"∧", l, ri.sentence(n.Right.(ast.Sentence))}
	}
	panic(fmt.Sprintf("VMON-ERROR sentence %T", n))
}

func (ri *refInterp) clauseOf(env renv, n ast.Statement) interface{} {
	ctx := &clauseCtx{}
	inner := env
	inner.clause = ctx
	st := ri.statement(nil, n, inner)
	for i := len(ctx.his) - 1; i >= 0; i-- {
		hi := ctx.his[i]
		vis := map[*fvar]bool{}
		for _, b := range ri.top {
			vis[b.v] = true
		}
		for h := env.hoa; h != nil; h = h.next {
			vis[h.v] = true
		}
		for v := env.vars; v != nil; v = v.next {
			vis[v.v] = true
		}
		for _, b := range ctx.his[:i+1] {
			vis[b.v] = true
		}
		st = &fBind{q: hi.q, v: hi.v, focus: hi.focus, r: unbind(hi.r, vis), s: st}
	}
	for k, b := range ri.memo {
		for _, hi := range ctx.his {
			if b.v == hi.v {
				delete(ri.memo, k)
			}
		}
	}
	return st
}

// mapVars rebuilds a formula with f applied to its variables.
func mapF(n interface{}, f func(*fV) interface{}) interface{} {
	switch n := n.(type) {
	case nil:
		return nil
	case *fBind:
		c := *n
		c.r, c.s = mapF(n.r, f), mapF(n.s, f)
		return &c
	case *fConn:
		return &fConn{n.op, mapF(n.l, f), mapF(n.r, f)}
	case *fPred:
		return &fPred{mapF(n.p, f), mapAll(n.args, f)}
	case *fV:
		return f(n)
	case *fPl:
		return &fPl{mapAll(n.args, f)}
	case *fAb:
		return &fAb{mapF(n.f, f)}
	case *fSer:
		return &fSer{mapF(n.l, f), mapF(n.r, f)}
	}
	return n
}

func mapAll(as []interface{}, f func(*fV) interface{}) []interface{} {
	var out []interface{}
	for _, a := range as {
		out = append(out, mapF(a, f))
	}
	return out
}

// each calls f for every node, parents first.
func each(n interface{}, f func(interface{})) {
	if n == nil {
		return
	}
	f(n)
	switch n := n.(type) {
	case *fBind:
		each(n.r, f)
		each(n.s, f)
	case *fConn:
		each(n.l, f)
		each(n.r, f)
	case *fPred:
		each(n.p, f)
		for _, a := range n.args {
			each(a, f)
		}
	case *fPl:
		for _, a := range n.args {
			each(a, f)
		}
	case *fAb:
		each(n.f, f)
	case *fSer:
		each(n.l, f)
		each(n.r, f)
	}
}

func boundIn(n interface{}) map[*fvar]bool {
	m := map[*fvar]bool{}
	each(n, func(n interface{}) {
		if b, ok := n.(*fBind); ok {
			m[b.v] = true
		}
	})
	return m
}

func unbind(n interface{}, vis map[*fvar]bool) interface{} {
	in := boundIn(n)
	return mapF(n, func(v *fV) interface{} {
		if v.v == nil || vis[v.v] || in[v.v] {
			return v
		}
		return &fV{focus: v.focus}
	})
}

// refersIn tells whether there are variables bound neither within n nor at the top.
func (ri *refInterp) refersIn(n interface{}) bool {
	in := boundIn(n)
	for _, b := range ri.top {
		in[b.v] = true
	}
	free := false
	each(n, func(n interface{}) {
		if v, ok := n.(*fV); ok && v.v != nil && !in[v.v] {
			free = true
		}
	})
	return free
}

type farg struct {
	t   interface{}
	pos int
}

// withArg never shares storage.
func withArg(as []farg, a farg) []farg { return append(append([]farg{}, as...), a) }

func (ri *refInterp) places(as []farg) []interface{} {
	n := len(as)
	for _, a := range as {
		if a.pos > n {
			n = a.pos
		}
	}
	out := make([]interface{}, n)
	for _, a := range as {
		if a.pos > 0 {
			if out[a.pos-1] != nil {
				ri.feat("duplicate link")
			}
			out[a.pos-1] = a.t
		}
	}
	i := 0
	for _, a := range as {
		if a.pos == 0 {
			for out[i] != nil {
				i++
			}
			out[i] = a.t
		}
	}
	return out
}

func (ri *refInterp) statement(args []farg, n ast.Statement, env renv) interface{} {
	ri.step()
	switch n := n.(type) {
	case *ast.PrenexStatement:
		pa := low(n.Prenex.BI.T) == "pa"
		if pa {
			ri.feat("pa-prenex")
		} else {
			ri.feat("bi-prenex")
		}
		return ri.terms(args, n.Prenex.Terms, pa, env, func(args []farg, env renv) interface{} {
			if !pa {
				args = nil
			}
			return ri.statement(args, n.Statement, env)
		})
	case *ast.Predication:
		return ri.terms(args, n.Terms, true, env, func(args []farg, env renv) interface{} {
			return ri.apply(n.Predicate, args, env)
		})
	case *ast.CoPStatement:
		ri.feat("connected statements")
		op := ri.op(n.RU)
		l := ri.statement(args, n.Left.(ast.Statement), env)
		return &fConn{op, l, ri.statement(args, n.Right.(ast.Statement), env)}
	}
	panic(fmt.Sprintf("VMON-ERROR statement %T", n))
}

// terms interprets terms, and then the rest.
func (ri *refInterp) terms(args []farg, ts []ast.Term, pa bool, env renv, rest func([]farg, renv) interface{}) interface{} {
	ri.step()
	if len(ts) == 0 {
		return rest(args, env)
	}
	more := ts[1:]
	switch t := ts[0].(type) {
	case *ast.TermSet:
		ri.feat("termset")
		op := ri.op(t.RU)
		side := func(n ast.Node) interface{} {
			all := append(append([]ast.Term{}, n.(ast.Terms)...), more...)
			return ri.terms(args, all, pa, env, rest)
		}
		l := side(t.Left)
		return &fConn{op, l, side(t.Right)}
	case *ast.LinkedTerm:
		pos := map[string]int{"fi": 1, "go": 2, "cu": 3, "ta": 4}[low(t.GO.T)]
		ri.feat("linked " + low(t.GO.T))
		// The binding of a linked argument never takes the focus.
		return ri.arg(t.Argument, false, env, func(a interface{}, env renv) interface{} {
			return ri.terms(withArg(args, farg{a, pos}), more, pa, env, rest)
		})
	case ast.Argument:
		return ri.arg(t, !pa, env, func(a interface{}, env renv) interface{} {
			return ri.terms(withArg(args, farg{t: a}), more, pa, env, rest)
		})
	case ast.Preposition:
		ri.feat("preposition")
		sub := ri.terms(args, more, pa, env, rest)
		if ri.refersIn(sub) {
			ri.feat("preposition, bound in place")
			return ri.preposition(t, env, func(env renv) interface{} {
				return ri.terms(args, more, pa, env, rest)
			})
		}
		return ri.preposition(t, env, func(renv) interface{} { return sub })
	case ast.Adverb:
		ri.feat("adverb")
		sub := ri.terms(args, more, pa, env, rest)
		return ri.adverb(t, env, sub)
	}
	panic(fmt.Sprintf("VMON-ERROR term %T", ts[0]))
}

func (ri *refInterp) preposition(n ast.Preposition, env renv, sub func(renv) interface{}) interface{} {
	switch n := n.(type) {
	case *ast.PredicationPreposition:
		return ri.arg(n.Argument, false, env, func(a interface{}, env renv) interface{} {
			s := sub(env)
			return ri.apply(n.Predicate, []farg{{t: &fAb{s}}, {t: a}}, env)
		})
	case *ast.CoPPreposition:
		ri.feat("connected prepositions")
		op := ri.op(n.RU)
		l := ri.preposition(n.Left.(ast.Preposition), env, sub)
		return &fConn{op, l, ri.preposition(n.Right.(ast.Preposition), env, sub)}
	}
	panic(fmt.Sprintf("VMON-ERROR preposition %T", n))
}

func (ri *refInterp) adverb(n ast.Adverb, env renv, sub interface{}) interface{} {
	switch n := n.(type) {
	case *ast.PredicateAdverb:
		return ri.apply(n.Predicate, []farg{{t: &fAb{sub}}}, env)
	case *ast.CoPAdverb:
		ri.feat("connected adverbs")
		op := ri.op(n.RU)
		l := ri.adverb(n.Left.(ast.Adverb), env, sub)
		return &fConn{op, l, ri.adverb(n.Right.(ast.Adverb), env, sub)}
	}
	panic(fmt.Sprintf("VMON-ERROR adverb %T", n))
}

var quantOf = map[string]string{"ke": "ι", "ja": "λ", "sa": "∃", "tu": "∀", "sia": "∄", "hi": "¿"}

// arg interprets an argument and then, with each alternative, the rest, k.
// If bi, the argument itself is not used.
func (ri *refInterp) arg(n ast.Argument, bi bool, env renv, k func(interface{}, renv) interface{}) interface{} {
	ri.step()
	switch n := n.(type) {
	case *ast.CoPArgument:
		if low(n.RU.T) != "roi" {
			ri.feat("connected arguments")
			op := ri.op(n.RU)
			l := ri.arg(n.Left.(ast.Argument), bi, env, k)
			return &fConn{op, l, ri.arg(n.Right.(ast.Argument), bi, env, k)}
		}
		ri.feat("roi")
		v := ri.fresh()
		r := ri.arg(n.Left.(ast.Argument), false, env, func(a interface{}, env renv) interface{} {
			return ri.arg(n.Right.(ast.Argument), false, env, func(b interface{}, _ renv) interface{} {
				return &fPred{&fW{"="}, []interface{}{&fV{v: v}, &fPl{[]interface{}{a, b}}}}
			})
		})
		return &fBind{q: "ι", v: v, r: r, s: k(&fV{v: v}, env)}
	case *ast.PredicateArgument:
		b, a, env2 := ri.single(n, env)
		if b == nil {
			return k(a, env2)
		}
		c := *b
		c.focus = bi && n.Focus != nil
		c.s = k(a, env2)
		return &c
	}
	panic(fmt.Sprintf("VMON-ERROR argument %T", n))
}

func varName(p ast.Predicate) (string, bool) {
	w, ok := p.(*ast.WordPredicate)
	if !ok {
		return "", false
	}
	// d, o in some tone, and then another syllable or nothing.
	rs := []rune(w.T)
	if len(rs) < 2 || rs[0] != 'd' && rs[0] != 'D' {
		return "", false
	}
	lt := decomp[rs[1]]
	if lt.tone == 0 || lt.letter|0x20 != 'o' {
		return "", false
	}
	if len(rs) > 2 && strings.ContainsRune("aeiouqı", rs[2]|0x20) || len(rs) > 2 && rs[2] == 'ı' {
		return "", false
	}
	return strings.ToLower("do" + string(rs[2:])), true
}

func isHoa(p ast.Predicate) bool {
	w, ok := p.(*ast.WordPredicate)
	if !ok {
		return false
	}
	// The tone is on the first syllable only.
	return low(w.T) == "hoa"
}

func (ri *refInterp) lookup(name string, env renv) *fvar {
	for v := env.vars; v != nil; v = v.next {
		if v.name == name {
			ri.feat("variable, bound")
			return v.v
		}
	}
	ri.feat("variable, free")
	return nil
}

func (ri *refInterp) single(n *ast.PredicateArgument, env renv) (*fBind, interface{}, renv) {
	focus := n.Focus != nil
	if focus {
		ri.feat("focus")
	}
	if b, ok := ri.memo[n]; ok {
		ri.feat("lifted once")
		return nil, &fV{v: b.v, focus: focus}, env
	}
	q := "ι"
	if n.Quantifier != nil {
		q = quantOf[low(n.Quantifier.T)]
		ri.feat("quantifier " + low(n.Quantifier.T))
	}
	among := func(x *fvar) (*fBind, interface{}, renv) {
		y := ri.fresh()
		b := &fBind{q: "Λ", v: y, r: &fPred{&fW{"≺"}, []interface{}{&fV{v: y}, &fV{v: x}}}}
		if n.Relative != nil {
			b.r = &fConn{"∧", b.r, ri.relative(y, n.Relative, env)}
		}
		return b, &fV{v: y, focus: focus}, env
	}
	if name, ok := varName(n.Predicate); ok {
		if n.Quantifier != nil {
			v := ri.fresh()
			env.vars = &venv{name, v, env.vars}
			b := &fBind{q: q, v: v}
			if n.Relative != nil {
				b.r = ri.relative(v, n.Relative, env)
			}
			ri.feat("variable, quantified")
			return b, &fV{v: v, focus: focus}, env
		}
		v := ri.lookup(name, env)
		if n.Relative == nil {
			return nil, &fV{v: v, focus: focus}, env
		}
		ri.feat("variable with relative clause")
		return among(v)
	}
	if isHoa(n.Predicate) {
		if env.hoa == nil {
			ri.feat("hoa, free")
			return nil, &fV{focus: focus}, env
		}
		ri.feat("hoa, bound")
		if n.Quantifier == nil && n.Relative == nil {
			return nil, &fV{v: env.hoa.v, focus: focus}, env
		}
		ri.feat("hoa with quantifier or relative clause")
		return among(env.hoa.v)
	}
	v := ri.fresh()
	b := &fBind{q: q, v: v}
	b.r = ri.apply(n.Predicate, []farg{{t: &fV{v: v}}}, env)
	if n.Relative != nil {
		b.r = &fConn{"∧", b.r, ri.relative(v, n.Relative, env)}
	}
	a := &fV{v: v, focus: focus}
	switch q {
	case "ι":
		if ri.refersIn(b) {
			ri.feat("definite, bound in place")
			b.q = "Λ"
			return b, a, env
		}
		ri.feat("definite, at the top")
		ri.memo[n] = b
		ri.top = append(ri.top, b)
		return nil, a, env
	case "¿":
		ri.feat("hi at the top of its clause")
		ri.memo[n] = b
		env.clause.his = append(env.clause.his, b)
		return nil, a, env
	}
	return b, a, env
}

func (ri *refInterp) relative(v *fvar, n ast.Relative, env renv) interface{} {
	env.hoa = &henv{v, env.hoa}
	return ri.relativeIn(n, env)
}

func (ri *refInterp) relativeIn(n ast.Node, env renv) interface{} {
	switch n := n.(type) {
	case *ast.PredicationRelative:
		ri.feat("relative clause")
		return ri.clauseOf(env, &n.Predication)
	case *ast.LURelative:
		ri.feat("relative lu-clause")
		return ri.clauseOf(env, n.Statement)
	case *ast.CoPRelative:
		ri.feat("connected relative clauses")
		op := ri.op(n.RU)
		l := ri.relativeIn(n.Left, env)
		return &fConn{op, l, ri.relativeIn(n.Right, env)}
	case ast.Statement:
		return ri.clauseOf(env, n)
	}
	panic(fmt.Sprintf("VMON-ERROR relative %T", n))
}

// A palt is a predicate with alternatives.
type palt struct {
	op   string
	l, r *palt
	leaf interface{}
}

func (ri *refInterp) apply(n ast.Predicate, args []farg, env renv) interface{} {
	p := ri.predicate(n, env)
	var dist func(p *palt) interface{}
	dist = func(p *palt) interface{} {
		ri.step()
		if p.leaf != nil {
			return &fPred{p.leaf, ri.places(args)}
		}
		return &fConn{p.op, dist(p.l), dist(p.r)}
	}
	return dist(p)
}

func (ri *refInterp) lambda(f func(x interface{}) interface{}) *palt {
	v := ri.fresh()
	return &palt{leaf: &fAb{&fBind{q: "λ", v: v, s: f(&fV{v: v})}}}
}

func (ri *refInterp) predicate(n ast.Node, env renv) *palt {
	ri.step()
	switch n := n.(type) {
	case *ast.PredicateArgument: // left of a forethought connection
		return ri.predicate(n.Predicate, env)
	case *ast.WordPredicate:
		if name, ok := varName(n); ok {
			ri.feat("variable predicate")
			return &palt{leaf: &fV{v: ri.lookup(name, env)}}
		}
		if isHoa(n) {
			ri.feat("hoa predicate")
			if env.hoa == nil {
				return &palt{leaf: &fV{}}
			}
			return &palt{leaf: &fV{v: env.hoa.v}}
		}
		name := low(n.T)
		switch name {
		case "mea":
			ri.feat("mea")
			name = "≺"
		case "jeqtu":
			ri.feat("jeqtu")
			name = "="
		}
		return &palt{leaf: &fW{name}}
	case *ast.SerialPredicate:
		ri.feat("serial predicate")
		l := ri.predicate(n.Left, env)
		r := ri.predicate(n.Right, env)
		var cross func(l, r *palt) *palt
		cross = func(l, r *palt) *palt {
			ri.step()
			switch {
			case l.leaf == nil:
				return &palt{op: l.op, l: cross(l.l, r), r: cross(l.r, r)}
			case r.leaf == nil:
				return &palt{op: r.op, l: cross(l, r.l), r: cross(l, r.r)}
			}
			return &palt{leaf: &fSer{l.leaf, r.leaf}}
		}
		return cross(l, r)
	case *ast.MIPredicate:
		w := low(n.MI.T)
		ri.feat("predicate " + w)
		q := &fQ{text: quoted(n.Phrase)}
		return ri.lambda(func(x interface{}) interface{} {
			if w == "shu" {
				return &fPred{&fW{"="}, []interface{}{x, q}}
			}
			return &fPred{&fW{"chua"}, []interface{}{q, x}}
		})
	case *ast.MOPredicate:
		ri.feat("predicate mo")
		q := &fQ{text: quoted(&n.Discourse), full: true}
		return ri.lambda(func(x interface{}) interface{} {
			return &fPred{&fW{"="}, []interface{}{x, q}}
		})
	case *ast.POPredicate:
		w := low(n.PO.T)
		ri.feat("predicate " + w)
		name := map[string]string{"po": "raq", "jei": "="}[w]
		return ri.lambda(func(x interface{}) interface{} {
			return ri.arg(n.Argument, false, env, func(a interface{}, _ renv) interface{} {
				return &fPred{&fW{name}, []interface{}{x, a}}
			})
		})
	case *ast.LUPredicate:
		w := low(n.LU.T)
		ri.feat("predicate " + w)
		if w != "lu" {
			return &palt{leaf: &fAb{ri.clauseOf(env, n.Statement)}}
		}
		v := ri.fresh()
		env.hoa = &henv{v, env.hoa}
		return &palt{leaf: &fAb{&fBind{q: "λ", v: v, s: ri.clauseOf(env, n.Statement)}}}
	case *ast.CoPPredicate:
		ri.feat("connected predicates")
		op := ri.op(n.RU)
		l := ri.predicate(n.Left, env)
		return &palt{op: op, l: l, r: ri.predicate(n.Right, env)}
	case *ast.CoPContent:
		ri.feat("connected content clauses")
		op := ri.op(n.RU)
		l := ri.predicate(n.Left, env)
		return &palt{op: op, l: l, r: ri.predicate(n.Right, env)}
	case *ast.LUContent:
		ri.feat("content lu-clause")
		return ri.content(n.Statement, env)
	case *ast.PredicationContent:
		ri.feat("content clause")
		return ri.content(&n.Predication, env)
	case ast.Statement:
		return ri.content(n, env)
	}
	panic(fmt.Sprintf("VMON-ERROR predicate %T", n))
}

func (ri *refInterp) content(n ast.Statement, env renv) *palt {
	s := ri.clauseOf(env, n)
	return ri.lambda(func(x interface{}) interface{} {
		return &fPred{&fW{"="}, []interface{}{x, &fAb{s}}}
	})
}

func quoted(n ast.Node) string {
	var b strings.Builder
	for _, w := range wordsOf(n) {
		b.WriteString(w.T)
	}
	return strings.TrimSpace(b.String())
}

// Simplification.

func (ri *refInterp) simplify(f interface{}) interface{} {
	return ri.substitute(ri.implicitHoa(f, nil))
}

// substitute substitutes definitions and reduces applications, in one pass.
func (ri *refInterp) substitute(f interface{}) interface{} {
	asPred := map[*fvar]bool{}
	var note func(p interface{})
	note = func(p interface{}) {
		switch p := p.(type) {
		case *fV:
			if p.v != nil {
				asPred[p.v] = true
			}
		case *fSer:
			note(p.l)
			note(p.r)
		}
	}
	each(f, func(n interface{}) {
		if p, ok := n.(*fPred); ok {
			note(p.p)
		}
	})
	s := &simp{ri: ri, asPred: asPred, sub: map[*fvar]interface{}{}}
	return s.f(f)
}

// reduced repeats the substitution until there is nothing left to substitute.
// The interpreter does so in one pass, but does more of them on what occurs in several places,
// where the distribution of a connective put it; that changes nothing in what the formula says.
func reduced(f interface{}) (s string, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, big := e.(tooBig); !big {
				panic(e)
			}
			s, ok = "", false
		}
	}()
	ri := &refInterp{budget: interpBudget, features: map[string]int{}}
	for s = canonRef(f); ; {
		f = ri.substitute(f)
		t := canonRef(f)
		if t == s {
			return s, true
		}
		s = t
	}
}

// refOfLogic converts an interpreter's formula to the model's types.
func refOfLogic(st logic.Node) interface{} {
	vars := map[*logic.Binding]*fvar{}
	of := func(b *logic.Binding) *fvar {
		if b == nil {
			return nil
		}
		if vars[b] == nil {
			vars[b] = &fvar{len(vars)}
		}
		return vars[b]
	}
	var conv func(n logic.Node) interface{}
	list := func(as []logic.Argument) []interface{} {
		var l []interface{}
		for _, a := range as {
			if a == nil {
				l = append(l, nil)
			} else {
				l = append(l, conv(a))
			}
		}
		return l
	}
	conv = func(n logic.Node) interface{} {
		switch n := n.(type) {
		case *logic.Binding:
			b := &fBind{q: string(n.Quantifier), v: of(n), focus: n.Focus}
			if n.Restriction != nil {
				b.r = conv(n.Restriction)
			}
			b.s = conv(n.Scope)
			return b
		case *logic.Connection:
			return &fConn{string(n.Connector), conv(n.Left), conv(n.Right)}
		case *logic.Predication:
			return &fPred{conv(n.Predicate), list(n.Arguments)}
		case *logic.Variable:
			return &fV{v: of(n.Def), focus: n.Focus}
		case *logic.Plurality:
			return &fPl{list(n.Arguments)}
		case *logic.Quote:
			return &fQ{n.Text, n.FullText}
		case *logic.Abstraction:
			return &fAb{conv(n.Statement)}
		case *logic.Pred:
			return &fW{n.Name}
		case *logic.Serial:
			return &fSer{conv(n.Left), conv(n.Right)}
		}
		return &fW{fmt.Sprintf("UNKNOWN(%T)", n)}
	}
	return conv(st)
}

// implicitHoa gives the bound variable to predications without arguments in a restriction.
func (ri *refInterp) implicitHoa(n interface{}, of *fvar) interface{} {
	ri.step()
	switch n := n.(type) {
	case nil:
		return nil
	case *fBind:
		c := *n
		c.r, c.s = ri.implicitHoa(n.r, n.v), ri.implicitHoa(n.s, nil)
		return &c
	case *fConn:
		return &fConn{n.op, ri.implicitHoa(n.l, of), ri.implicitHoa(n.r, of)}
	case *fPred:
		c := &fPred{ri.implicitHoa(n.p, nil), nil}
		for _, a := range n.args {
			c.args = append(c.args, ri.implicitHoa(a, nil))
		}
		if of != nil && len(n.args) == 0 && !occurs(n.p, of) {
			ri.feat("implicit hoa")
			c.args = []interface{}{&fV{v: of}}
		}
		return c
	case *fPl:
		c := &fPl{}
		for _, a := range n.args {
			c.args = append(c.args, ri.implicitHoa(a, nil))
		}
		return c
	case *fAb:
		return &fAb{ri.implicitHoa(n.f, nil)}
	case *fSer:
		return &fSer{ri.implicitHoa(n.l, nil), ri.implicitHoa(n.r, nil)}
	}
	return n
}

func occurs(n interface{}, v *fvar) bool {
	found := false
	each(n, func(n interface{}) {
		if x, ok := n.(*fV); ok && x.v == v {
			found = true
		}
	})
	return found
}

type simp struct {
	ri     *refInterp
	asPred map[*fvar]bool
	sub    map[*fvar]interface{}
}

func (s *simp) f(n interface{}) interface{} {
	s.ri.step()
	switch n := n.(type) {
	case nil:
		return nil
	case *fBind:
		c := *n
		delete(s.sub, c.v) // a formula that occurs twice is simplified twice
		c.r = s.f(n.r)
		if def := s.definition(&c); def != nil {
			s.ri.feat("definition substituted")
			s.sub[c.v] = def
			return s.f(n.s)
		}
		c.s = s.f(n.s)
		return &c
	case *fConn:
		l := s.f(n.l)
		return &fConn{n.op, l, s.f(n.r)}
	case *fPred:
		var args []interface{}
		for _, a := range n.args {
			args = append(args, s.term(a))
		}
		if ab, ok := n.p.(*fAb); ok {
			if body, ok := s.reduce(ab, args); ok {
				s.ri.feat("application reduced")
				return s.f(body)
			}
		}
		return &fPred{s.pred(n.p), args}
	}
	panic(fmt.Sprintf("VMON-ERROR formula %T", n))
}

func (s *simp) definition(b *fBind) interface{} {
	p, ok := b.r.(*fPred)
	if !ok || b.q != "ι" && b.q != "Λ" || len(p.args) != 2 || p.args[0] == nil || p.args[1] == nil || s.asPred[b.v] {
		return nil
	}
	if w, ok := p.p.(*fW); !ok || w.name != "=" {
		return nil
	}
	l, def := p.args[0], p.args[1]
	v, ok := l.(*fV)
	if !ok {
		if v, ok = def.(*fV); !ok {
			return nil
		}
		def = l
	}
	if v.v != b.v {
		return nil
	}
	if occurs(def, b.v) {
		s.ri.feat("definition refers to itself")
		return nil
	}
	if _, ok := def.(*fV); ok {
		return nil
	}
	return def
}

func (s *simp) reduce(ab *fAb, args []interface{}) (interface{}, bool) {
	var vs []*fvar
	body := ab.f
	for {
		b, ok := body.(*fBind)
		if !ok || b.q != "λ" || b.r != nil {
			break
		}
		if s.asPred[b.v] {
			return nil, false
		}
		vs = append(vs, b.v)
		body = b.s
	}
	if len(vs) == 0 || len(vs) != len(args) {
		return nil, false
	}
	for _, a := range args {
		if a == nil {
			return nil, false
		}
	}
	for i, v := range vs {
		s.sub[v] = args[i]
	}
	return body, true
}

func (s *simp) term(n interface{}) interface{} {
	switch n := n.(type) {
	case *fV:
		if n.v != nil {
			if a, ok := s.sub[n.v]; ok {
				return a
			}
		}
		return n
	case *fPl:
		c := &fPl{}
		for _, a := range n.args {
			a = s.term(a)
			if p, ok := a.(*fPl); ok {
				c.args = append(c.args, p.args...)
			} else {
				c.args = append(c.args, a)
			}
		}
		return c
	case *fAb:
		return &fAb{s.f(n.f)}
	}
	return n
}

func (s *simp) pred(n interface{}) interface{} {
	switch n := n.(type) {
	case *fAb:
		return &fAb{s.f(n.f)}
	case *fSer:
		return &fSer{s.pred(n.l), s.pred(n.r)}
	}
	return n
}

// Canonical strings: bound variables are numbered in order of binding, free ones are U.

func canonRef(f interface{}) string {
	var b strings.Builder
	names := map[*fvar]int{}
	n := 0
	var pr func(x interface{})
	var own []*fvar // bindings whose restriction we are in
	list := func(as []interface{}) {
		for i, a := range as {
			if i > 0 {
				b.WriteByte(',')
			}
			if a == nil {
				b.WriteString("·")
			} else {
				pr(a)
			}
		}
	}
	pr = func(x interface{}) {
		switch x := x.(type) {
		case *fBind:
			old, had := names[x.v]
			names[x.v] = n
			n++
			b.WriteString(x.q)
			if x.focus {
				b.WriteByte('*')
			}
			fmt.Fprintf(&b, "%d[", names[x.v])
			if x.r != nil {
				own = append(own, x.v)
				pr(x.r)
				own = own[:len(own)-1]
			}
			b.WriteByte(']')
			pr(x.s)
			if had {
				names[x.v] = old
			} else {
				delete(names, x.v)
			}
		case *fConn:
			b.WriteByte('(')
			pr(x.l)
			b.WriteString(" " + x.op + " ")
			pr(x.r)
			b.WriteByte(')')
		case *fPred:
			pr(x.p)
			b.WriteByte('(')
			list(x.args)
			b.WriteByte(')')
		case *fV:
			if x.focus {
				mark := true
				for _, v := range own {
					if v == x.v && v != nil {
						mark = false
					}
				}
				if mark {
					b.WriteByte('*')
				}
			}
			if x.v == nil {
				b.WriteByte('U')
			} else if k, ok := names[x.v]; ok {
				fmt.Fprintf(&b, "X%d", k)
			} else {
				b.WriteString("ILLSCOPED")
			}
		case *fPl:
			b.WriteString("⌊")
			list(x.args)
			b.WriteString("⌉")
		case *fQ:
			fmt.Fprintf(&b, "%v%q", x.full, x.text)
		case *fAb:
			b.WriteByte('{')
			pr(x.f)
			b.WriteByte('}')
		case *fW:
			b.WriteString(x.name)
		case *fSer:
			b.WriteByte('<')
			pr(x.l)
			b.WriteString("∘")
			pr(x.r)
			b.WriteByte('>')
		default:
			panic(fmt.Sprintf("VMON-ERROR canonRef %T", x))
		}
	}
	pr(f)
	return b.String()
}

func nilLogic(n logic.Node) bool { return n == nil || isNilPtr(n) }

func canonLogic(st logic.Statement) string { return canonLogicOf(st, false, nil) }

// canonLogicOf optionally hides quoted texts and renames predicates.
func canonLogicOf(st logic.Statement, noQuotes bool, rename func(string) string) string {
	var b strings.Builder
	names := map[*logic.Binding]int{}
	n := 0
	var own []*logic.Binding
	var pr func(x logic.Node)
	list := func(as []logic.Argument) {
		for i, a := range as {
			if i > 0 {
				b.WriteByte(',')
			}
			if a == nil {
				b.WriteString("·")
			} else {
				pr(a)
			}
		}
	}
	pr = func(x logic.Node) {
		switch x := x.(type) {
		case *logic.Binding:
			old, had := names[x]
			names[x] = n
			n++
			b.WriteString(string(x.Quantifier))
			if x.Focus {
				b.WriteByte('*')
			}
			fmt.Fprintf(&b, "%d[", names[x])
			if x.Restriction != nil {
				own = append(own, x)
				pr(x.Restriction)
				own = own[:len(own)-1]
			}
			b.WriteByte(']')
			if x.Scope == nil {
				b.WriteString("NOSCOPE")
			} else {
				pr(x.Scope)
			}
			if had {
				names[x] = old
			} else {
				delete(names, x)
			}
		case *logic.Connection:
			b.WriteByte('(')
			pr(x.Left)
			b.WriteString(" " + string(x.Connector) + " ")
			pr(x.Right)
			b.WriteByte(')')
		case *logic.Predication:
			pr(x.Predicate)
			b.WriteByte('(')
			list(x.Arguments)
			b.WriteByte(')')
		case *logic.Variable:
			if x.Focus {
				mark := true
				for _, v := range own {
					if v == x.Def && v != nil {
						mark = false
					}
				}
				if mark {
					b.WriteByte('*')
				}
			}
			if x.Def == nil {
				b.WriteByte('U')
			} else if k, ok := names[x.Def]; ok {
				fmt.Fprintf(&b, "X%d", k)
			} else {
				b.WriteString("ILLSCOPED")
			}
		case *logic.Plurality:
			b.WriteString("⌊")
			list(x.Arguments)
			b.WriteString("⌉")
		case *logic.Quote:
			if noQuotes {
				fmt.Fprintf(&b, "%v quote", x.FullText)
			} else {
				fmt.Fprintf(&b, "%v%q", x.FullText, x.Text)
			}
		case *logic.Abstraction:
			b.WriteByte('{')
			pr(x.Statement)
			b.WriteByte('}')
		case *logic.Pred:
			if rename != nil {
				b.WriteString(rename(x.Name))
			} else {
				b.WriteString(x.Name)
			}
		case *logic.Serial:
			b.WriteByte('<')
			pr(x.Left)
			b.WriteString("∘")
			pr(x.Right)
			b.WriteByte('>')
		case *logic.Swap:
			fmt.Fprintf(&b, "(swap%d ", x.Pos)
			pr(x.Predicate)
			b.WriteByte(')')
		default:
			fmt.Fprintf(&b, "UNKNOWN(%T)", x)
		}
	}
	pr(st)
	return b.String()
}
