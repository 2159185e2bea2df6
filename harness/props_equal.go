package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/eaburns/toaq/ast"
)

// A mutation point of an AST: a function that changes the AST in place, and its kind.
type mutPoint struct {
	kind string
	do   func()
}

// mutPoints lists single-point changes that make an AST structurally different.
func mutPoints(t *ast.Text) []mutPoint {
	var ps []mutPoint
	add := func(kind string, f func()) { ps = append(ps, mutPoint{kind, f}) }
	walk(t, func(n ast.Node) {
		tn := fmt.Sprintf("%T", n)
		if w, ok := n.(*ast.Word); ok {
			add("spelling", func() { w.T += "x" })
			add("spelling case", func() {
				if w.T != "" && w.T[0] >= 'a' && w.T[0] <= 'z' {
					w.T = string(w.T[0]-0x20) + w.T[1:]
				} else {
					w.T = "z" + w.T
				}
			})
			if w.M != nil {
				add("modifier removed", func() { w.M = nil })
			} else {
				add("modifier added", func() { w.M = &ast.Interjection{T: "beı"} })
			}
			return
		}
		if d, ok := n.(*ast.Discourse); ok {
			if len(*d) > 1 {
				add("item removed "+tn, func() { *d = (*d)[:len(*d)-1] })
				add("first item removed "+tn, func() { *d = (*d)[1:] })
			}
			if len(*d) > 0 {
				add("item added "+tn, func() { *d = append((*d)[:len(*d):len(*d)], (*d)[0]) })
			}
			return
		}
		v := reflect.ValueOf(n)
		if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
			return
		}
		v = v.Elem()
		if v.Type().ConvertibleTo(wordType) {
			return
		}
		// The view of a CoP or LUPhrase: visited as the general node.
		if asCoP(n) != nil || asLU(n) != nil {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			name := v.Type().Field(i).Name
			kind := tn + "." + name
			switch x := f.Addr().Interface().(type) {
			case **ast.Word:
				if *x != nil {
					if !(name == "TO0") {
						add("removed "+kind, func() { *x = nil })
					} else {
						add("removed "+kind, func() { *x = nil })
					}
				} else {
					add("added "+kind, func() { *x = &ast.Word{T: "na"} })
				}
			case *ast.Terms:
				if len(*x) > 0 {
					if name == "Terms" && v.Type().Name() == "Predication" {
						add("removed "+kind, func() { *x = nil })
					}
					add("item added "+kind, func() { *x = append((*x)[:len(*x):len(*x)], (*x)[0]) })
					if len(*x) > 1 {
						add("item removed "+kind, func() { *x = (*x)[: len(*x)-1 : len(*x)-1] })
					}
				} else if v.Type().Name() == "Predication" {
					add("added "+kind, func() { *x = ast.Terms{(&ast.PredicateArgument{Predicate: &ast.WordPredicate{T: "jí"}})} })
				}
			case *ast.Relative:
				if *x != nil {
					add("removed "+kind, func() { *x = nil })
				} else {
					add("added "+kind, func() {
						*x = &ast.PredicationRelative{Predication: ast.Predication{Predicate: &ast.WordPredicate{T: "gǐ"}}}
					})
				}
			case *ast.Mod:
				if *x != nil {
					add("removed "+kind, func() { *x = nil })
				} else {
					add("added "+kind, func() { *x = &ast.Space{T: " "} })
				}
			case *ast.Predicate:
				old := *x
				add("replaced "+kind, func() { *x = &ast.WordPredicate{T: "zzz"} })
				add("wrapped "+kind, func() { *x = &ast.SerialPredicate{Left: old, Right: old} })
				add("prefixed "+kind, func() { *x = &ast.PrefixedPredicate{MU: ast.Word{T: "mu"}, Predicate: old} })
			case *ast.Argument:
				old := *x
				add("replaced "+kind, func() { *x = &ast.PredicateArgument{Predicate: &ast.WordPredicate{T: "zzz"}} })
				add("connected "+kind, func() { *x = &ast.CoPArgument{Left: old, RU: ast.Word{T: "ru"}, Right: old} })
			case *ast.Statement:
				old := *x
				add("replaced "+kind, func() { *x = &ast.Predication{Predicate: &ast.WordPredicate{T: "zzz"}} })
				add("connected "+kind, func() { *x = &ast.CoPStatement{Left: old, RU: ast.Word{T: "ru"}, Right: old} })
			case *ast.Phrase:
				add("replaced "+kind, func() { *x = &ast.WordPredicate{T: "zzz"} })
			}
		}
		if c, ok := n.(*ast.CoP); ok {
			add("swapped sides "+tn, func() { c.Left, c.Right = c.Right, c.Left })
			l := c.Left
			add("left on both sides "+tn, func() { c.Right = l })
		}
	})
	return ps
}

func checkC10(o *obs, text string) string {
	a, b := accepted(text), accepted(text)
	if a == nil || b == nil {
		o.count("rejected", 1)
		return ""
	}
	r := textRand("C10", text)
	countNodes(o, a)
	da := dump(a, dumpNoS)
	before := dump(a, dumpFull)
	pair := func(x, y ast.Node, dx, dy string) string {
		want := dx == dy
		if got := ast.Equal(x, y); got != want {
			return fmt.Sprintf("Equal is %v for %s and %s", got, head(dx, 700), head(dy, 700))
		}
		if got := ast.Equal(y, x); got != want {
			return fmt.Sprintf("Equal is %v the other way around for %s and %s", got, head(dx, 700), head(dy, 700))
		}
		if want {
			o.count("equal pairs", 1)
		} else {
			o.count("unequal pairs", 1)
		}
		return ""
	}
	if what := pair(a, a, da, da); what != "" {
		return what
	}
	if what := pair(a, b, da, dump(b, dumpNoS)); what != "" {
		return what
	}
	o.nontrivial(text)
	// Offsets are ignored.
	for _, w := range wordsOf(b) {
		w.S += 7
		w.E += 9
	}
	if what := pair(a, b, da, da); what != "" {
		return "with other offsets: " + what
	}
	// Single-point changes.
	n := len(mutPoints(b))
	for i := 0; i < 8 && n > 0; i++ {
		c := accepted(text)
		ps := mutPoints(c)
		if len(ps) == 0 {
			break
		}
		m := ps[r.Intn(len(ps))]
		m.do()
		o.count("single-point changes", 1)
		o.nontrivial("change: " + m.kind)
		if what := pair(a, c, da, dump(c, dumpNoS)); what != "" {
			return m.kind + ": " + what
		}
	}
	// Trees the parser would not make.
	x, y := edited(o, textRand("C10 edits", text), text), edited(o, textRand("C10 edits", text), text)
	dx := dump(x, dumpNoS)
	if what := pair(x, y, dx, dump(y, dumpNoS)); what != "" {
		return "after edits: " + what
	}
	if ps := mutPoints(y); len(ps) > 0 {
		m := ps[r.Intn(len(ps))]
		// Changes within the nodes that the parser does not make.
		var inner []mutPoint
		walk(y, func(n ast.Node) {
			if p, ok := n.(*ast.PrefixedPredicate); ok {
				old := p.Predicate
				inner = append(inner,
					mutPoint{"mu changed", func() { p.MU.T += "x" }},
					mutPoint{"predicate after mu changed", func() { p.Predicate = &ast.WordPredicate{T: "zzz"} }},
					mutPoint{"second mu", func() { p.Predicate = &ast.PrefixedPredicate{MU: ast.Word{T: "mu"}, Predicate: old} }})
			}
		})
		if len(inner) > 0 && r.Intn(2) == 0 {
			m = inner[r.Intn(len(inner))]
		}
		m.do()
		o.count("single-point changes", 1)
		if what := pair(x, y, dx, dump(y, dumpNoS)); what != "" {
			return m.kind + " after edits: " + what
		}
	}
	// Nodes with one another: any two nodes may be compared.
	var nodes []ast.Node
	walk(a, func(n ast.Node) { nodes = append(nodes, n) })
	for i := 0; i < 12; i++ {
		x, y := nodes[r.Intn(len(nodes))], nodes[r.Intn(len(nodes))]
		if what := pair(x, y, viewName(x)+dump(x, dumpNoS), viewName(y)+dump(y, dumpNoS)); what != "" {
			return what
		}
	}
	for i := 0; i < 4; i++ {
		x := nodes[r.Intn(len(nodes))]
		if ast.Equal(x, nil) || ast.Equal(nil, x) {
			return fmt.Sprintf("a %T is equal to nil", x)
		}
	}
	if !ast.Equal(nil, nil) {
		return "nil is not equal to nil"
	}
	if dump(a, dumpFull) != before {
		return "comparing changed the AST"
	}
	return ""
}

func viewName(n ast.Node) string { return fmt.Sprintf("%T ", n) }

// edited returns the AST of the text with a few edits that the parser would not make,
// but that leave it a tree: predicates are given a prefix, optional parts are added and removed.
func edited(o *obs, r *rand.Rand, text string) *ast.Text {
	t := accepted(text)
	if t == nil {
		return nil
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		var ps, pre []mutPoint
		for _, p := range mutPoints(t) {
			if strings.HasSuffix(p.kind, ".TO0") || strings.HasSuffix(p.kind, ".TO1") {
				continue // a connection has both or none
			}
			switch k, _, _ := strings.Cut(p.kind, " "); k {
			case "prefixed":
				pre = append(pre, p)
			case "removed", "added", "modifier":
				ps = append(ps, p)
			}
		}
		if len(pre) > 0 && r.Intn(2) == 0 {
			ps = pre
		}
		if len(ps) == 0 {
			break
		}
		ps[r.Intn(len(ps))].do()
		o.count("edits", 1)
	}
	return t
}
