package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/eaburns/pretty"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

func init() {
	register(&prop{id: "C29", quick: 90000, thorough: 900000, fixed: append(append([]string{}, hostileTexts...), logicTexts...), gen: func(r *rand.Rand, i int) string {
		if i%5 == 0 {
			return fmt.Sprintf("tree:%d", r.Int63())
		}
		if i%5 == 1 {
			return goodGen(r, i)
		}
		return genLogic(r)
	}, check: checkC29,
		rule: textRule + "A case is a text or the seed of a random formula. The dumps of its AST, of the statement and of parts of both are compared with those by an independent renderer, and the statement is traversed and stripped from its root and from parts of it. Non-trivial: distinct dumps.",
		need: nodeNeeds("accepted", "nodes: PrefixedPredicate", "AST dumps", "statement dumps", "statements", "random formulas", "traversals", "links stripped", "links kept outside", "logic: Binding", "logic: Connection", "logic: Predication", "logic: Variable", "logic: Plurality", "logic: Quote", "logic: Pred", "logic: Abstraction", "logic: Serial", "logic: Swap")})
}

// refDump renders a tree: types, non-empty parts by name, and leaves as they are.
func refDump(b *strings.Builder, indent string, v reflect.Value) {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		v = v.Elem()
	}
	if v.Kind() == reflect.Slice {
		if v.Len() == 0 {
			b.WriteString("[]")
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			b.WriteString(indent + "\t")
			refDump(b, indent+"\t", v.Index(i))
		}
		b.WriteString(indent + "]")
		return
	}
	switch v.Kind() {
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
		return
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
		return
	case reflect.Int:
		fmt.Fprintf(b, "%d", v.Int())
		return
	case reflect.Struct:
	default:
		b.WriteString("<" + v.Kind().String() + ">")
		return
	}
	name := v.Type().Name()
	str := func(f string) string { return v.FieldByName(f).String() }
	switch name {
	case "Word":
		b.WriteString(`"` + str("T") + `"`)
		return
	case "WordPredicate", "Interjection", "Space":
		b.WriteString(name + `("` + str("T") + `")`)
		return
	case "Quote":
		b.WriteString(`Quote("` + str("Text") + `")`)
		return
	case "Pred":
		b.WriteString(`"` + str("Name") + `"`)
		return
	case "Variable":
		if v.FieldByName("Focus").Bool() {
			b.WriteString("*")
		}
		fmt.Fprintf(b, "Variable(%d)", v.FieldByName("N").Int())
		return
	}
	var fields []int
	lines := false
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Interface, reflect.Ptr:
			if f.IsNil() {
				continue
			}
			lines = true
		case reflect.Slice:
			if f.Len() == 0 {
				continue
			}
			lines = true
		case reflect.Struct:
			lines = true
		}
		fields = append(fields, i)
	}
	lines = lines || len(fields) > 1
	b.WriteString(name + "{")
	for _, i := range fields {
		if lines {
			b.WriteString(indent + "\t")
		}
		b.WriteString(v.Type().Field(i).Name + ": ")
		refDump(b, indent+"\t", v.Field(i))
	}
	if lines {
		b.WriteString(indent)
	}
	b.WriteString("}")
}

func diffDump(x interface{}) string {
	var b strings.Builder
	refDump(&b, "\n", reflect.ValueOf(x))
	if got := pretty.String(x); got != b.String() {
		return firstDiff(got, b.String())
	}
	return ""
}

func checkC29(o *obs, text string) string {
	r := textRand("C29", text)
	var st logic.Statement
	if strings.HasPrefix(text, "tree:") {
		seed, err := strconv.ParseInt(text[5:], 10, 64)
		if err != nil {
			return ""
		}
		o.count("random formulas", 1)
		st = randomFormula(rand.New(rand.NewSource(seed)))
		// Links to something.
		lwalk(st, func(n logic.Node) {
			f := reflect.ValueOf(n).Elem().FieldByName("AST")
			if r.Intn(4) > 0 {
				f.Set(reflect.ValueOf([]ast.Node{&ast.Word{T: "bu", S: 1}, &ast.WordPredicate{T: "bu"}, &ast.Text{}, ast.Terms{}, &ast.CoPArgument{}}[r.Intn(5)]))
			}
		})
	} else {
		t := accepted(text)
		if t == nil {
			o.count("rejected", 1)
			return ""
		}
		o.count("accepted", 1)
		countNodes(o, t)
		before := dump(t, dumpFull)
		if d := diffDump(t); d != "" {
			return "the dump of the AST: " + d
		}
		o.nontrivial(pretty.String(t))
		var nodes []ast.Node
		walk(t, func(n ast.Node) { nodes = append(nodes, n) })
		for i := 0; i < 4; i++ {
			n := nodes[r.Intn(len(nodes))]
			if d := diffDump(n); d != "" {
				return fmt.Sprintf("the dump of a %T: %s", n, d)
			}
			o.count("AST dumps", 1)
		}
		if dump(t, dumpFull) != before {
			return "dumping the AST changed it"
		}
		if e := edited(o, r, text); e != nil {
			countNodes(o, e)
			if d := diffDump(e); d != "" {
				return "the dump after edits: " + d
			}
		}
		ref, _ := refOf(newQuiet(), t)
		if ref == nil {
			return ""
		}
		if st, _ = interpret(t); st == nil {
			return ""
		}
		o.count("statements", 1)
	}
	var all []logic.Node
	lwalk(st, func(n logic.Node) {
		all = append(all, n)
		o.count("logic: "+reflect.TypeOf(n).Elem().Name(), 1)
	})
	before := unlinked(st)

	// Traversals and stripping, of parts and then of all.
	for i := 0; i < 4; i++ {
		n := all[r.Intn(len(all))]
		if i == 3 {
			n = st
		}
		var want, got []logic.Node
		lwalk(n, func(n logic.Node) { want = append(want, n) })
		n.Visit(func(n logic.Node) { got = append(got, n) })
		o.count("traversals", 1)
		for i := 0; i < len(want) || i < len(got); i++ {
			if i >= len(want) || i >= len(got) || want[i] != got[i] {
				return fmt.Sprintf("from a %T: visited %d nodes; node %d of %d is not the one expected", n, len(got), i, len(want))
			}
		}
		links := map[logic.Node]ast.Node{}
		for _, m := range all {
			l := linkOf(m)
			if !sameLink(l, m.ASTNode()) {
				return fmt.Sprintf("ASTNode of a %T is not its AST", m)
			}
			links[m] = l
		}
		if i < 2 && r.Intn(2) == 0 {
			continue
		}
		logic.NillOutAST(n)
		inside := map[logic.Node]bool{}
		for _, m := range want {
			inside[m] = true
		}
		for _, m := range all {
			l := linkOf(m)
			switch {
			case inside[m] && l != nil:
				return fmt.Sprintf("NillOutAST of a %T: a %T still has its AST link", n, m)
			case !inside[m] && !sameLink(l, links[m]):
				return fmt.Sprintf("NillOutAST of a %T changed the link of a %T that is not part of it", n, m)
			case inside[m] && links[m] != nil:
				o.count("links stripped", 1)
			case !inside[m] && l != nil:
				o.count("links kept outside", 1)
			}
		}
	}
	if after := unlinked(st); after != before {
		return "NillOutAST changed the statement: " + firstDiff(after, before)
	}
	o.count("statement dumps", 1)
	o.nontrivial(pretty.String(st))
	if d := diffDump(st); d != "" {
		return "the dump of the statement: " + d
	}
	n := all[r.Intn(len(all))]
	if d := diffDump(n); d != "" {
		return fmt.Sprintf("the dump of a %T of the statement: %s", n, d)
	}
	if after := unlinked(st); after != before {
		return "dumping changed the statement: " + firstDiff(after, before)
	}
	return ""
}

func linkOf(n logic.Node) ast.Node {
	l, _ := reflect.ValueOf(n).Elem().FieldByName("AST").Interface().(ast.Node)
	return l
}

// sameLink tells whether two links are to the same node; some nodes are slices.
func sameLink(a, b ast.Node) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if !x.IsValid() || !y.IsValid() {
		return x.IsValid() == y.IsValid()
	}
	if x.Type() != y.Type() {
		return false
	}
	if x.Kind() == reflect.Slice {
		return x.Len() == y.Len() && x.Pointer() == y.Pointer()
	}
	return a == b
}

// unlinked shows all of a statement but its links.
func unlinked(st logic.Statement) string {
	var b strings.Builder
	b.WriteString(canonLogic(st))
	lwalk(st, func(n logic.Node) {
		switch n := n.(type) {
		case *logic.Binding:
			fmt.Fprintf(&b, " %s%d%v", n.Quantifier, n.N, n.Focus)
		case *logic.Variable:
			fmt.Fprintf(&b, " %d%v%p", n.N, n.Focus, n.Def)
		}
	})
	return b.String()
}
