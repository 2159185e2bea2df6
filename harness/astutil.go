package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/eaburns/toaq/ast"
)

// kids returns the children of an AST node in text order,
// computed independently of ast.Visit.
// WordPredicate, CoP*, LU* and the like are views of a Word, CoP or LUPhrase: their single child.
// Absent optional parts are left out.
func kids(n ast.Node) []ast.Node {
	var ks []ast.Node
	w := func(p *ast.Word) {
		if p != nil {
			ks = append(ks, p)
		}
	}
	k := func(x ast.Node) {
		if !nilNode(x) {
			ks = append(ks, x)
		}
	}
	switch n := n.(type) {
	case *ast.Text:
		k(n.Leading)
		k(&n.Discourse)
	case *ast.Discourse:
		for _, x := range *n {
			k(x)
		}
	case *ast.StatementSentence:
		w(n.JE)
		k(n.Statement)
		w(n.DA)
	case *ast.Prenex:
		k(n.Terms)
		w(&n.BI)
	case *ast.PrenexStatement:
		k(&n.Prenex)
		k(n.Statement)
	case *ast.Predication:
		k(n.Predicate)
		k(n.Terms)
		w(n.NA)
	case *ast.PrefixedPredicate:
		w(&n.MU)
		k(n.Predicate)
	case *ast.SerialPredicate:
		k(n.Left)
		k(n.Right)
	case *ast.MIPredicate:
		w(&n.MI)
		k(n.Phrase)
		w(n.GA)
	case *ast.POPredicate:
		w(&n.PO)
		k(n.Argument)
		w(n.GA)
	case *ast.MOPredicate:
		w(&n.MO)
		k(&n.Discourse)
		w(&n.TEO)
	case *ast.LinkedTerm:
		w(&n.GO)
		k(n.Argument)
	case ast.Terms:
		for _, x := range n {
			k(x)
		}
	case *ast.PredicateArgument:
		w(n.Focus)
		w(n.Quantifier)
		k(n.Predicate)
		k(n.Relative)
	case *ast.PredicationRelative:
		k(&n.Predication)
	case *ast.PredicationContent:
		k(&n.Predication)
	case *ast.PredicateAdverb:
		k(n.Predicate)
	case *ast.PredicationPreposition:
		k(n.Predicate)
		k(n.Argument)
	case *ast.Parenthetical:
		w(&n.KIO)
		k(&n.Discourse)
		w(&n.KI)
	case *ast.Incidental:
		w(&n.JU)
		k(n.Statement)
	case *ast.Vocative:
		w(&n.HU)
		k(n.Argument)
	case *ast.CoP:
		if n.TO0 != nil {
			w(n.TO0)
			w(&n.RU)
			k(n.Left)
			w(n.TO1)
			k(n.Right)
		} else {
			k(n.Left)
			w(&n.RU)
			w(n.TO1)
			k(n.Right)
		}
	case *ast.LUPhrase:
		w(&n.LU)
		k(n.Statement)
	case *ast.Word:
		k(n.M)
	default:
		if c := asCoP(n); c != nil {
			k(c)
		} else if l := asLU(n); l != nil {
			k(l)
		} else if p := asWord(n); p != nil {
			k(p)
		} else {
			panic(fmt.Sprintf("VMON-ERROR unknown AST node type %T", n))
		}
	}
	return ks
}

func asCoP(n ast.Node) *ast.CoP {
	switch n := n.(type) {
	case *ast.CoPSentence:
		return (*ast.CoP)(n)
	case *ast.CoPStatement:
		return (*ast.CoP)(n)
	case *ast.CoPPredicate:
		return (*ast.CoP)(n)
	case *ast.TermSet:
		return (*ast.CoP)(n)
	case *ast.CoPArgument:
		return (*ast.CoP)(n)
	case *ast.CoPRelative:
		return (*ast.CoP)(n)
	case *ast.CoPAdverb:
		return (*ast.CoP)(n)
	case *ast.CoPPreposition:
		return (*ast.CoP)(n)
	case *ast.CoPContent:
		return (*ast.CoP)(n)
	}
	return nil
}

func asLU(n ast.Node) *ast.LUPhrase {
	switch n := n.(type) {
	case *ast.LUPredicate:
		return (*ast.LUPhrase)(n)
	case *ast.LURelative:
		return (*ast.LUPhrase)(n)
	case *ast.LUContent:
		return (*ast.LUPhrase)(n)
	}
	return nil
}

func asWord(n ast.Node) *ast.Word {
	switch n := n.(type) {
	case *ast.WordPredicate:
		return (*ast.Word)(n)
	case *ast.Interjection:
		return (*ast.Word)(n)
	case *ast.Space:
		return (*ast.Word)(n)
	}
	return nil
}

func nilNode(n ast.Node) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return (v.Kind() == reflect.Ptr || v.Kind() == reflect.Slice) && v.IsNil()
}

// walk calls f for every node in pre-order.
func walk(n ast.Node, f func(ast.Node)) {
	if nilNode(n) {
		return
	}
	f(n)
	for _, k := range kids(n) {
		walk(k, f)
	}
}

// wordsOf returns all words, including spaces, in order.
func wordsOf(n ast.Node) []*ast.Word {
	var ws []*ast.Word
	walk(n, func(n ast.Node) {
		if w, ok := n.(*ast.Word); ok {
			ws = append(ws, w)
		}
	})
	return ws
}

type dumpOpts struct {
	offs   bool // include S and E
	spaces bool // include Space nodes
	breve  bool // unify breve and caron
	// modulo leaves out free modifiers and what is optional or determined by the kind of connection:
	// NA, GA, JE, DA, TO0 and TO1.
	modulo bool
}

var (
	dumpFull = dumpOpts{offs: true, spaces: true}
	dumpNoS  = dumpOpts{spaces: true}
	dumpBare = dumpOpts{breve: true}
	dumpMod  = dumpOpts{breve: true, modulo: true}
)

// dump writes a canonical form of an AST: all fields, by name, by reflection.
func dump(n ast.Node, o dumpOpts) string {
	var b strings.Builder
	dumpVal(&b, reflect.ValueOf(n), o)
	return b.String()
}

var (
	wordType  = reflect.TypeOf(ast.Word{})
	spaceType = reflect.TypeOf(ast.Space{})
)

func dumpVal(b *strings.Builder, v reflect.Value, o dumpOpts) {
	for v.IsValid() && (v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr) {
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		v = v.Elem()
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		b.WriteString(v.Type().Name())
		if v.IsNil() {
			b.WriteString("(nil)")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if _, ok := v.Index(i).Interface().(ast.Mod); ok && o.modulo {
				continue
			}
			if i > 0 {
				b.WriteByte(' ')
			}
			dumpVal(b, v.Index(i), o)
		}
		b.WriteByte(']')
	case reflect.Struct:
		t := v.Type()
		if t.ConvertibleTo(wordType) {
			w := v.Convert(wordType).Interface().(ast.Word)
			if t == spaceType && !o.spaces {
				if w.M == nil {
					b.WriteString("nil")
				} else {
					dumpVal(b, reflect.ValueOf(w.M), o)
				}
				return
			}
			b.WriteString(t.Name())
			b.WriteByte('{')
			s := w.T
			if o.breve {
				s = unbreve(s)
			}
			b.WriteString(strconv.Quote(s))
			if o.offs {
				fmt.Fprintf(b, " %d-%d", w.S, w.E)
			}
			if w.M != nil && !o.modulo {
				var mb strings.Builder
				dumpVal(&mb, reflect.ValueOf(w.M), o)
				if mb.String() != "nil" {
					b.WriteString(" M:" + mb.String())
				}
			}
			b.WriteByte('}')
			return
		}
		b.WriteString(t.Name())
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if (f.Kind() == reflect.Ptr || f.Kind() == reflect.Interface) && f.IsNil() {
				continue
			}
			if name := t.Field(i).Name; o.modulo {
				switch name {
				case "NA", "GA", "JE", "DA", "TO0", "TO1":
					continue
				}
				if a, ok := f.Interface().(*ast.PredicateArgument); ok && t.Name() == "CoPPredicate" && a.Focus == nil && a.Quantifier == nil && a.Relative == nil {
					f = reflect.ValueOf(a.Predicate)
				}
			}
			if t.Name() == "Text" && t.Field(i).Name == "Leading" && !o.spaces {
				continue
			}
			b.WriteString(t.Field(i).Name)
			b.WriteByte(':')
			dumpVal(b, f, o)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Int:
		fmt.Fprint(b, v.Int())
	default:
		fmt.Fprintf(b, "<%v>", v)
	}
}

func unbreve(s string) string {
	var b strings.Builder
	for _, r := range s {
		if lt, ok := decomp[r]; ok && lt.tone == 'V' {
			b.WriteString(preOf[lt])
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// parse parses with a fresh parser.
func parse(text string) (*ast.Text, ast.Error) {
	return ast.NewParser(text).Text()
}

// mustParse is for texts that are known to be accepted.
func accepted(text string) *ast.Text {
	t, err := parse(text)
	if err != nil {
		return nil
	}
	return t
}

// normWord computes the spelling of a word from its source text:
// the tone as a precomposed letter on the first vowel of the syllable, i as ı.
func normWord(s string) string {
	var out []rune
	first := -1   // index in out of the first vowel of the syllable
	coda := false // seen a vowel or q; a consonant begins a new syllable
	for _, r := range s {
		switch {
		case r == 'i':
			r = 'ı'
			fallthrough
		case strings.ContainsRune("aeiouıAEIOU", r):
			if first < 0 || !coda {
				first = len(out)
			}
			coda = true
			out = append(out, r)
		case decomp[r] != letterTone{}:
			if first < 0 || !coda {
				first = len(out)
			}
			coda = true
			out = append(out, r)
		case r == 'q' || r == 'Q':
			out = append(out, r)
		case combOf[r] != 0 || markOf[r] != 0:
			t := combOf[r]
			if t == 0 {
				t = markOf[r]
			}
			if first >= 0 {
				l := out[first]
				if l == 'ı' {
					l = 'i'
				}
				if p, ok := preOf[letterTone{l, t}]; ok {
					out[first] = []rune(p)[0]
				}
			}
		default:
			out = append(out, r)
			coda = false
		}
	}
	return string(out)
}

func isNilPtr(x interface{}) bool {
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Ptr && v.IsNil()
}
