package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

func init() {
	register(&prop{id: "C21", quick: 25000, thorough: 800000, fixed: append(append([]string{}, hostileTexts...), logicTexts...), gen: func(r *rand.Rand, i int) string {
		if i%4 == 0 {
			return genGood(r)
		}
		return logicGen(r, i)
	}, check: checkC21,
		rule:        logicRule + "Each accepted text is rewritten in several ways at random places; a rewrite counts if the AST of the rewritten text is the one intended. Non-trivial: distinct rewritten texts.",
		need:        []string{"respelled", "free modifier added", "prefix or illocution added", "terminator added", "optional word removed", "made forethought", "made afterthought", "moved to a pa-prenex", "moved from a pa-prenex", "variable renamed", "predicate replaced", "concatenated", "concatenated, with definites"},
		assumptions: []string{"the rewrites that count are those whose AST is the intended one, as compared by an independent dump"}})
}

// metaCanon is the interpretation up to names of variables and quoted texts; ok is false if there is none.
func metaCanon(o *obs, t *ast.Text, rename func(string) string) (s string, ok bool) {
	if ref, _ := refOf(newQuiet(), t); ref == nil {
		return "", false
	}
	st, msg := interpret(t)
	if msg != "" {
		return "panic: " + msg, true
	}
	if st == nil {
		return "nil", true
	}
	return canonLogicOf(st, true, rename), true
}

func noSpaces(ws []*ast.Word) []*ast.Word {
	var out []*ast.Word
	for _, w := range ws {
		if w.E > w.S && !isSpaceText(w.T) {
			out = append(out, w)
		}
	}
	return out
}

// render writes the words of an AST with spaces between them.
func renderWords(t ast.Node) string {
	var b strings.Builder
	for _, w := range wordsOf(t) {
		b.WriteString(w.T)
		b.WriteByte(' ')
	}
	return b.String()
}

var freeMods = []string{"bei", "kio mai? ki", "hu ji/", "ju mai? do/ na", "hu sa do/ maiV ji/ na", "kio sa do/ bi mai? hi ji/. ki", "kio ki", "bei bei"}
var illocs = []string{"da", "ka", "ba", "keo", "je", "moq", "so"}
var terminators = []string{"na", "ga", "cy"}

func checkC21(o *obs, text string) string {
	t := accepted(text)
	if t == nil {
		o.count("rejected", 1)
		return ""
	}
	want, ok := metaCanon(o, t, nil)
	if !ok {
		o.count("not interpreted", 1)
		return ""
	}
	r := textRand("C21", text)
	wantAST := dump(t, dumpMod)

	// judge compares the interpretation of a rewritten text.
	judge := func(kind, s, intended, want string) string {
		t2 := accepted(s)
		if t2 == nil || dump(t2, dumpMod) != intended {
			o.count("rewrites with another AST", 1)
			return ""
		}
		got, ok := metaCanon(o, t2, nil)
		if !ok {
			return ""
		}
		o.count(kind, 1)
		o.nontrivial(s)
		if got != want {
			return fmt.Sprintf("%s: %q: interpreted differently: %s", kind, s, firstDiff(got, want))
		}
		return ""
	}

	// Other spellings.
	if ps, ok := splitText(text); ok {
		for i := 0; i < 2; i++ {
			qs := append([]piece{}, ps...)
			for j := range qs {
				if n := len(qs[j].s.on + qs[j].s.des); n > 0 && r.Intn(3) == 0 {
					qs[j].s.caps = r.Intn(1 << uint(n))
				}
			}
			s := respell(r, qs, true)
			if t2 := accepted(s); t2 == nil || low(dump(t2, dumpMod)) != low(wantAST) {
				o.count("rewrites with another AST", 1)
				continue
			} else if got, ok := metaCanon(o, t2, nil); ok {
				o.count("respelled", 1)
				o.nontrivial(s)
				if got != want {
					return fmt.Sprintf("respelled: %q: interpreted differently: %s", s, firstDiff(got, want))
				}
			}
		}
	}

	// Added words.
	ws := noSpaces(wordsOf(t))
	if len(ws) == 0 {
		return ""
	}
	for i := 0; i < 6; i++ {
		at := ws[r.Intn(len(ws))].E
		kind, ins := "free modifier added", ""
		switch r.Intn(3) {
		case 0:
			ins = freeMods[r.Intn(len(freeMods))]
		case 1:
			kind, ins = "prefix or illocution added", illocs[r.Intn(len(illocs))]
			if ins == "je" || ins == "keo" {
				at = ws[r.Intn(len(ws))].S
			}
		case 2:
			kind, ins = "terminator added", []string{"na", "ga"}[r.Intn(2)]
		}
		if what := judge(kind, text[:at]+" "+ins+" "+text[at:], wantAST, want); what != "" {
			return what
		}
	}
	// Removed words.
	for i := 0; i < 2; i++ {
		var opt []*ast.Word
		for _, w := range ws {
			switch low(w.T) {
			case "na", "ga", "da", "ka", "ba", "so", "je", "keo", "bei":
				opt = append(opt, w)
			}
		}
		if len(opt) == 0 {
			break
		}
		w := opt[r.Intn(len(opt))]
		if what := judge("optional word removed", text[:w.S]+" "+text[w.E:], wantAST, want); what != "" {
			return what
		}
	}

	// Renamed variables and replaced predicates.
	names := map[string]bool{}
	for _, w := range ws {
		names[low(w.T)] = true
	}
	var vars, preds []string
	walk(t, func(n ast.Node) {
		if w, ok := n.(*ast.WordPredicate); ok {
			switch l := low(w.T); {
			case l == "hoa" || l == "mea" || l == "jeqtu":
			case l == "chua" || l == "raq": // also what mi and po stand for
			case isVarName(l):
				vars = append(vars, l)
			default:
				preds = append(preds, l)
			}
		}
	})
	for _, k := range []struct {
		kind  string
		names []string
		fresh []string
	}{
		{"variable renamed", vars, []string{"do", "dofa", "dojia", "domuqchi", "dodo", "dochoq"}},
		{"predicate replaced", preds, []string{"chuqmi", "doa", "doq", "poqdo", "hoai", "hoaq", "meaq", "uq", "jeqtua", "lua", "mie"}},
	} {
		if len(k.names) == 0 {
			continue
		}
		old, fresh := k.names[r.Intn(len(k.names))], k.fresh[r.Intn(len(k.fresh))]
		if names[fresh] {
			continue
		}
		t2 := accepted(text)
		s, last := "", 0
		walk(t2, func(n ast.Node) {
			if w, ok := n.(*ast.WordPredicate); ok && low(w.T) == old {
				nw := word(fresh)
				for i := range nw.syls {
					nw.syls[i].tone = '-'
				}
				nw.syls[0].tone = firstTone(w.T)
				w.T = nw.text(nPre, true)
				if w.S >= last {
					s += text[last:w.S] + w.T
					last = w.E
				}
			}
		})
		s += text[last:]
		rename := func(p string) string {
			if p == old {
				return fresh
			}
			return p
		}
		// Content words as terms of linking etc. are all WordPredicates.
		w2, ok := metaCanon(o, t, rename)
		if !ok {
			continue
		}
		if what := judge(k.kind, s, dump(t2, dumpMod), w2); what != "" {
			return what
		}
	}

	// Forethought and afterthought.
	for i := 0; i < 2; i++ {
		t2 := accepted(text)
		var cops []*ast.CoP
		walk(t2, func(n ast.Node) {
			if c := asCoP(n); c != nil {
				cops = append(cops, c)
			}
		})
		if len(cops) == 0 {
			break
		}
		c := cops[r.Intn(len(cops))]
		kind := "made forethought"
		if c.TO0 == nil {
			c.TO0, c.TO1 = &ast.Word{T: "to"}, &ast.Word{T: "to"}
		} else if _, ok := c.Left.(ast.Terms); !ok {
			c.TO0, c.TO1 = nil, nil
			kind = "made afterthought"
		}
		if what := judge(kind, renderWords(t2), dump(t2, dumpMod), want); what != "" {
			return what
		}
	}

	// pa-prenexes.
	for i := 0; i < 2; i++ {
		t2 := accepted(text)
		var slots []reflect.Value
		walk(t2, func(n ast.Node) {
			v := reflect.ValueOf(n)
			if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
				return
			}
			for _, f := range []string{"Statement", "Left", "Right"} {
				fv := v.Elem().FieldByName(f)
				if fv.IsValid() && fv.Kind() == reflect.Interface && fv.CanSet() {
					switch s := fv.Interface().(type) {
					case *ast.Predication:
						if len(s.Terms) > 0 {
							slots = append(slots, fv)
						}
					case *ast.PrenexStatement:
						if _, ok := s.Statement.(*ast.Predication); ok && low(s.Prenex.BI.T) == "pa" {
							slots = append(slots, fv)
						}
					}
				}
			}
		})
		if len(slots) == 0 {
			break
		}
		slot := slots[r.Intn(len(slots))]
		kind := "moved to a pa-prenex"
		switch s := slot.Interface().(type) {
		case *ast.Predication:
			k := 1 + r.Intn(len(s.Terms))
			p := &ast.PrenexStatement{
				Prenex:    ast.Prenex{Terms: append(ast.Terms{}, s.Terms[:k]...), BI: ast.Word{T: "pa"}},
				Statement: &ast.Predication{Predicate: s.Predicate, NA: s.NA},
			}
			if k < len(s.Terms) {
				p.Statement.(*ast.Predication).Terms = append(ast.Terms{}, s.Terms[k:]...)
			}
			slot.Set(reflect.ValueOf(p))
		case *ast.PrenexStatement:
			kind = "moved from a pa-prenex"
			p := s.Statement.(*ast.Predication)
			slot.Set(reflect.ValueOf(&ast.Predication{Predicate: p.Predicate, NA: p.NA,
				Terms: append(append(ast.Terms{}, s.Prenex.Terms...), p.Terms...)}))
		}
		if what := judge(kind, renderWords(t2), dump(t2, dumpMod), want); what != "" {
			return what
		}
	}

	// Two texts.
	if what := concatenated(o, r, text, t); what != "" {
		return what
	}
	return ""
}

func isVarName(l string) bool {
	return strings.HasPrefix(l, "do") && (len(l) == 2 || !strings.ContainsRune("aeiouq", rune(l[2])))
}

func firstTone(s string) byte {
	for _, r := range s {
		if lt, ok := decomp[r]; ok {
			return lt.tone
		}
	}
	return '-'
}

func sentences(t *ast.Text) int {
	n := 0
	for _, k := range t.Discourse {
		if _, ok := k.(ast.Sentence); ok {
			n++
		}
	}
	return n
}

// iotas returns the chain of definites a statement begins with.
func iotas(st logic.Statement) []*logic.Binding {
	var bs []*logic.Binding
	for {
		b, ok := st.(*logic.Binding)
		if !ok || b.Quantifier != logic.The {
			return bs
		}
		bs = append(bs, b)
		st = b.Scope
	}
}

func concatenated(o *obs, r *rand.Rand, text string, t *ast.Text) string {
	var text2 string
	var t2 *ast.Text
	for i := 0; i < 6; i++ {
		text2 = genLogic(r)
		if t2 = accepted(text2); t2 != nil && sentences(t2) == 1 {
			break
		}
		t2 = nil
	}
	if t2 == nil || sentences(t) == 0 {
		return ""
	}
	both := text + " " + text2
	t3 := accepted(both)
	if t3 == nil {
		return ""
	}
	all := &ast.Text{Discourse: append(append(ast.Discourse{}, t.Discourse...), t2.Discourse...)}
	if dump(t3, dumpMod) != dump(all, dumpMod) {
		o.count("rewrites with another AST", 1)
		return ""
	}
	got, ok := metaCanon(o, t3, nil)
	if !ok {
		return ""
	}
	if ref, _ := refOf(newQuiet(), t2); ref == nil {
		return ""
	}
	a, msg := interpret(t)
	b, msg2 := interpret(t2)
	if msg != "" || msg2 != "" || a == nil || b == nil {
		return ""
	}
	ka, kb := iotas(a), iotas(b)
	o.count("concatenated", 1)
	o.nontrivial(both)
	if len(ka) > 0 && len(kb) > 0 {
		o.count("concatenated, with definites", 1)
	}
	// A statement can also begin with a definite that is bound in place.
	first := ""
	for i := len(ka); i >= 0; i-- {
		for j := len(kb); j >= 0; j-- {
			conj := &logic.Connection{Connector: logic.And, Left: a, Right: b}
			if i > 0 {
				conj.Left = ka[i-1].Scope
			}
			if j > 0 {
				conj.Right = kb[j-1].Scope
			}
			var st logic.Statement = conj
			undo := func() {}
			if j > 0 {
				kb[j-1].Scope = conj
				last, right := kb[j-1], conj.Right
				undo = func() { last.Scope = right }
				st = b
			}
			if i > 0 {
				ka[i-1].Scope = st
				st = a
			}
			want := canonLogicOf(st, true, nil)
			if i > 0 {
				ka[i-1].Scope = conj.Left
			}
			undo()
			if got == want {
				return ""
			}
			if first == "" {
				first = want
			}
		}
	}
	return fmt.Sprintf("followed by %q: the interpretation is not the conjunction of the two: %s", text2, firstDiff(got, first))
}
