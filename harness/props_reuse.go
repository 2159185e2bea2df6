package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/toaq/ast"
)

func init() {
	register(&prop{id: "C07", quick: 1500, thorough: 60000, fixed: hostileTexts, gen: textGen, check: checkC07, global: bursts("C07", 60, 600),
		rule:        textRule + "On one parser a random sequence of 3 to 9 requests is made; each result is compared with that of a fresh parser, results are overwritten through reflection and all others compared again; then goroutines repeat it with parsers of their own and read one AST, under the race detector. Bursts: processes in which 8 goroutines make requests as the first thing that happens; their results are compared with sequential ones in another process. Non-trivial: distinct (text, sequence).",
		need:        []string{"requests", "results overwritten", "goroutines", "failed requests", "accepted", "processes of bursts"},
		assumptions: []string{"the race detector sees the interleavings of this run only"}})
}

// scramble overwrites everything reachable from v.
func scramble(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		scramble(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			scramble(v.Elem(), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(v.Field(i), seen)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i), seen)
		}
		// Also what an append by the owner would overwrite.
		if v.Cap() > v.Len() && v.CanSet() {
			full := v.Slice(0, v.Cap())
			for i := v.Len(); i < v.Cap(); i++ {
				full.Index(i).Set(reflect.Zero(v.Type().Elem()))
			}
		}
		if v.CanSet() {
			for i := 0; i < v.Len(); i++ {
				v.Index(i).Set(reflect.Zero(v.Type().Elem()))
			}
			v.Set(reflect.Zero(v.Type()))
		}
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString("☠")
	case reflect.Int:
		v.SetInt(-77)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Ptr, reflect.Interface:
		v.Set(reflect.Zero(v.Type()))
	}
}

func dumpTree(n *peg.Node, b *strings.Builder) {
	if n == nil {
		b.WriteString("nil")
		return
	}
	fmt.Fprintf(b, "%s%q(", n.Name, n.Text)
	for _, k := range n.Kids {
		dumpTree(k, b)
	}
	b.WriteByte(')')
}

// hashFail hashes a heavily shared failure tree.
func hashFail(f *peg.Fail, memo map[*peg.Fail]uint64) uint64 {
	if f == nil {
		return 1
	}
	if h, ok := memo[f]; ok {
		return h
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s %d %s", f.Name, f.Pos, f.Want)
	for _, k := range f.Kids {
		fmt.Fprintf(&b, " %x", hashFail(k, memo))
	}
	h := hash64(b.String())
	memo[f] = h
	return h
}

type request struct {
	kind byte // 't' Text, 'n' Tree, 'w' Word
	off  int
	path string
}

func (q request) String() string {
	if q.kind == 'w' {
		return fmt.Sprintf("Word(%d)", q.off)
	}
	return map[byte]string{'t': "Text()", 'n': "Tree()"}[q.kind]
}

// An answer is the result of a request.
type answer struct {
	req  request
	text *ast.Text
	tree *peg.Node
	word *ast.Word
	n    int
	err  ast.Error
}

func (q request) do(p *ast.Parser) *answer {
	a := &answer{req: q}
	p.FilePath = q.path
	switch q.kind {
	case 't':
		a.text, a.err = p.Text()
	case 'n':
		a.tree, a.err = p.Tree()
	default:
		a.word, a.n, a.err = p.Word(q.off)
	}
	return a
}

func (a *answer) dump() string {
	if a.err != nil {
		return fmt.Sprintf("error %q at %d, failures %x", a.err.Error(), a.err.ByteOffset(), hashFail(a.err.Tree(), map[*peg.Fail]uint64{}))
	}
	switch a.req.kind {
	case 't':
		return dump(a.text, dumpFull)
	case 'n':
		var b strings.Builder
		dumpTree(a.tree, &b)
		return b.String()
	default:
		return fmt.Sprintf("%d bytes, %s", a.n, dump(a.word, dumpFull))
	}
}

func (a *answer) scramble() {
	seen := map[uintptr]bool{}
	switch {
	case a.err != nil:
		scramble(reflect.ValueOf(a.err.Tree()), seen)
	case a.req.kind == 't':
		scramble(reflect.ValueOf(a.text), seen)
	case a.req.kind == 'n':
		scramble(reflect.ValueOf(a.tree), seen)
	default:
		scramble(reflect.ValueOf(a.word), seen)
	}
}

func randRequests(r *rand.Rand, text string) []request {
	var qs []request
	for n := 3 + r.Intn(7); n > 0; n-- {
		q := request{kind: "tnw"[r.Intn(3)]}
		if q.kind == 'w' {
			if len(text) == 0 {
				continue
			}
			q.off = r.Intn(len(text))
			if r.Intn(3) == 0 {
				q.off = 0
			}
		}
		if r.Intn(4) == 0 {
			q.path = "p"
		}
		qs = append(qs, q)
	}
	return qs
}

func checkC07(o *obs, text string) string {
	r := textRand("C07", text)
	qs := randRequests(r, text)
	p := ast.NewParser(text)
	var as []*answer
	var want []string
	scrambled := map[int]bool{}
	o.nontrivial(fmt.Sprintf("%q %v", text, qs))
	for i, q := range qs {
		fresh := q.do(ast.NewParser(text))
		want = append(want, fresh.dump())
		a := q.do(p)
		as = append(as, a)
		o.count("requests", 1)
		if a.err != nil {
			o.count("failed requests", 1)
		} else if q.kind != 'w' {
			o.count("accepted", 1)
		}
		if d := a.dump(); d != want[i] {
			return fmt.Sprintf("request %d, %v, after %v: differs from a fresh parser's: %s", i, q, qs[:i], firstDiff(d, want[i]))
		}
		if r.Intn(3) == 0 {
			k := r.Intn(len(as))
			if !scrambled[k] {
				as[k].scramble()
				scrambled[k] = true
				o.count("results overwritten", 1)
			}
		}
		for k, b := range as {
			if !scrambled[k] {
				if d := b.dump(); d != want[k] {
					return fmt.Sprintf("result %d of %v changed when others were overwritten: %s", k, qs[:i+1], firstDiff(d, want[k]))
				}
			}
		}
	}
	// Concurrent use: parsers of one's own, and reading one AST.
	shared := accepted(text)
	var sharedDump, sharedBraces string
	if shared != nil {
		sharedDump = dump(shared, dumpFull)
		sharedBraces = ast.BracesString(shared)
	}
	const g = 4
	bad := make([]string, g)
	var wg sync.WaitGroup
	start := make(chan bool)
	for j := 0; j < g; j++ {
		wg.Add(1)
		o.count("goroutines", 1)
		go func(j int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bad[j] = fmt.Sprintf("panic: %v", e)
				}
			}()
			<-start
			p := ast.NewParser(text)
			for i, q := range qs {
				if d := q.do(p).dump(); d != want[i] {
					bad[j] = fmt.Sprintf("request %d, %v, of a concurrent goroutine: %s", i, q, firstDiff(d, want[i]))
					return
				}
			}
			if shared == nil {
				return
			}
			n := 0
			ast.Visit(shared, ast.FuncVisitor(func(ast.Node) { n++ }))
			if d := dump(shared, dumpFull); d != sharedDump {
				bad[j] = "a shared AST changed: " + firstDiff(d, sharedDump)
			}
			if s := ast.BracesString(shared); s != sharedBraces {
				bad[j] = "a shared AST's bracketed form differs: " + firstDiff(s, sharedBraces)
			}
			if !ast.Equal(shared, shared) {
				bad[j] = "a shared AST is not equal to itself"
			}
			walk(shared, func(n ast.Node) {
				if d, ok := n.(*ast.Discourse); ok && len(*d) == 0 {
					return
				}
				n.Start()
				n.End()
			})
		}(j)
	}
	close(start)
	wg.Wait()
	for _, b := range bad {
		if b != "" {
			return b
		}
	}
	return ""
}
