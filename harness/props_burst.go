package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sync"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
	"github.com/eaburns/toaq/tone"
)

// A burst is a process of its own, under the race detector, in which goroutines use the library
// at once as the first thing that happens: what the library sets up on first use, or remembers,
// is met by several goroutines before it is there.

const (
	burstGoroutines = 8
	burstTexts      = 3
)

// burstWork makes the texts of each goroutine. In some bursts all have the same texts.
func burstWork(id string, n int64) (texts [][]string, requests [][][]request) {
	r := caseRand(*flagSeed, "burst "+id, int(n))
	same := r.Intn(3) == 0
	for g := 0; g < burstGoroutines; g++ {
		if same && g > 0 {
			texts, requests = append(texts, texts[0]), append(requests, requests[0])
			continue
		}
		var ts []string
		var qs [][]request
		for i := 0; i < burstTexts; i++ {
			o := logicOpts(r)
			if r.Intn(2) == 0 {
				o.randWord = .9
			}
			t := randText(r, decorate(r, genTokens(r, o, id == "C07", 4+r.Intn(12), 1+r.Intn(3)), true, true))
			if id == "C07" && r.Intn(4) == 0 {
				t = mutateBytes(r, t)
			}
			ts = append(ts, t)
			qs = append(qs, randRequests(r, t))
		}
		texts, requests = append(texts, ts), append(requests, qs)
	}
	return texts, requests
}

// burstResult is what a goroutine observes.
func burstResult(id, text string, qs []request) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("panic: %v", e)
		}
	}()
	if id == "C07" {
		p := ast.NewParser(text)
		for _, q := range qs {
			out += q.do(p).dump() + "\n"
		}
		if t, err := ast.NewParser(text).Text(); err == nil {
			n := 0
			ast.Visit(t, ast.FuncVisitor(func(ast.Node) { n++ }))
			out += fmt.Sprint(ast.BracesString(t), n, ast.Equal(t, t), t.Start(), t.End())
		}
		return out
	}
	t := accepted(text)
	if t == nil {
		return "rejected"
	}
	st, msg := interpret(t)
	if msg != "" {
		return "unsupported: " + msg
	}
	if st == nil {
		return "fragments"
	}
	return fullString(st) + logic.PrettyString(st)
}

// burst is the main program of the process. It prints the results.
func burst(id string, n int64) {
	texts, qs := burstWork(id, n)
	out := make([][]string, len(texts))
	// In some bursts of C15, all interpret the same AST.
	var shared *ast.Text
	if id == "C15" && n%3 == 0 {
		shared = accepted(texts[0][0])
	}
	sharedOut := make([]string, len(texts))
	interpretShared := func() string {
		if shared == nil {
			return ""
		}
		st, msg := interpret(shared)
		if msg != "" || st == nil {
			return "unsupported: " + msg
		}
		return fullString(st)
	}
	start := make(chan bool)
	var wg sync.WaitGroup
	for g := range texts {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			sharedOut[g] = interpretShared()
			for i, t := range texts[g] {
				out[g] = append(out[g], burstResult(id, t, qs[g][i]))
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for g := range texts {
		if s := interpretShared(); s != sharedOut[g] {
			fmt.Fprintf(os.Stderr, "the shared AST of %q: concurrently %s", texts[0][0], firstDiff(sharedOut[g], s))
			os.Exit(7)
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

// runBurst runs a burst, and returns its results.
func runBurst(cmd *exec.Cmd) ([][]string, string) {
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil {
		return nil, fmt.Sprintf("a burst of goroutines: %v: %s", err, head(stderr.String(), 6000))
	}
	var out [][]string
	if err := json.Unmarshal(stdout.Bytes(), &out); err != nil {
		fmt.Fprintln(os.Stderr, "VMON-ERROR", err)
		os.Exit(3)
	}
	return out, ""
}

// bursts is the global workload of C07 and C15.
func bursts(id string, quick, thorough int) func(o *obs, r *rand.Rand, t bool) (string, string) {
	return func(o *obs, r *rand.Rand, t bool) (string, string) {
		self, err := os.Executable()
		if err != nil {
			fmt.Fprintln(os.Stderr, "VMON-ERROR", err)
			os.Exit(3)
		}
		n := quick
		if t {
			n = thorough
		}
		for i := 0; i < n; i++ {
			slotKeepAlive()
			texts, qs := burstWork(id, int64(i))
			name := fmt.Sprintf("burst %d: %q", i, texts)
			out, bad := runBurst(exec.Command(self, "-prop", id, "-seed", fmt.Sprint(*flagSeed), "-burst", fmt.Sprint(i)))
			if bad != "" {
				return name, bad
			}
			for g := range texts {
				for j, t := range texts[g] {
					o.evals++
					want := burstResult(id, t, qs[g][j])
					got := ""
					if g < len(out) && j < len(out[g]) {
						got = out[g][j]
					}
					if got != want {
						return name, fmt.Sprintf("in a burst of goroutines, %q gives %s", t, firstDiff(got, want))
					}
				}
			}
			o.count("processes of bursts", 1)
			o.count("goroutines in bursts", len(texts))
		}
		return "", ""
	}
}

// toneBursts is the global workload of C13.
func toneBursts(o *obs, r *rand.Rand, thorough bool) (string, string) {
	n := 40
	if thorough {
		n = 400
	}
	for i := 0; i < n; i++ {
		slotKeepAlive()
		var words [][]string
		same := r.Intn(3) == 0
		for g := 0; g < burstGoroutines; g++ {
			var ws []string
			for j := 0; j < 20; j++ {
				ws = append(ws, genToneWord(r, j))
			}
			if same && g > 0 {
				ws = words[0]
			}
			words = append(words, ws)
		}
		in, _ := json.Marshal(words)
		json.Unmarshal(in, &words) // replaces what is not UTF-8
		cmd := exec.Command(filepath.Join(*flagBin, "toneburst"))
		cmd.Stdin = bytes.NewReader(in)
		out, bad := runBurst(cmd)
		name := fmt.Sprintf("burst %d: %q", i, words)
		if bad != "" {
			return name, bad
		}
		var want [][]string
		for _, ws := range words {
			var rs []string
			for _, w := range ws {
				s := fmt.Sprintf("%s %s %c", tone.ToASCII(w), tone.Strip(w), tone.Tone(w))
				for _, t := range toneRunes {
					s += " " + tone.WithTone(w, t)
				}
				rs = append(rs, s)
			}
			want = append(want, rs)
		}
		var back [][]string
		b, _ := json.Marshal(want)
		json.Unmarshal(b, &back)
		if !reflect.DeepEqual(out, back) {
			return name, fmt.Sprintf("a burst of goroutines gives %s", firstDiff(fmt.Sprintf("%q", out), fmt.Sprintf("%q", back)))
		}
		o.evals += int64(len(words))
		o.count("processes of bursts", 1)
		o.count("goroutines in bursts", len(words))
	}
	return "", ""
}
