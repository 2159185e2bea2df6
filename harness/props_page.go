package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"unicode/utf16"
)

func init() {
	register(&prop{id: "C28", global: pageWorkload,
		rule:        "The server's page runs in a stand-in for a browser (node, with a small document and requests that really go to the server, built from the working tree). Sessions type texts, many with HTML syntax and characters outside the BMP, click, and let the answers reach the page in any order, some of them replaced by failures. After every answer the monitor reads the document: which panels are shown, their text and tags, the selection. Non-trivial: distinct texts whose answer was shown.",
		need:        []string{"answers shown", "errors shown", "fragments shown", "failures shown", "texts with HTML", "errors after astral characters", "errors beyond the first line", "bursts", "answers out of order", "failed requests"},
		assumptions: []string{"the document is a stand-in: no layout and no style sheets", "node is installed"}})
}

type pageState struct {
	Panels map[string]struct {
		Text  string
		Tags  []string
		Shown bool
	}
	Errors     []string
	Value      string
	Start, End int
	Focused    int
}

type browser struct {
	o    *lockedObs
	r    *rand.Rand
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	url  string
	tabs map[string]string // from their names to the panels

	log []string // of this session
	// clicks are the texts sent since the page was loaded.
	clicks  []string
	asked   []analysis
	failed  []bool
	arrived []bool
}

func startBrowser(o *lockedObs, r *rand.Rand, url string) *browser {
	dir := os.Getenv("VMON_HARNESS")
	if dir == "" {
		fatalf("VMON_HARNESS is not set")
	}
	b := &browser{o: o, r: r, url: url, cmd: exec.Command("node", filepath.Join(dir, "webpage", "page.js"))}
	in, err := b.cmd.StdinPipe()
	if err != nil {
		fatalf("%v", err)
	}
	out, err := b.cmd.StdoutPipe()
	if err != nil {
		fatalf("%v", err)
	}
	b.in, b.out = in, bufio.NewReaderSize(out, 1<<20)
	b.cmd.Stderr = os.Stderr
	if err := b.cmd.Start(); err != nil {
		fatalf("cannot start node: %v", err)
	}
	return b
}

func (b *browser) stop() {
	b.in.Close()
	b.cmd.Process.Kill()
	b.cmd.Wait()
}

// do does one operation; fail is what is wrong with the page.
func (b *browser) do(op map[string]interface{}, res interface{}) (fail string) {
	j, _ := json.Marshal(op)
	b.log = append(b.log, head(string(j), 400))
	if _, err := b.in.Write(append(j, '\n')); err != nil {
		fatalf("the browser is gone: %v", err)
	}
	line, err := b.out.ReadBytes('\n')
	if err != nil {
		fatalf("the browser is gone: %v", err)
	}
	var f struct{ Fail string }
	json.Unmarshal(line, &f)
	if f.Fail != "" {
		return f.Fail
	}
	if res != nil {
		if err := json.Unmarshal(line, res); err != nil {
			fatalf("the browser: %v: %s", err, head(string(line), 300))
		}
	}
	return ""
}

type jsonMap = map[string]interface{}

func (b *browser) load() string {
	b.log, b.clicks, b.asked, b.failed, b.arrived = nil, nil, nil, nil, nil
	var res struct{ Tabs map[string]string }
	op := jsonMap{"op": "load", "url": b.url}
	if b.r.Intn(3) == 0 {
		op["fragment"] = "#"
	}
	if f := b.do(op, &res); f != "" {
		return "the page does not load: " + f
	}
	b.tabs = res.Tabs
	for _, n := range []string{"Braces", "Logic", "Text", "AST", "Parse", "Error"} {
		if b.tabs[n] == "" {
			return fmt.Sprintf("the page has no tab %q", n)
		}
	}
	return ""
}

var htmlWords = []string{"<b>", "<i>", "</p>", "</pre>", "<img src=x onerror=alert(1)>", "<script>bu</script>", "&lt;", "&amp;", "&", "<", ">", "\"", "'", "&#039;", "&bu;", "<!--", "-->", "<bu>", "<bı", "😀", "𝕏", "𐄀", "𐄀𐤟", "(𐩐)", "&", "\"&amp;\"", "&quot:", "&#:39", "''", "a\u0301", "\t", "\n", "\n\n", "\r\n", "\u2028", "<bu bu='", "&bu", "]]>", "{{.}}", "${bu}", "\\n", "</script>"}

// pageText makes a text for the page.
func pageText(r *rand.Rand) (string, analysis) {
	for {
		s, a := pickText(r)
		if k := r.Intn(6) - 2; k > 0 {
			for ; k > 0; k-- {
				// Between words, mostly, where such things count as spaces.
				at := 0
				if ws := strings.Split(s, " "); r.Intn(8) > 0 && len(ws) > 1 {
					at = len(strings.Join(ws[:1+r.Intn(len(ws)-1)], " ")) + 1
				} else if r.Intn(2) == 0 {
					at = len(s)
				}
				s = s[:at] + htmlWords[r.Intn(len(htmlWords))] + " " + s[at:]
			}
			if r.Intn(3) == 0 {
				s += " " + []string{"x", "#ww", "ji/ ji?", "y", "x\nmai?", "1"}[r.Intn(6)]
			}
		}
		s = strings.NewReplacer("\r\n", "\n", "\r", "\n", "\x00", "").Replace(viaJSON(s))
		var big bool
		if a, big = analyze(s); !big && len(s) < 4000 {
			return s, a
		}
	}
}

var errPlace = regexp.MustCompile(`^:(\d+)\.(\d+): `)

// shows describes how the page differs from showing the answer for a text, or returns "".
func (b *browser) shows(st *pageState, text string, a analysis) string {
	want := map[string]string{}
	if a.err != "" {
		want["Error"] = a.err
	} else {
		want["Braces"], want["AST"], want["Text"], want["Parse"], want["Logic"] = a.braces, a.astDump, a.text, a.parse, a.log
	}
	for _, n := range []string{"Braces", "Logic", "Text", "AST", "Parse", "Error"} {
		p := st.Panels[b.tabs[n]]
		w, ok := want[n]
		if p.Shown != ok {
			return fmt.Sprintf("%s panel shown: %v", n, p.Shown)
		}
		if !ok {
			continue
		}
		if w = viaJSON(w); n == "Logic" && a.failed {
			if !strings.Contains(p.Text, w) {
				return fmt.Sprintf("%s: %q does not have %q", n, head(p.Text, 300), w)
			}
		} else if p.Text != w {
			return fmt.Sprintf("%s: %s", n, firstDiff(p.Text, w))
		}
		for _, t := range p.Tags {
			switch strings.ToLower(strings.Trim(strings.SplitN(t, " ", 2)[0], "</>")) {
			case "p", "pre", "div", "span", "code", "br":
			default:
				return fmt.Sprintf("%s: the tag %s is in the panel", n, head(t, 80))
			}
			if strings.Contains(strings.ToLower(t), " on") {
				return fmt.Sprintf("%s: the tag %s is in the panel", n, head(t, 80))
			}
		}
	}
	return ""
}

// selection judges the selection made for a syntax error.
func (b *browser) selection(st *pageState, text string, a analysis, focused int) string {
	m := errPlace.FindStringSubmatch(a.err)
	if m == nil {
		return fmt.Sprintf("no place in the error %q", a.err)
	}
	line, _ := strconv.Atoi(m[1])
	col, _ := strconv.Atoi(m[2])
	ls := strings.Split(text, "\n")
	if line < 1 || line > len(ls) {
		return fmt.Sprintf("the error is on line %d of %d", line, len(ls))
	}
	rs := []rune(ls[line-1])
	if col < 1 || col > len(rs)+1 {
		return fmt.Sprintf("the error is in column %d of %d", col, len(rs))
	}
	offs := len(utf16.Encode([]rune(strings.Join(ls[:line-1], "\n")))) + len(utf16.Encode(rs[:col-1]))
	if line > 1 {
		offs++
		b.o.count("errors beyond the first line", 1)
	}
	if len(utf16.Encode(rs[:col-1])) > col-1 {
		b.o.count("errors after astral characters", 1)
	}
	if n := len(utf16.Encode([]rune(text))); st.Start != offs || st.End != n {
		return fmt.Sprintf("the error %q selects %d to %d of %d, should be %d to the end", head(a.err, 100), st.Start, st.End, n, offs)
	}
	if st.Focused <= focused {
		return "the text area has no focus"
	}
	return ""
}

func (b *browser) click(text string, a analysis) string {
	var v struct{ Value string }
	if f := b.do(jsonMap{"op": "type", "text": text}, &v); f != "" {
		return f
	}
	if v.Value != text {
		fatalf("the text area has %q, not %q", v.Value, text)
	}
	var rs struct{ Requests []struct{ N int } }
	if f := b.do(jsonMap{"op": "click"}, &rs); f != "" {
		return f
	}
	if len(rs.Requests) != 1 || rs.Requests[0].N != len(b.clicks) {
		return fmt.Sprintf("a click made the requests %v", rs.Requests)
	}
	b.clicks = append(b.clicks, text)
	b.asked = append(b.asked, a)
	b.failed = append(b.failed, false)
	b.arrived = append(b.arrived, false)
	return ""
}

// deliver lets the answer to a click arrive and judges the page.
func (b *browser) deliver(n int, fail bool) string {
	var before, st pageState
	if f := b.do(jsonMap{"op": "state"}, &before); f != "" {
		return f
	}
	op := jsonMap{"op": "deliver", "n": n}
	if fail {
		op["status"] = []int{0, 500, 503, 404}[b.r.Intn(4)]
		b.failed[n] = true
		b.o.count("failed requests", 1)
	}
	var res struct{ Status int }
	if f := b.do(op, &res); f != "" {
		return f
	}
	if res.Status != 200 {
		return fmt.Sprintf("the page's request was answered with %d", res.Status)
	}
	b.arrived[n] = true
	if f := b.do(jsonMap{"op": "state"}, &st); f != "" {
		return f
	}
	if es := append(before.Errors, st.Errors...); len(es) > 0 {
		return "the script failed: " + head(strings.Join(es, "; "), 600)
	}
	last := len(b.clicks) - 1
	if n == last && !fail {
		// The answer to the last click is shown, whatever came before.
		if d := b.shows(&st, b.clicks[n], b.asked[n]); d != "" {
			return fmt.Sprintf("the answer for %q arrived: %s", b.clicks[n], d)
		}
		if b.asked[n].err != "" {
			if d := b.selection(&st, b.clicks[n], b.asked[n], before.Focused); d != "" {
				return d
			}
		}
		return ""
	}
	if b.arrived[last] && !b.failed[last] {
		// A late answer does not take its place.
		b.o.count("answers out of order", 1)
		if d := b.shows(&st, b.clicks[last], b.asked[last]); d != "" {
			return fmt.Sprintf("the answer for the last text %q had been shown, then one for the earlier text %q arrived: %s", b.clicks[last], b.clicks[n], d)
		}
		return ""
	}
	// Anything that is shown is the answer for one of the texts.
	none := true
	for _, id := range b.tabs {
		none = none && !st.Panels[id].Shown
	}
	if none {
		return ""
	}
	var d string
	for i := len(b.clicks) - 1; i >= 0; i-- {
		if b.arrived[i] && !b.failed[i] {
			if d = b.shows(&st, b.clicks[i], b.asked[i]); d == "" {
				return ""
			}
		}
	}
	return "the page shows no text's answer: " + d
}

func (b *browser) session() string {
	if f := b.load(); f != "" {
		return f
	}
	for k := 1 + b.r.Intn(4); k > 0; k-- {
		n := 1
		if b.r.Intn(2) == 0 {
			n = 2 + b.r.Intn(2)
			b.o.count("bursts", 1)
		}
		first := len(b.clicks)
		var waiting []int
		for i := 0; i < n; i++ {
			text, a := pageText(b.r)
			if f := b.click(text, a); f != "" {
				return f
			}
			waiting = append(waiting, first+i)
			// Some answers come before the next click.
			if i < n-1 && b.r.Intn(4) == 0 {
				if f := b.deliver(first+i, b.r.Intn(6) == 0); f != "" {
					return f
				}
				waiting = waiting[:len(waiting)-1]
			}
			kind := "answers shown"
			switch {
			case a.err != "":
				kind = "errors shown"
			case a.failed:
				kind = "failures shown"
			case a.fragment:
				kind = "fragments shown"
			}
			b.o.count(kind, 1)
			b.o.nontrivial(text)
			if strings.ContainsAny(text, "<>&\"'") {
				b.o.count("texts with HTML", 1)
			}
		}
		b.r.Shuffle(len(waiting), func(i, j int) { waiting[i], waiting[j] = waiting[j], waiting[i] })
		for _, i := range waiting {
			if f := b.deliver(i, b.r.Intn(8) == 0); f != "" {
				return f
			}
		}
	}
	return ""
}

func pageWorkload(ob *obs, r *rand.Rand, thorough bool) (string, string) {
	o := &lockedObs{o: ob}
	rounds, perRound, n := 30, 25, 6
	if thorough {
		rounds = 350
	}
	if *flagCases > 0 {
		rounds = *flagCases
	}
	p, addr := startServer(*flagRepo)
	if p == nil {
		return "(the server with a PORT)", addr
	}
	defer p.kill()
	bs := make([]*browser, n)
	for i := range bs {
		bs[i] = startBrowser(o, rand.New(rand.NewSource(r.Int63())), "http://"+addr+"/")
		defer bs[i].stop()
	}
	for round := 0; round < rounds; round++ {
		whats := make([]string, n)
		var wg sync.WaitGroup
		for i, b := range bs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < perRound && whats[i] == ""; k++ {
					whats[i] = b.session()
				}
			}()
		}
		wg.Wait()
		for i, w := range whats {
			if w != "" {
				if !p.alive() {
					w += fmt.Sprintf("; the server exited (%v): %s", p.err, head(p.out.String(), 3000))
				}
				return strings.Join(bs[i].log, "\n"), w
			}
		}
		slotKeepAlive()
	}
	return "", ""
}
