package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"html/template"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/pretty"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

func init() {
	register(&prop{id: "C23", global: serverWorkload,
		rule:        "The server binary, built with the race detector, is driven by 8 concurrent clients on the loopback network: POSTs of generated, mutated and hostile bodies (whole, in slow chunks, or with the last bytes of 8 requests released at once), other methods, pages, fonts, malformed, truncated and aborted requests. Every answer is compared with what the library computes in this process for that body; at the end the server must still answer and its log be free of race reports and panics. Servers without PORT (on 8080, if it is free) and without the files of the page are observed, too. Non-trivial: distinct (request kind, body) answered.",
		need:        []string{"POST answered", "syntax errors answered", "formulas answered", "fragments answered", "interpreter failures answered", "released together", "slow chunks", "aborted requests", "pages", "other methods", "fonts", "long texts", "errors for missing files"},
		assumptions: []string{"the race detector sees the interleavings of this run only", "bodies are at most about 100 kB; texts whose interpretation explodes are left out"}})
}

// An analysis is what the library has to say about a text.
type analysis struct {
	err                               string
	braces, astDump, text, parse, log string
	plain, stmt                       string // logic.String and the printed statement
	failed                            bool   // the interpreter panicked with the message in log
	fragment                          bool
}

const cmdBudget = 3000

// analyze returns what the library computes for the text; big tells that it is too big for the workload.
func analyze(input string) (a analysis, big bool) {
	p := ast.NewParser(input)
	tree, err := p.Tree()
	if err != nil {
		a.err = err.Error()
		return a, false
	}
	t, terr := ast.NewParser(input).Text()
	if terr != nil {
		a.err = terr.Error()
		return a, false
	}
	if !strings.HasPrefix(input, longPrefix) {
		if _, _, _, big := refStatement(t, cmdBudget); big {
			return a, true
		}
	}
	a.braces = ast.BracesString(t)
	a.astDump = pretty.String(t)
	var b strings.Builder
	for _, w := range visitedWords(t) {
		b.WriteString(w.T)
	}
	a.text = b.String()
	a.parse = peg.Pretty(tree)
	func() {
		defer func() {
			if r := recover(); r != nil {
				a.failed = true
				a.log = fmt.Sprint(r)
			}
		}()
		st := logic.Interpret(t)
		if st == nil {
			a.fragment = true
			a.log, a.plain = "fragment", "fragment"
			return
		}
		a.log = logic.PrettyString(st)
		a.plain = logic.String(st)
		logic.NillOutAST(st)
		a.stmt = pretty.String(st)
	}()
	return a, false
}

// viaJSON is the string as it comes out of a JSON encoder and decoder.
func viaJSON(s string) string {
	b, _ := json.Marshal(s)
	json.Unmarshal(b, &s)
	return s
}

// judgeAnswer compares a JSON answer with the analysis.
func judgeAnswer(o *lockedObs, body []byte, a analysis) string {
	dec := json.NewDecoder(bytes.NewReader(body))
	var m map[string]interface{}
	if err := dec.Decode(&m); err != nil {
		return fmt.Sprintf("the answer is not a JSON object: %v: %q", err, head(string(body), 300))
	}
	var more interface{}
	if err := dec.Decode(&more); err != io.EOF {
		return fmt.Sprintf("more than one JSON object in the answer: %q", head(string(body), 300))
	}
	get := func(k string) string {
		v, ok := m[k]
		if !ok {
			return ""
		}
		s, ok := v.(string)
		if !ok {
			return fmt.Sprintf("<%T>", v)
		}
		return s
	}
	want := map[string]string{"Error": a.err}
	if a.err == "" {
		o.count("texts answered", 1)
		want["Braces"], want["AST"], want["Text"], want["Parse"] = a.braces, a.astDump, a.text, a.parse
		if !a.failed {
			want["Logic"] = a.log
		}
	}
	for _, k := range []string{"Error", "Braces", "AST", "Text", "Parse", "Logic"} {
		if k == "Logic" && a.failed {
			if !strings.Contains(get(k), viaJSON(a.log)) {
				return fmt.Sprintf("the interpreter fails with %q, but the answer has Logic: %q", a.log, get(k))
			}
			continue
		}
		if w := viaJSON(want[k]); get(k) != w {
			return fmt.Sprintf("%s: %s", k, firstDiff(get(k), w))
		}
	}
	return ""
}

type lockedObs struct {
	mu sync.Mutex
	o  *obs
}

func (l *lockedObs) count(k string, n int) {
	l.mu.Lock()
	l.o.count(k, n)
	l.mu.Unlock()
}

// nontrivial notes a judged case.
func (l *lockedObs) nontrivial(k string) {
	l.mu.Lock()
	l.o.evals++
	l.o.nontrivial(k)
	l.mu.Unlock()
}

func (l *lockedObs) max(k string, n int) {
	l.mu.Lock()
	if l.o.counts[k] < int64(n) {
		l.o.counts[k] = int64(n)
	}
	l.mu.Unlock()
}

// cmdText makes an input for one of the commands.
func cmdText(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return hostileTexts[r.Intn(len(hostileTexts))]
	case 1:
		return logicTexts[r.Intn(len(logicTexts))]
	case 2, 3, 4, 5:
		return genLogic(r)
	case 6:
		return []string{"bei", "ji/ bi", "sa poq/", "ji/, suq/", "", " ", "hoq", "fi/ ji/ na"}[r.Intn(8)]
	case 7:
		return genLogic(r) + " " + []string{"mai? ji/ ro suq/", "mai? re gi? ji/", "mai? roi gi? ji/", "mai? ji/ giV ro maiV suq/"}[r.Intn(4)]
	}
	return genText(r)
}

// longPrefix begins the texts made by long.
const longPrefix = "mai? ji/ na bei jai? ji/ na "

// long makes a long text whose analysis is no great effort.
func long(r *rand.Rand) string {
	var b strings.Builder
	b.WriteString(longPrefix)
	if r.Intn(3) == 0 {
		b.WriteString(strings.Repeat([]string{" ", "\n", ". ", "!"}[r.Intn(4)], []int{5000, 40000, 70000}[r.Intn(3)]))
	}
	for n := b.Len() + r.Intn(7000); b.Len() < n; {
		b.WriteString([]string{"mai? ji/ na ", "jai? suq/ na ", "bei jai? na ", "chuq? ji/ suq/ na\n"}[r.Intn(4)])
	}
	if r.Intn(2) == 0 {
		b.WriteString(" x" + strings.Repeat(" ji/", r.Intn(3)*r.Intn(5000)))
	}
	return b.String()
}

// pickText makes an input that is not too big, with its analysis.
func pickText(r *rand.Rand) (string, analysis) {
	if r.Intn(150) == 0 {
		s := long(r)
		a, _ := analyze(s)
		return s, a
	}
	for {
		s := cmdText(r)
		if len(s) > 2000 {
			continue
		}
		if a, big := analyze(s); !big {
			return s, a
		}
	}
}

// A process is a running command with its output.
type process struct {
	cmd  *exec.Cmd
	out  *lockedBuffer // standard error
	std  *lockedBuffer // the end of standard output
	done chan struct{}
	err  error
}

// A lockedBuffer keeps the beginning of what is written or, if last is set, the end.
type lockedBuffer struct {
	mu   sync.Mutex
	b    bytes.Buffer
	last bool
}

func (b *lockedBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.b.Len() > 1<<20 {
		if !b.last {
			return len(p), nil
		}
		b.b.Next(b.b.Len() - 4096)
	}
	return b.b.Write(p)
}

func (b *lockedBuffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

func startProcess(dir string, env []string, name string, args ...string) (*process, error) {
	p := &process{cmd: exec.Command(name, args...), out: &lockedBuffer{}, std: &lockedBuffer{last: true}, done: make(chan struct{})}
	p.cmd.Dir = dir
	p.cmd.Env = append(os.Environ(), env...)
	p.cmd.Stdout, p.cmd.Stderr = p.std, p.out
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		p.err = p.cmd.Wait()
		close(p.done)
	}()
	return p, nil
}

func (p *process) alive() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

func (p *process) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

func fatalf(f string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "VMON-ERROR: "+f+"\n", args...)
	os.Exit(3)
}

// startServer starts the server on a free port of the loopback network.
// It returns nil and what happened if the server does not come up.
func startServer(dir string) (*process, string) {
	what := ""
	for try := 0; try < 5; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			fatalf("no loopback network: %v", err)
		}
		addr := l.Addr().String()
		l.Close()
		_, port, _ := net.SplitHostPort(addr)
		p := listen(dir, port, []string{"PORT=" + port}, &what)
		if p != nil {
			return p, addr
		}
	}
	return nil, what
}

// listen starts the server and waits until something listens on the port.
func listen(dir, port string, env []string, what *string) *process {
	p, err := startProcess(dir, env, filepath.Join(*flagBin, "server"))
	if err != nil {
		fatalf("cannot start the server: %v", err)
	}
	for start := time.Now(); time.Since(start) < 30*time.Second && p.alive(); time.Sleep(50 * time.Millisecond) {
		c, err := net.DialTimeout("tcp", "127.0.0.1:"+port, time.Second)
		if err == nil {
			c.Close()
			// It may be another process that listens.
			time.Sleep(20 * time.Millisecond)
			if p.alive() {
				return p
			}
			break
		}
		slotKeepAlive()
	}
	if p.alive() {
		*what = "the server does not listen on port " + port
	} else {
		*what = fmt.Sprintf("the server exits instead of listening on port %s (%v)", port, p.err)
	}
	p.kill()
	*what += "\nserver log: " + head(p.out.String(), 3000)
	return nil
}

// otherServers observes servers in other surroundings: without PORT, and without the files of the page.
func otherServers(o *lockedObs, r *rand.Rand) (string, string) {
	ask := func(addr, kind string) (string, string, *serverClient) {
		c := &serverClient{o: o, r: r, addr: addr, inflight: new(atomic.Int64), hc: &http.Client{Transport: &http.Transport{DisableCompression: true}, Timeout: 120 * time.Second}}
		for i := 0; i < 5; i++ {
			text, a := pickText(r)
			s, b, err := c.do("POST", "/", strings.NewReader(text))
			if what := c.judgePost(kind, text, a, s, b, err); what != "" {
				return text, what, c
			}
		}
		return "", "", c
	}
	// A server whose files are missing says so, and analyses texts all the same.
	dir, err := os.MkdirTemp(*flagDir, "empty")
	if err != nil {
		fatalf("%v", err)
	}
	p, addr := startServer(dir)
	if p == nil {
		return "(a server without files)", addr
	}
	defer p.kill()
	for i := 0; i < 3; i++ {
		text, what, c := ask(addr, "POST without files")
		if what != "" {
			return text, what
		}
		for _, path := range []string{"/", "/font/x.ttf"} {
			s, b, err := c.do("GET", path, nil)
			if err != nil || s < 400 {
				return path, fmt.Sprintf("GET %s of a server without files: status %d, error %v: %q", path, s, err, head(string(b), 200))
			}
		}
		o.count("errors for missing files", 1)
	}
	if log := p.out.String(); strings.Contains(log, "DATA RACE") || strings.Contains(log, "panic serving") || !p.alive() {
		return "(a server without files)", "a data race or panic in the server: " + head(log, 3000)
	}
	// Without PORT it is 8080, if that is free here.
	l, err := net.Listen("tcp", ":8080")
	if err != nil {
		o.count("port 8080 is taken", 1)
		return "", ""
	}
	l.Close()
	what := ""
	q := listen(*flagRepo, "8080", []string{"PORT="}, &what)
	if q == nil {
		if l, err := net.Listen("tcp", ":8080"); err == nil {
			l.Close()
			return "(a server without PORT)", what
		}
		o.count("port 8080 is taken", 1)
		return "", ""
	}
	defer q.kill()
	text, what, _ := ask("127.0.0.1:8080", "POST to the default port")
	o.count("default port", 1)
	return text, what
}

type serverClient struct {
	o        *lockedObs
	r        *rand.Rand
	addr     string
	hc       *http.Client
	inflight *atomic.Int64
	page     string
	fonts    map[string][]byte
}

// slowBody sends the pieces of a body with pauses between them.
type slowBody struct {
	r      *rand.Rand
	pieces []string
}

func (b *slowBody) Read(p []byte) (int, error) {
	if len(b.pieces) == 0 {
		return 0, io.EOF
	}
	time.Sleep(time.Duration(b.r.Intn(4)) * time.Millisecond)
	n := copy(p, b.pieces[0])
	b.pieces[0] = b.pieces[0][n:]
	if b.pieces[0] == "" {
		b.pieces = b.pieces[1:]
	}
	return n, nil
}

func cut(r *rand.Rand, s string, n int) []string {
	var out []string
	for ; n > 1 && len(s) > 1; n-- {
		k := 1 + r.Intn(len(s)-1)
		out = append(out, s[:k])
		s = s[k:]
	}
	if s != "" {
		out = append(out, s)
	}
	return out
}

// do makes one request and returns status and body.
func (c *serverClient) do(method, path string, body io.Reader) (int, []byte, error) {
	req, err := http.NewRequestWithContext(context.Background(), method, "http://"+c.addr+path, body)
	if err != nil {
		fatalf("bad request: %v", err)
	}
	switch c.r.Intn(4) {
	case 0:
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	case 1:
		req.Header.Set("Content-Type", "text/plain;charset=UTF-8")
	}
	if c.r.Intn(10) == 0 {
		req.Close = true
	}
	n := c.inflight.Add(1)
	c.o.max("max requests in flight", int(n))
	defer c.inflight.Add(-1)
	resp, err := c.hc.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, err
}

func (c *serverClient) judgePost(kind, text string, a analysis, status int, body []byte, err error) string {
	if strings.HasPrefix(text, longPrefix) {
		c.o.count("long texts", 1)
	}
	if err != nil {
		return fmt.Sprintf("%s: POST got no answer: %v", kind, err)
	}
	if status != 200 {
		return fmt.Sprintf("%s: POST got status %d: %q", kind, status, head(string(body), 200))
	}
	if what := judgeAnswer(c.o, body, a); what != "" {
		return kind + ": " + what
	}
	c.o.count("POST answered", 1)
	c.o.nontrivial(kind + " " + text)
	switch {
	case a.err != "":
		c.o.count("syntax errors answered", 1)
	case a.failed:
		c.o.count("interpreter failures answered", 1)
	case a.fragment:
		c.o.count("fragments answered", 1)
	default:
		c.o.count("formulas answered", 1)
	}
	return ""
}

var postPaths = []string{"/", "/", "/", "/x", "/x/y?z=1", "/%20", "/index.html"}

// request makes one random request and judges the answer.
func (c *serverClient) request() (string, string) {
	switch k := c.r.Intn(20); {
	case k < 9:
		text, a := pickText(c.r)
		s, b, err := c.do("POST", postPaths[c.r.Intn(len(postPaths))], strings.NewReader(text))
		return text, c.judgePost("POST", text, a, s, b, err)
	case k < 13:
		text, a := pickText(c.r)
		c.o.count("slow chunks", 1)
		s, b, err := c.do("POST", "/", &slowBody{c.r, cut(c.r, text, 1+c.r.Intn(6))})
		return text, c.judgePost("chunked POST", text, a, s, b, err)
	case k < 15:
		path := []string{"/", "/", "/x", "/?q=mai"}[c.r.Intn(4)]
		s, b, err := c.do("GET", path, nil)
		if err != nil || s != 200 || string(b) != c.page {
			return path, fmt.Sprintf("GET %s: status %d, error %v: %s", path, s, err, firstDiff(string(b), c.page))
		}
		c.o.count("pages", 1)
	case k < 16:
		for name, want := range c.fonts {
			s, b, err := c.do("GET", "/font/"+name, nil)
			if err != nil || s != 200 || !bytes.Equal(b, want) {
				return name, fmt.Sprintf("GET /font/%s: status %d, error %v, %d bytes instead of %d, or others", name, s, err, len(b), len(want))
			}
			c.o.count("fonts", 1)
			break
		}
	case k < 18:
		method := []string{"PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "TRACE", "FOO", "post", "get", "PROPFIND"}[c.r.Intn(10)]
		var body io.Reader
		if c.r.Intn(2) == 0 && method != "TRACE" {
			body = strings.NewReader("mai? ji/")
		}
		s, b, err := c.do(method, "/", body)
		if err != nil || s != http.StatusMethodNotAllowed {
			return method, fmt.Sprintf("%s /: status %d, error %v, %q", method, s, err, head(string(b), 100))
		}
		c.o.count("other methods", 1)
	case k < 19:
		c.abort()
	default:
		return c.rawPost()
	}
	return "", ""
}

// abort starts a request and does not finish it properly; whatever the server answers is fine.
func (c *serverClient) abort() {
	conn, err := net.DialTimeout("tcp", c.addr, 10*time.Second)
	if err != nil {
		return // the next request reports it
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(20 * time.Second))
	text, _ := pickText(c.r)
	switch c.r.Intn(8) {
	case 0: // closed in the middle of the body
		fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(text)+10, text)
	case 1: // half-closed in the middle of the body
		fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(text)+10, text)
		conn.(*net.TCPConn).CloseWrite()
		io.Copy(io.Discard, conn)
	case 2:
		fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\nzz\r\n", len(text), text)
		io.Copy(io.Discard, conn)
	case 3:
		fmt.Fprintf(conn, "POST / HTTP/1.1\r\n%s\r\n\r\n", text)
		conn.(*net.TCPConn).CloseWrite()
		io.Copy(io.Discard, conn)
	case 4:
		fmt.Fprintf(conn, "GARBAGE%s\r\n\r\n", text)
		conn.(*net.TCPConn).CloseWrite()
		io.Copy(io.Discard, conn)
	case 5: // the answer is not read
		fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(text), text)
		conn.(*net.TCPConn).SetLinger(0)
	case 6:
		fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: -5\r\n\r\n%s", text)
		conn.(*net.TCPConn).CloseWrite()
		io.Copy(io.Discard, conn)
	case 7:
		fmt.Fprintf(conn, "POST / HTTP/9.9\r\nHost: x\r\n")
	}
	c.o.count("aborted requests", 1)
}

// rawPost posts several texts on one connection of its own, the requests sent before the answers are read.
func (c *serverClient) rawPost() (string, string) {
	conn, err := net.DialTimeout("tcp", c.addr, 10*time.Second)
	if err != nil {
		return "", fmt.Sprintf("cannot connect: %v", err)
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(120 * time.Second))
	n := 1 + c.r.Intn(4)
	texts := make([]string, n)
	as := make([]analysis, n)
	for i := range texts {
		texts[i], as[i] = pickText(c.r)
		fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(texts[i]), texts[i])
	}
	rd := bufio.NewReader(conn)
	for i := range texts {
		resp, err := http.ReadResponse(rd, nil)
		if err != nil {
			return texts[i], fmt.Sprintf("pipelined POST %d got no answer: %v", i, err)
		}
		b, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		if what := c.judgePost("pipelined POST", texts[i], as[i], resp.StatusCode, b, err); what != "" {
			return texts[i], what
		}
		c.o.count("pipelined", 1)
	}
	return "", ""
}

// together sends requests up to their last bytes, and these all at once.
func together(o *lockedObs, r *rand.Rand, c *serverClient, n int) (string, string) {
	texts := make([]string, n)
	as := make([]analysis, n)
	conns := make([]net.Conn, n)
	same, sa := pickText(r)
	for i := range texts {
		for {
			if texts[i], as[i] = pickText(r); r.Intn(4) == 0 {
				texts[i], as[i] = same, sa
			}
			if texts[i] != "" {
				break
			}
			same, sa = pickText(r)
		}
		conn, err := net.DialTimeout("tcp", c.addr, 10*time.Second)
		if err != nil {
			return "", fmt.Sprintf("cannot connect: %v", err)
		}
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(120 * time.Second))
		conns[i] = conn
		k := len(texts[i]) - 1
		fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(texts[i]), texts[i][:k])
	}
	time.Sleep(2 * time.Millisecond)
	go1 := make(chan struct{})
	whats := make([]string, n)
	var wg sync.WaitGroup
	for i := range texts {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-go1
			io.WriteString(conns[i], texts[i][len(texts[i])-1:])
			resp, err := http.ReadResponse(bufio.NewReader(conns[i]), nil)
			if err != nil {
				whats[i] = fmt.Sprintf("POST got no answer: %v", err)
				return
			}
			b, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			whats[i] = c.judgePost("simultaneous POST", texts[i], as[i], resp.StatusCode, b, err)
		}(i)
	}
	close(go1)
	wg.Wait()
	o.count("released together", 1)
	for i, w := range whats {
		if w != "" {
			return texts[i], w
		}
	}
	return "", ""
}

func serverWorkload(ob *obs, r *rand.Rand, thorough bool) (string, string) {
	o := &lockedObs{o: ob}
	rounds, perClient, clients := 30, 12, 8
	if thorough {
		rounds = 250
	}
	if *flagCases > 0 {
		rounds = *flagCases
	}
	page, err := renderPage()
	if err != nil {
		fatalf("the page of the repository: %v", err)
	}
	fonts := map[string][]byte{}
	fs, _ := filepath.Glob(filepath.Join(*flagRepo, "server/font/*"))
	for _, f := range fs {
		if b, err := os.ReadFile(f); err == nil {
			fonts[filepath.Base(f)] = b
		}
	}
	if c, what := otherServers(o, r); what != "" {
		return c, what
	}
	p, addr := startServer(*flagRepo)
	if p == nil {
		return "(the server with a PORT)", addr
	}
	defer p.kill()
	var inflight atomic.Int64
	cs := make([]*serverClient, clients)
	for i := range cs {
		cs[i] = &serverClient{o: o, r: rand.New(rand.NewSource(r.Int63())), addr: addr, inflight: &inflight, page: page, fonts: fonts,
			hc: &http.Client{Transport: &http.Transport{DisableCompression: true}, Timeout: 120 * time.Second}}
	}
	report := func(c, what string) (string, string) {
		time.Sleep(100 * time.Millisecond)
		if !p.alive() {
			what += fmt.Sprintf("; the server exited (%v)", p.err)
		}
		return c, what + "\nserver log: " + head(p.out.String(), 5000)
	}
	for round := 0; round < rounds; round++ {
		type bad struct{ c, what string }
		bads := make([]bad, clients)
		var wg sync.WaitGroup
		for i := range cs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for k := 0; k < perClient; k++ {
					if c, what := cs[i].request(); what != "" {
						bads[i] = bad{c, what}
						return
					}
				}
			}(i)
		}
		wg.Wait()
		for _, b := range bads {
			if b.what != "" {
				return report(b.c, b.what)
			}
		}
		if c, what := together(o, r, cs[0], clients); what != "" {
			return report(c, what)
		}
		if log := p.out.String(); strings.Contains(log, "DATA RACE") || strings.Contains(log, "panic serving") || !p.alive() {
			return report("", "a data race or panic in the server")
		}
		slotKeepAlive()
	}
	// Still there, and right?
	text := "mai? jai? ji/ suq/"
	a, _ := analyze(text)
	s, b, err := cs[0].do("POST", "/", strings.NewReader(text))
	if what := cs[0].judgePost("last POST", text, a, s, b, err); what != "" {
		return report(text, what)
	}
	return "", ""
}

func renderPage() (string, error) {
	t, err := template.ParseFiles(filepath.Join(*flagRepo, "server/template"))
	if err != nil {
		return "", err
	}
	var b strings.Builder
	err = t.ExecuteTemplate(&b, "template", nil)
	return b.String(), err
}
