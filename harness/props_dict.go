package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"mime"
	"net"
	"net/http"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/eaburns/toaq/dict"
)

func init() {
	register(&prop{id: "C25", quick: 120000, thorough: 1000000, fixed: []string{"(built-in dictionary)"}, noShrink: true,
		gen:         func(r *rand.Rand, i int) string { return fmt.Sprintf("response %x", r.Int63()) },
		check:       checkC25,
		rule:        "Each case is a scripted HTTP server on the loopback network: responses with 0 to 12 entries, sometimes 22,000 (words in any tone, case and notation, several of one word, odd definitions, any score, with other fields, in any JSON layout, whole or in chunks), or a fault (connection refused, closed or reset before or inside the answer, truncated, empty or malformed bodies, values of other types, failures with and without a message, no data). Half of them answer at a URL that gave another answer before, and the maps returned are overwritten after use. The result of Load is compared with an independent normalization of what was sent. Non-trivial: distinct responses.",
		need:        []string{"dictionaries loaded", "entries", "entries of a word given before", "large dictionaries", "transport faults", "failure responses", "malformed bodies", "built-in entries", "leak checks", "loaded again from the same URL"},
		assumptions: []string{"responses whose HTTP status and body disagree, and bytes after a complete JSON object, are left out: the property does not say what they mean"}})
}

// A dictServer answers requests for a path with a script, once.
type dictServer struct {
	addr string
	mu   sync.Mutex
	jobs map[string]*dictJob
	n    int
	l    net.Listener
}

type dictJob struct {
	answer      func(net.Conn) // writes the raw answer
	method      string
	contentType string
	body        string
	requests    int
}

var theDictServer *dictServer

func startDictServer() *dictServer {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fatalf("no loopback network: %v", err)
	}
	s := &dictServer{addr: l.Addr().String(), l: l, jobs: map[string]*dictJob{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s
}

func (s *dictServer) serve(c net.Conn) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	req, err := http.ReadRequest(bufio.NewReader(c))
	if err != nil {
		return
	}
	body, err := io.ReadAll(req.Body)
	if err != nil {
		return
	}
	s.mu.Lock()
	j := s.jobs[req.URL.Path]
	if j != nil {
		j.method, j.body, j.contentType = req.Method, string(body), req.Header.Get("Content-Type")
		j.requests++
	}
	s.mu.Unlock()
	if j != nil {
		j.answer(c)
	}
}

// dictWord is a word in some spelling, and the word it is.
func dictWord(r *rand.Rand, ws []string) (string, string) {
	if len(ws) > 0 && r.Intn(4) == 0 {
		return respelledWord(r, ws[r.Intn(len(ws))])
	}
	var b strings.Builder
	for n := 1 + r.Intn(2)*r.Intn(3); n > 0; n-- {
		for k := 1 + r.Intn(4); k > 0; k-- {
			b.WriteString(sylOnsets[r.Intn(len(sylOnsets))])
			for v := 1 + r.Intn(3); v > 0; v-- {
				b.WriteByte("aeiou"[r.Intn(5)])
			}
			if r.Intn(3) == 0 {
				b.WriteString("q")
			}
		}
		if n > 1 {
			b.WriteString([]string{" ", " ", ", ", ": ", "… "}[r.Intn(5)])
		}
	}
	if r.Intn(20) == 0 {
		b.WriteString([]string{".", " ", "▯", "!", "(1)"}[r.Intn(5)])
	}
	if r.Intn(60) == 0 {
		b.Reset()
	}
	return respelledWord(r, b.String())
}

// respelledWord adds tones and capitals to a plain word.
func respelledWord(r *rand.Rand, plain string) (string, string) {
	var b strings.Builder
	style := r.Intn(4) // 0 plain, 1 precomposed, 2 precomposed with breves, 3 markers
	caps := r.Intn(3) == 0
	rest := plain
	for rest != "" {
		// up to the next run of vowels
		i := strings.IndexAny(rest, "aeiou")
		if i < 0 {
			b.WriteString(rest)
			break
		}
		j := i
		for j < len(rest) && strings.IndexByte("aeiou", rest[j]) >= 0 {
			j++
		}
		on := i
		for on > 0 && rest[on-1] >= 'a' && rest[on-1] <= 'z' {
			on--
		}
		b.WriteString(rest[:on])
		s := syl{on: rest[on:i], des: rest[i:j]}
		if j < len(rest) && rest[j] == 'q' {
			s.des += "q"
			j++
		}
		if style != 0 && r.Intn(4) != 0 {
			s.tone = byte(toneRunes[1+r.Intn(7)])
		}
		if caps {
			for k := range s.on + s.des {
				if r.Intn(2) == 0 {
					s.caps |= 1 << uint(k)
				}
			}
		}
		b.WriteString(s.render(map[int]int{0: nPre, 1: nPre, 2: nBrevePre, 3: nMarkEnd}[style], r.Intn(3) == 0))
		rest = rest[j:]
	}
	return b.String(), plain
}

var dictDefs = []string{"▯ is good.", "", "predicate: ‘see’; ▯ sees ▯.", "\"quoted\" \\ / \b\f\n\r\t", "<b>&amp;</b>", "😀 \u2028 é e\u0301", "Mải Gí V- ? ~", "null"}

// jsonString encodes s with random escapes.
func jsonString(r *rand.Rand, s string) string {
	if r.Intn(3) > 0 {
		b, _ := json.Marshal(s)
		return string(b)
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c >= 0x10000:
			c -= 0x10000
			fmt.Fprintf(&b, "\\u%04x\\u%04X", 0xD800+c>>10, 0xDC00+c&0x3ff)
		case c == '"' || c == '\\' || c < 0x20 || r.Intn(3) == 0:
			fmt.Fprintf(&b, "\\u%04x", c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func ws(r *rand.Rand) string { return []string{"", "", "", " ", "\n\t"}[r.Intn(5)] }

func jsonObject(r *rand.Rand, fields []string) string {
	r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	return "{" + ws(r) + strings.Join(fields, ws(r)+","+ws(r)) + ws(r) + "}"
}

// goodBody is the body of a successful response and the dictionary it stands for.
func goodBody(o *obs, r *rand.Rand) (string, map[string]dict.Word) {
	want := map[string]dict.Word{}
	var known, es []string
	for n := r.Intn(13); n > 0; n-- {
		spelled, plain := dictWord(r, known)
		known = append(known, plain)
		w := dict.Word{Word: plain, Def: dictDefs[r.Intn(len(dictDefs))], By: []string{"official", "Ilmen", "", "Toá Dua V?"}[r.Intn(4)], Score: []int{0, 1, -1, 7, -1 << 31, 1<<31 - 1}[r.Intn(6)]}
		fields := []string{`"head":` + jsonString(r, spelled)}
		if w.Def != "" || r.Intn(2) == 0 {
			fields = append(fields, `"body":`+ws(r)+jsonString(r, w.Def))
		}
		if w.By != "" || r.Intn(2) == 0 {
			fields = append(fields, `"by":`+jsonString(r, w.By))
		}
		if w.Score != 0 || r.Intn(2) == 0 {
			fields = append(fields, fmt.Sprintf(`"score":%d`, w.Score))
		}
		if r.Intn(3) == 0 {
			fields = append(fields, `"id":"#x`+fmt.Sprint(n)+`"`, `"notes":[{"score":3,"body":"x","head":"y"}]`, `"tone":null`, `"word":"zzz"`)
		}
		if _, ok := want[plain]; ok {
			o.count("entries of a word given before", 1)
		}
		want[plain] = w
		es = append(es, jsonObject(r, fields))
		o.count("entries", 1)
	}
	if r.Intn(800) == 0 {
		// A dictionary of the size of the real one, or more.
		n := 2000 + r.Intn(20000)
		def := strings.Repeat("▯ is of no kind. ", 1+r.Intn(10))
		for i := 0; i < n; i++ {
			w := dict.Word{Word: fmt.Sprintf("%s %d", sylOnsets[i%len(sylOnsets)]+"a", i), Def: def, By: "official", Score: i}
			want[w.Word] = w
			es = append(es, fmt.Sprintf(`{"head":%q,"body":%q,"by":"official","score":%d}`, w.Word, def, i))
		}
		o.count("entries", n)
		o.count("large dictionaries", 1)
	}
	fields := []string{`"success":true`, `"data":` + ws(r) + "[" + strings.Join(es, ","+ws(r)) + "]"}
	if r.Intn(4) == 0 {
		fields = append(fields, `"version":{"success":false,"data":null}`)
	}
	return ws(r) + jsonObject(r, fields), want
}

func httpAnswer(status, body string) string {
	return fmt.Sprintf("HTTP/1.1 %s\r\nContent-Type: application/json\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", status, len(body), body)
}

func checkC25(o *obs, c string) string {
	if c == "(built-in dictionary)" {
		for k, w := range dict.Words {
			if w.Word != k {
				return fmt.Sprintf("the built-in dictionary has %q at the key %q", w.Word, k)
			}
		}
		o.count("built-in entries", len(dict.Words))
		return ""
	}
	if theDictServer == nil || theDictServer.n > 4000 {
		// Another port from time to time, so as not to run out of connections.
		if theDictServer != nil {
			theDictServer.l.Close()
		}
		theDictServer = startDictServer()
	}
	s := theDictServer
	r := textRand("C25", c)
	s.mu.Lock()
	s.n++
	path := fmt.Sprintf("/toadua/api%d", s.n)
	if r.Intn(2) == 0 {
		// One that has answered before, something else.
		path = "/toadua/api"
		o.count("loaded again from the same URL", 1)
	}
	job := &dictJob{}
	s.jobs[path] = job
	n := s.n
	s.mu.Unlock()
	if n%500 == 0 {
		// Nothing of the earlier calls may be left behind for good.
		for i := 0; runtime.NumGoroutine() > 100; i++ {
			if i == 2000 {
				return fmt.Sprintf("%d goroutines are left after %d calls of Load", runtime.NumGoroutine(), n)
			}
			time.Sleep(10 * time.Millisecond)
		}
		o.count("leak checks", 1)
	}
	defer func() {
		s.mu.Lock()
		delete(s.jobs, path)
		s.mu.Unlock()
	}()
	url := "http://" + s.addr + path
	query := []string{`{"action": "search", "query": "*"}`, `{"action":"search","query":"mải"}`, "", "null", "{}", "{}\n", " \t{ \"action\" : \"search\" } \r\n", "\ufeff{}\x00\xff", `"` + strings.Repeat("é%s\\n", r.Intn(400)) + `"`}[r.Intn(9)]
	whole := func(a string) func(net.Conn) { return func(c net.Conn) { io.WriteString(c, a) } }

	body, want := "", map[string]dict.Word(nil)
	reach := true
	mention := ""
	kind := ""
	switch k := r.Intn(20); {
	case k < 9:
		body, want = goodBody(o, r)
		kind = "dictionaries loaded"
		if r.Intn(2) == 0 {
			job.answer = whole(httpAnswer("200 OK", body))
			break
		}
		pieces := cut(r, body, 1+r.Intn(5))
		job.answer = func(c net.Conn) {
			io.WriteString(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n")
			for _, p := range pieces {
				fmt.Fprintf(c, "%x\r\n%s\r\n", len(p), p)
			}
			io.WriteString(c, "0\r\n\r\n")
		}
	case k < 13:
		kind = "transport faults"
		body, _ = goodBody(newQuiet(), r)
		inside := r.Intn(len(body))
		full := httpAnswer("200 OK", body)
		headers := len(full) - len(body)
		switch f := r.Intn(8); f {
		case 0:
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				fatalf("no loopback network: %v", err)
			}
			url = "http://" + l.Addr().String() + path
			l.Close()
			reach = false
		case 1:
			url = []string{"", ":", "http://", "http:// x/", "http://127.0.0.1:0/", "ftp://127.0.0.1/x", "127.0.0.1", "http://127.0.0.1:99999/x", "http://[::1", "http://\x7f/", "%zz"}[r.Intn(11)]
			reach = false
		case 2:
			job.answer = func(net.Conn) {}
		case 3:
			job.answer = func(c net.Conn) { c.(*net.TCPConn).SetLinger(0) }
		case 4: // closed within the header
			job.answer = whole(full[:r.Intn(headers-2)])
		case 5: // closed within the body
			job.answer = whole(full[:headers+inside])
		case 6: // reset within the body
			job.answer = func(c net.Conn) {
				io.WriteString(c, full[:headers+inside])
				c.(*net.TCPConn).SetLinger(0)
			}
		case 7: // closed within the chunks
			job.answer = func(c net.Conn) {
				fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s", len(body), body[:inside])
			}
		}
		c = fmt.Sprint(url, inside, body)
	case k < 16:
		kind = "failure responses"
		mention = []string{"", "invalid query", "no such action é", "100% wrong %d"}[r.Intn(4)]
		fields := []string{`"success":false`}
		if r.Intn(4) == 0 {
			fields = nil
		}
		switch {
		case mention != "":
			fields = append(fields, `"error":`+jsonString(r, mention))
		case r.Intn(2) == 0:
			fields = append(fields, `"error":`+[]string{"null", `""`}[r.Intn(2)])
		}
		switch r.Intn(4) {
		case 0:
			fields = append(fields, `"data":null`)
		case 1:
			fields = append(fields, `"data":[]`)
		case 2:
			fields = append(fields, `"data":[{"head":"mai","body":"x","by":"y","score":1}]`)
		}
		body = jsonObject(r, fields)
		job.answer = whole(httpAnswer([]string{"200 OK", "200 OK", "400 Bad Request", "500 Internal Server Error"}[r.Intn(4)], body))
	default:
		kind = "malformed bodies"
		good, _ := goodBody(newQuiet(), r)
		bodies := []string{"", " ", "null", "true", "[]", "[{}]", `"ok"`, "0", "<html><body>Service Unavailable</body></html>", "{", "{]", "\x00", "\xff\xfe", "{}",
			`{"success":true}`, `{"success":true,"data":null}`, `{"success":true,"error":null}`, `{"success":true,"data":{}}`, `{"success":true,"data":"x"}`, `{"success":true,"data":3}`,
			`{"success":true,"data":["mai"]}`, `{"success":true,"data":[[]]}`, `{"success":true,"data":[{"head":3}]}`, `{"success":true,"data":[{"head":"mai","score":"1"}]}`,
			`{"success":true,"data":[{"head":"mai","score":1.5}]}`, `{"success":true,"data":[{"head":["mai"]}]}`, `{"success":true,"data":[{"head":"mai"},]}`, `{"success":true,"data":[{"head":"mai"}`,
			`{"success":"yes","data":[]}`, `{"success":1,"data":[]}`, `{"success":null,"data":[]}`, `{'success':true,'data':[]}`, `{"success":true "data":[]}`, `success`, good[:r.Intn(len(good))], "x" + good}
		body = bodies[r.Intn(len(bodies))]
		job.answer = whole(httpAnswer([]string{"200 OK", "200 OK", "200 OK", "503 Service Unavailable", "404 Not Found"}[r.Intn(5)], body))
	}

	type outcome struct {
		ws  map[string]dict.Word
		err error
		bad interface{}
	}
	ch := make(chan outcome, 1)
	go func() {
		var out outcome
		defer func() {
			out.bad = recover()
			ch <- out
		}()
		out.ws, out.err = dict.Load(url, query)
	}()
	var out outcome
	select {
	case out = <-ch:
	case <-time.After(90 * time.Second):
		return fmt.Sprintf("%s: Load does not return; body %q", kind, body)
	}
	if out.bad != nil {
		return fmt.Sprintf("%s: Load panics: %v; body %q", kind, out.bad, body)
	}
	o.count(kind, 1)
	o.nontrivial(kind + body + c)
	if reach {
		s.mu.Lock()
		j := *job
		s.mu.Unlock()
		if mt, _, _ := mime.ParseMediaType(j.contentType); j.requests != 1 || j.method != "POST" || j.body != query || mt != "application/json" {
			return fmt.Sprintf("%d requests, %s of %q as %q instead of one POST of %q as application/json", j.requests, j.method, head(j.body, 200), j.contentType, head(query, 200))
		}
	}
	defer func() {
		// What the caller does with it must not matter to later calls.
		for w := range out.ws {
			out.ws[w] = dict.Word{Word: "overwritten"}
		}
	}()
	if want == nil {
		if out.err == nil || out.ws != nil {
			return fmt.Sprintf("%s: Load returns %d words and error %v; URL %q, body %q", kind, len(out.ws), out.err, url, body)
		}
		if msg := out.err.Error(); msg == "" || !strings.Contains(msg, mention) {
			return fmt.Sprintf("%s: error %q does not have the message %q", kind, msg, mention)
		}
		return ""
	}
	if out.err != nil {
		return fmt.Sprintf("%s: error %v; body %q", kind, out.err, head(body, 2000))
	}
	if out.ws == nil {
		return fmt.Sprintf("%s: neither a dictionary nor an error; body %q", kind, body)
	}
	if got, w := dictString(out.ws), dictString(want); got != w {
		return fmt.Sprintf("%s; body %q", firstDiff(got, w), head(body, 2000))
	}
	return ""
}

func dictString(ws map[string]dict.Word) string {
	var ls []string
	for k, w := range ws {
		ls = append(ls, fmt.Sprintf("%q: %q %q %q %d", k, w.Word, w.Def, w.By, w.Score))
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}
