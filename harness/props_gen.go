package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/eaburns/toaq/dict"
)

func init() {
	register(&prop{id: "C27", quick: 60, thorough: 1200, noShrink: true,
		gen:         func(r *rand.Rand, i int) string { return fmt.Sprintf("dictionary %x", r.Int63()) },
		check:       checkC27,
		rule:        "Each case is a scripted dictionary server (behind a proxy with its own certificate authority, so that the generator itself is unchanged) and an output path: dictionaries of up to 80 entries with hostile words, definitions and authors (Go syntax, quotes, comments, format verbs, control and non-ASCII characters, package names, long texts), server faults, or a path that cannot be written. A written file is compiled in the place of the repository's and its dictionary printed. Non-trivial: distinct responses.",
		need:        []string{"files written", "entries written", "entries with Go syntax", "server failures", "old files kept", "unwritable paths"},
		assumptions: []string{"the time of the last update is not judged"}})
}

// A fakeWeb is a proxy that answers for every host itself.
type fakeWeb struct {
	addr, cert string
	mu         sync.Mutex
	answer     string
	faults     bool
	got        []string // method, path and body of the requests
}

var theFakeWeb *fakeWeb

func startFakeWeb() *fakeWeb {
	caKey, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		fatalf("%v", err)
	}
	ca := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "vmon"}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	caDER, err := x509.CreateCertificate(crand.Reader, ca, ca, &caKey.PublicKey, caKey)
	if err != nil {
		fatalf("%v", err)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fatalf("no loopback network: %v", err)
	}
	f := &fakeWeb{addr: l.Addr().String(), cert: filepath.Join(*flagDir, fmt.Sprintf("ca%d.pem", os.Getpid()))}
	if err := os.WriteFile(f.cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: caDER}), 0o644); err != nil {
		fatalf("%v", err)
	}
	conf := &tls.Config{GetCertificate: func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
		c := &x509.Certificate{SerialNumber: big.NewInt(2), DNSNames: []string{h.ServerName}, NotBefore: ca.NotBefore, NotAfter: ca.NotAfter}
		der, err := x509.CreateCertificate(crand.Reader, c, ca, &caKey.PublicKey, caKey)
		return &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: caKey}, err
	}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go f.serve(c, conf)
		}
	}()
	return f
}

func (f *fakeWeb) serve(c net.Conn, conf *tls.Config) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	req, err := http.ReadRequest(bufio.NewReader(c))
	if err != nil {
		return
	}
	host := req.Host
	if req.Method == "CONNECT" {
		io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
		t := tls.Server(c, conf)
		defer t.Close()
		c = t
		if req, err = http.ReadRequest(bufio.NewReader(c)); err != nil {
			return
		}
	}
	body, _ := io.ReadAll(req.Body)
	f.mu.Lock()
	f.got = append(f.got, fmt.Sprintf("%s %s%s %s", req.Method, strings.TrimSuffix(host, ":443"), req.URL.Path, body))
	a := f.answer
	f.mu.Unlock()
	io.WriteString(c, a)
}

var goSyntax = []string{"dict.", "dict.Word{", "map[string]dict.Word{}", "a dict. of words", "`", "\"", "'", "\\", "%s %d %", "%!v(MISSING)", "*/", "/* ", "// x", "\n", "\r\n", "\t", "\x00", "\x7f", "\u2028", "\ufeff", "\ufffd", "😀", "package dict",
	"Word{Word: \"x\"}", "}", "{", "}}", "\", By: \"", "time.Now()", "$1", "\\u0041", "\u00a0", "e\u0301", "var Words = nil"}

func goString(r *rand.Rand) string {
	var b strings.Builder
	for n := r.Intn(5); n >= 0; n-- {
		if r.Intn(2) == 0 {
			b.WriteString(goSyntax[r.Intn(len(goSyntax))])
		} else {
			b.WriteString(dictDefs[r.Intn(len(dictDefs))])
		}
	}
	if r.Intn(50) == 0 {
		return strings.Repeat(b.String(), 1000)
	}
	return b.String()
}

func checkC27(o *obs, c string) string {
	if theFakeWeb == nil {
		theFakeWeb = startFakeWeb()
	}
	f := theFakeWeb
	r := textRand("C27", c)
	dir, err := os.MkdirTemp(*flagDir, "gen")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(dir)

	want := map[string]dict.Word{}
	var es, known []string
	tricky := 0
	for n := r.Intn(3) * r.Intn(40); n > 0; n-- {
		spelled, plain := dictWord(r, known)
		if r.Intn(8) == 0 {
			// Not a word, but toneless and in lower case.
			plain = []string{"dict.", "dict.word{", "%", "a\"b", "`", "}", "x\ny", "", " ", "dict", "words"}[r.Intn(11)]
			spelled = plain
		}
		known = append(known, plain)
		w := dict.Word{Word: plain, Def: goString(r), By: goString(r), Score: []int{0, 1, -1, 7, -1 << 31, 1<<31 - 1}[r.Intn(6)]}
		if r.Intn(3) == 0 {
			w.Def, w.By = dictDefs[r.Intn(len(dictDefs))], "official"
		} else {
			tricky++
		}
		if w.Def == "null" {
			w.Def = ""
		}
		es = append(es, jsonObject(r, []string{`"head":` + jsonString(r, spelled), `"body":` + jsonString(r, w.Def), `"by":` + jsonString(r, w.By), fmt.Sprintf(`"score":%d`, w.Score)}))
		want[plain] = w
	}
	good := jsonObject(r, []string{`"success":true`, `"data":[` + strings.Join(es, ",") + "]"})
	answer, mention := httpAnswer("200 OK", good), ""
	out, old := "words.go", ""
	kind := "files written"
	switch k := r.Intn(8); {
	case k < 5:
		old = []string{"", "package dict\n", strings.Repeat("old ", 5000) + string(make([]byte, 1<<16))}[r.Intn(3)]
	case k < 7:
		kind = "server failures"
		old = "package dict\nvar Words map[string]Word\n"
		switch r.Intn(5) {
		case 0:
			mention = []string{"no such action", "100% wrong %d %s", "%!", "é"}[r.Intn(4)]
			answer = httpAnswer("200 OK", `{"success":false,"error":`+jsonString(r, mention)+"}")
		case 1:
			answer = httpAnswer("200 OK", `{"success":false}`)
		case 2:
			answer = httpAnswer("200 OK", `{"success":true}`)
		case 3:
			h := len(answer) - len(good)
			answer = answer[:h+r.Intn(len(good))]
		case 4:
			answer = httpAnswer("503 Service Unavailable", "<html>")
		}
	default:
		kind = "unwritable paths"
		out = []string{"missing/words.go", ".", "", "/dev/full"}[r.Intn(4)]
	}
	path := out
	if out == "words.go" {
		path = filepath.Join(dir, out)
		if old != "" {
			if err := os.WriteFile(path, []byte(old), 0o644); err != nil {
				fatalf("%v", err)
			}
		}
		if r.Intn(2) == 0 {
			out = path
		}
	}
	// run runs the generator with the answer.
	run := func() (string, int, string) {
		f.mu.Lock()
		f.answer, f.got = answer, nil
		f.mu.Unlock()
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, filepath.Join(*flagBin, "dictgen"), "-o", out)
		cmd.Dir = dir
		for _, e := range os.Environ() {
			if n := strings.ToLower(e); !strings.Contains(n, "proxy=") && !strings.HasPrefix(n, "ssl_cert") {
				cmd.Env = append(cmd.Env, e)
			}
		}
		p := "http://" + f.addr
		cmd.Env = append(cmd.Env, "HTTPS_PROXY="+p, "HTTP_PROXY="+p, "SSL_CERT_FILE="+f.cert)
		b, err := cmd.CombinedOutput()
		if cmd.ProcessState == nil {
			fatalf("cannot run the generator: %v", err)
		}
		if ctx.Err() != nil {
			return string(b), -1, "the generator does not end"
		}
		f.mu.Lock()
		got := append([]string{}, f.got...)
		f.mu.Unlock()
		if len(got) != 1 {
			return string(b), cmd.ProcessState.ExitCode(), fmt.Sprintf("%d requests were made: %q; output %q", len(got), got, head(string(b), 300))
		}
		var q struct{ Action, Query string }
		ws := strings.SplitN(got[0], " ", 3)
		if err := json.Unmarshal([]byte(ws[2]), &q); ws[0] != "POST" || err != nil || q.Action != "search" || q.Query != "*" {
			return string(b), cmd.ProcessState.ExitCode(), fmt.Sprintf("the request is not a search for everything: %s", got[0])
		}
		return string(b), cmd.ProcessState.ExitCode(), ""
	}
	msg, code, bad := run()
	if bad != "" {
		return bad
	}
	o.count(kind, 1)
	o.nontrivial(kind + answer + out)
	if kind != "files written" {
		if code == 0 || strings.TrimSpace(msg) == "" {
			return fmt.Sprintf("%s: exit code %d, output %q", kind, code, head(msg, 300))
		}
		if !strings.Contains(msg, mention) || strings.Contains(msg, "goroutine ") {
			return fmt.Sprintf("%s: the output does not have the message %q: %q", kind, mention, head(msg, 600))
		}
		if kind == "server failures" {
			if b, err := os.ReadFile(path); err != nil || string(b) != old {
				return fmt.Sprintf("%s: the old file is now %q (%v)", kind, head(string(b), 300), err)
			}
			o.count("old files kept", 1)
		}
		return ""
	}
	if code != 0 || msg != "" {
		return fmt.Sprintf("exit code %d, output %q; answer %s", code, head(msg, 300), good)
	}
	src, err := os.ReadFile(path)
	if err != nil {
		return fmt.Sprintf("no file: %v", err)
	}
	got, err := builtWords(dir, path)
	if err != nil {
		return fmt.Sprintf("the file does not compile: %v; answer %s", err, good)
	}
	if w := dictString(want); got != w {
		return fmt.Sprintf("%s; answer %s", firstDiff(got, w), good)
	}
	o.count("entries written", len(want))
	o.count("entries with Go syntax", tricky)
	if r.Intn(4) == 0 {
		if _, _, bad := run(); bad != "" {
			return bad
		}
		src2, _ := os.ReadFile(path)
		if a, b := withoutTime(src), withoutTime(src2); a != b {
			return "running the generator again gives another file: " + firstDiff(b, a)
		}
		o.count("runs repeated", 1)
	}
	return ""
}

// withoutTime is the source without the comments that tell when it was made.
func withoutTime(src []byte) string {
	var ls []string
	for _, l := range strings.Split(string(src), "\n") {
		if !strings.HasPrefix(l, "//") {
			ls = append(ls, l)
		}
	}
	return strings.Join(ls, "\n")
}

// builtWords compiles the dictionary with the file instead of the repository's words.go, and returns its words.
func builtWords(dir, file string) (string, error) {
	ov, _ := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(*flagRepo, "dict", "words.go"): file}})
	ovFile := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovFile, ov, 0o644); err != nil {
		fatalf("%v", err)
	}
	bin := filepath.Join(dir, "dump")
	cmd := exec.Command("go", "build", "-mod=mod", "-modfile="+filepath.Join(*flagBin, "..", "h.mod"), "-overlay="+ovFile, "-o", bin, "./dumpwords")
	cmd.Dir = os.Getenv("VMON_HARNESS")
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, head(string(b), 600))
	}
	var out, errs bytes.Buffer
	cmd = exec.Command(bin)
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Run(); err != nil {
		return "", fmt.Errorf("%v: %s", err, head(errs.String(), 600))
	}
	return out.String(), nil
}
