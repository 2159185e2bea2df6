package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/toaq/ast"
)

func init() {
	register(&prop{id: "C26", quick: 15000, thorough: 300000, fixed: append(append([]string{}, hostileTexts...), logicTexts...),
		gen: func(r *rand.Rand, i int) string {
			if i%200 == 7 {
				return long(r)
			}
			return cmdText(r)
		}, check: checkC26,
		rule:        "Generated, mutated and hostile inputs; each is given to the program built from main.go on standard input, or in a file with an ordinary, odd or relative path, or the file is missing or a directory. Standard output and exit code are compared with what the library computes in this process. Non-trivial: distinct (way of input, input).",
		need:        []string{"on standard input", "in a file", "syntax errors", "formulas", "fragments", "unreadable files", "interpreter failures", "long texts"},
		assumptions: []string{"inputs with a failure tree beyond 3 MB in print or an exploding interpretation are left out", "when the interpreter fails, only the output before it and a non-zero exit code are required"}})
}

type limitedBuffer struct{ bytes.Buffer }

var errFull = errors.New("full")

func (b *limitedBuffer) Write(p []byte) (int, error) {
	if b.Len() > 3<<20 {
		return 0, errFull
	}
	return b.Buffer.Write(p)
}

func checkC26(o *obs, text string) string {
	r := textRand("C26", text)
	a, big := analyze(text)
	if big {
		o.count("too big", 1)
		return ""
	}
	if strings.HasPrefix(text, longPrefix) {
		o.count("long texts", 1)
	}
	dir, err := os.MkdirTemp(*flagDir, "cli")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(dir)
	var args []string
	path := ""
	stdin := text
	how := "on standard input"
	unreadable := false
	switch k := r.Intn(10); {
	case k < 4:
	case k < 9:
		how = "in a file"
		stdin = []string{"", "mai? suq/", "xxx"}[r.Intn(3)]
		path = []string{"in.toaq", "./in.toaq", "a b%s.txt", "ủ.txt", "in", "sub/in.toaq", "-h"}[r.Intn(7)]
		os.Mkdir(filepath.Join(dir, "sub"), 0o755)
		if err := os.WriteFile(filepath.Join(dir, path), []byte(text), 0o644); err != nil {
			fatalf("%v", err)
		}
		if r.Intn(3) == 0 {
			path = filepath.Join(dir, path)
		}
		args = []string{path}
	default:
		how = "unreadable files"
		unreadable = true
		path = []string{"missing.toaq", "sub/missing", "dir", ".", ""}[r.Intn(5)]
		os.Mkdir(filepath.Join(dir, "dir"), 0o755)
		args = []string{path}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(*flagBin, "toaq"), args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	var want strings.Builder
	if a.err != "" && !unreadable {
		_, err := ast.NewParser(text).Tree()
		tree := err.(ast.Error).Tree()
		peg.DedupFails(tree)
		var b limitedBuffer
		if peg.PrettyWrite(&b, tree) != nil {
			o.count("too big", 1)
			return ""
		}
		want.Write(b.Bytes())
		want.WriteString("\n" + path + a.err + "\n")
	}
	rerr := cmd.Run()
	if rerr != nil {
		var ee *exec.ExitError
		if !errors.As(rerr, &ee) {
			if _, err := os.Stat(cmd.Path); err != nil || strings.Contains(rerr.Error(), "resource") {
				fatalf("cannot run the program: %v", rerr)
			}
		}
	}
	if ctx.Err() != nil {
		return how + ": the program does not end"
	}
	code := cmd.ProcessState.ExitCode()
	got := stdout.String()
	o.count(how, 1)
	o.nontrivial(how + ": " + text)
	wantCode := 0
	switch {
	case unreadable:
		if code != 1 || !strings.Contains(got, "failed to ") || !strings.Contains(got, path) {
			return fmt.Sprintf("for the path %q: exit code %d, output %q", path, code, head(got, 300))
		}
		if stderr.Len() > 0 {
			return fmt.Sprintf("for the path %q: on standard error: %q", path, head(stderr.String(), 300))
		}
		return ""
	case a.err != "":
		o.count("syntax errors", 1)
		wantCode = 1
	default:
		for _, s := range []string{a.parse, a.astDump, a.text, a.braces} {
			want.WriteString(s + "\n")
		}
		switch {
		case a.failed:
			o.count("interpreter failures", 1)
			if code == 0 || !strings.HasPrefix(got, want.String()) || !strings.Contains(got+stderr.String(), a.log) {
				return fmt.Sprintf("%s: the interpreter fails with %q; exit code %d, output: %s", how, a.log, code, firstDiff(got, want.String()))
			}
			return ""
		case a.fragment:
			o.count("fragments", 1)
			want.WriteString("fragment\n")
		default:
			o.count("formulas", 1)
			want.WriteString(a.stmt + "\n" + a.plain + "\n")
		}
	}
	if got != want.String() {
		return fmt.Sprintf("%s: exit code %d, output: %s", how, code, firstDiff(got, want.String()))
	}
	if code != wantCode {
		return fmt.Sprintf("%s: exit code %d instead of %d; standard error %q", how, code, wantCode, head(stderr.String(), 500))
	}
	return ""
}
