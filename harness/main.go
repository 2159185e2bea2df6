package main

// vmon runs one property's monitored workload.
//
// The parent process splits a deterministic list of cases over worker processes,
// so that a fatal run-time error, a hang or a memory blow-up of the code under observation
// is an observation (attributed to the case being run) and not the end of the check.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A prop is one property's monitor.
type prop struct {
	id string
	// quick and thorough are the number of generated cases.
	quick, thorough int
	// fixed are cases that are always run.
	fixed []string
	// more, if set, makes more fixed cases.
	more func() []string
	// gen makes case number i, as a string.
	gen func(r *rand.Rand, i int) string
	// check runs the case under observation and
	// returns a description of the violation observed, or "".
	check func(o *obs, c string) string
	// global, if set, runs once in a worker of its own, before the cases
	// It returns the violating case and a description, or "".
	global func(o *obs, r *rand.Rand, thorough bool) (string, string)
	rule   string
	// need lists counters that have to be non-zero for a run to mean anything.
	need        []string
	assumptions []string
	// noShrink tells that cases are not texts.
	noShrink bool
	// serial runs all cases in one process
	serial bool
}

// An obs collects what the monitor observed.
type obs struct {
	counts   map[string]int64
	distinct map[uint64]bool
	samples  []string
	quiet    bool  // shrinking; don't count.
	evals    int64 // evaluations by a global workload
}

func newObs() *obs { return &obs{counts: map[string]int64{}, distinct: map[uint64]bool{}} }

func (o *obs) count(k string, n int) {
	if !o.quiet {
		o.counts[k] += int64(n)
	}
}

// nontrivial notes a distinct non-trivial case or observation.
func (o *obs) nontrivial(key string) {
	if o.quiet {
		return
	}
	o.distinct[hash64(key)] = true
	if len(o.samples) < 4 && len(key) < 400 {
		o.samples = append(o.samples, key)
	}
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func caseRand(seed int64, id string, i int) *rand.Rand {
	return rand.New(rand.NewSource(int64(hash64(fmt.Sprintf("%d/%s/%d", seed, id, i)))))
}

func textRand(salt, s string) *rand.Rand {
	return rand.New(rand.NewSource(int64(hash64(salt + "\x00" + s))))
}

type violation struct {
	Case string
	What string
	Orig string
}

type result struct {
	Evaluations int64
	Counts      map[string]int64
	Samples     []string
	Violations  []violation
}

var (
	flagProp   = flag.String("prop", "", "property id")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagSeed   = flag.Int64("seed", 1, "seed")
	flagOut    = flag.String("out", "", "evidence directory")
	flagDir    = flag.String("dir", "", "scratch directory")
	flagBin    = flag.String("bin", "", "directory of other binaries")
	flagWorker = flag.Int("worker", -1, "worker index")
	flagN      = flag.Int("n", 0, "number of workers")
	flagBurst  = flag.Int64("burst", -1, "run a burst of goroutines")
	flagReplay = flag.String("replay", "", "replay a case file")
	flagCases  = flag.Int("cases", 0, "override number of cases")
	flagRepo   = flag.String("repo", "/repo", "repository")
	flagSkip   = flag.String("skip", "", "comma-separated case indices to skip")
)

var props = map[string]*prop{}

func register(p *prop) { props[p.id] = p }

func main() {
	flag.Parse()
	p := props[*flagProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *flagProp)
		os.Exit(2)
	}
	if *flagReplay != "" {
		replay(p)
		return
	}
	if *flagBurst >= 0 {
		burst(p.id, *flagBurst)
		return
	}
	if p.more != nil {
		p.fixed = append(append([]string{}, p.fixed...), p.more()...)
	}
	if *flagWorker >= 0 {
		worker(p)
		return
	}
	os.Exit(parent(p))
}

func replay(p *prop) {
	b, err := os.ReadFile(*flagReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	o := newObs()
	o.quiet = true
	c := string(r.Raw)
	if p.check == nil || r.Global {
		fmt.Println("replay by running the whole check with the same seed:", r.Seed)
		os.Exit(2)
	}
	if what := safeCheck(p, o, c); what != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", p.id, *flagReplay, what)
		os.Exit(1)
	}
	fmt.Println("no violation")
}

func numCases(p *prop) int {
	n := p.quick
	if *flagTier == "thorough" {
		n = p.thorough
	}
	if *flagCases > 0 {
		n = *flagCases
	}
	return n
}

// safeCheck runs the check and turns a panic into a violation.
func safeCheck(p *prop, o *obs, c string) (what string) {
	defer func() {
		if r := recover(); r != nil {
			what = fmt.Sprintf("panic: %v\n%s", r, stackOf())
		}
	}()
	return p.check(o, c)
}

func stackOf() string {
	s := string(debug.Stack())
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

const (
	caseCPULimit = 60 * time.Second
	memLimit     = 3 << 30
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

type slotFile struct {
	f  *os.File
	mu sync.Mutex
}

func (s *slotFile) set(i int, c string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, int64(i))
	binary.Write(&b, binary.LittleEndian, int64(len(c)))
	b.WriteString(c)
	s.f.WriteAt(b.Bytes(), 0)
}

var slot *slotFile

var started atomic.Int64 // CPU time at the start of the current case

// slotKeepAlive tells the watchdog that a global workload advances.
func slotKeepAlive() { started.Store(int64(cpuTime())) }

func worker(p *prop) {
	k := *flagWorker
	f, err := os.Create(filepath.Join(*flagDir, fmt.Sprintf("slot%d", k)))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	slot = &slotFile{f: f}
	debug.SetMaxStack(256 << 20)
	started.Store(int64(cpuTime()))
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if cpuTime()-time.Duration(started.Load()) > caseCPULimit {
				fmt.Fprintf(os.Stderr, "VMON-HANG: more than %v of CPU time on one case\n", caseCPULimit)
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				os.Stderr.Write(buf[:n])
				os.Exit(4)
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > memLimit {
				fmt.Fprintf(os.Stderr, "VMON-MEMORY: more than %d bytes of heap on one case\n", memLimit)
				os.Exit(5)
			}
		}
	}()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1 << 30)

	skip := map[int]bool{}
	for _, s := range strings.Split(*flagSkip, ",") {
		if i, err := strconv.Atoi(s); err == nil {
			skip[i] = true
		}
	}
	o := newObs()
	var res result
	n := numCases(p)
	if p.global != nil && k == 0 && !skip[-1] {
		slot.set(-1, "(global workload)")
		c, what := p.global(o, caseRand(*flagSeed, p.id, -1), *flagTier == "thorough")
		res.Evaluations += 1 + o.evals
		if what != "" {
			res.Violations = append(res.Violations, violation{Case: c, What: what, Orig: "\x00global"})
		}
	}
	total := len(p.fixed) + n
	for i := k; i < total && p.check != nil; i += *flagN {
		if skip[i] {
			continue
		}
		started.Store(int64(cpuTime()))
		var c string
		if i < len(p.fixed) {
			c = p.fixed[i]
		} else {
			c = p.gen(caseRand(*flagSeed, p.id, i-len(p.fixed)), i-len(p.fixed))
		}
		slot.set(i, c)
		res.Evaluations++
		what := safeCheck(p, o, c)
		if what == "" {
			continue
		}
		v := violation{Case: c, What: what, Orig: c}
		if !p.noShrink {
			v.Case, v.What = shrink(p, c, what)
		}
		res.Violations = append(res.Violations, v)
		if len(res.Violations) >= 3 {
			break
		}
	}
	res.Counts = o.counts
	res.Samples = o.samples
	b, _ := json.Marshal(&res)
	if err := os.WriteFile(filepath.Join(*flagDir, fmt.Sprintf("result%d.json", k)), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var hb bytes.Buffer
	for h := range o.distinct {
		binary.Write(&hb, binary.LittleEndian, h)
	}
	os.WriteFile(filepath.Join(*flagDir, fmt.Sprintf("distinct%d", k)), hb.Bytes(), 0o644)
}

// shrink minimizes a violating text.
func shrink(p *prop, c, what string) (string, string) {
	o := newObs()
	o.quiet = true
	begin := cpuTime()
	tries := 0
	over := func() bool { return tries > 1500 || cpuTime()-begin > 10*time.Second }
	test := func(s string) bool {
		if over() {
			return false
		}
		tries++
		if w := safeCheck(p, o, s); w != "" {
			c, what = s, w
			return true
		}
		return false
	}
	for {
		before := c
		// whole words, then runes
		for _, byWord := range []bool{true, false} {
			size := 8
			for size*4 < len(pieces(c, byWord)) {
				size *= 2
			}
			for ; size >= 1; size /= 2 {
				for i := 0; !over(); i++ {
					parts := pieces(c, byWord)
					if i+size > len(parts) {
						break
					}
					s := strings.Join(parts[:i], "") + strings.Join(parts[i+size:], "")
					if test(s) {
						i--
					}
				}
			}
		}
		if c == before || over() {
			return c, what
		}
	}
}

func pieces(s string, byWord bool) []string {
	var out []string
	if byWord {
		for _, w := range strings.SplitAfter(s, " ") {
			if w != "" {
				out = append(out, w)
			}
		}
		return out
	}
	for _, r := range []byte(s) {
		out = append(out, string([]byte{r}))
	}
	return out
}

type replayFile struct {
	Property string
	Seed     int64
	Tier     string
	What     string
	Case     string
	Original string
	Raw      []byte
	Global   bool
}

func parent(p *prop) int {
	begin := time.Now()
	nw := 8
	if p.serial || p.check == nil {
		nw = 1
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	results := make([]*result, nw)
	var mu sync.Mutex
	var crashes []violation
	broken := false
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			var skip []string
			for attempt := 0; attempt < 3; attempt++ {
				rf := filepath.Join(*flagDir, fmt.Sprintf("result%d.json", k))
				os.Remove(rf)
				cmd := exec.Command(self, "-prop", p.id, "-tier", *flagTier, "-seed", fmt.Sprint(*flagSeed),
					"-dir", *flagDir, "-bin", *flagBin, "-worker", fmt.Sprint(k), "-n", fmt.Sprint(nw),
					"-repo", *flagRepo, "-cases", fmt.Sprint(*flagCases), "-skip", strings.Join(skip, ","))
				var stderr bytes.Buffer
				cmd.Stderr = &stderr
				cmd.Stdout = &stderr
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=single")
				err := cmd.Run()
				b, rerr := os.ReadFile(rf)
				if err == nil && rerr == nil {
					var r result
					if json.Unmarshal(b, &r) == nil {
						results[k] = &r
						return
					}
				}
				i, c, ok := readSlot(filepath.Join(*flagDir, fmt.Sprintf("slot%d", k)))
				msg := stderr.String()
				if !ok || (err != nil && strings.Contains(err.Error(), "exit status 3")) || strings.Contains(msg, "VMON-ERROR") {
					fmt.Fprintf(os.Stderr, "worker %d failed: %v\n%s\n", k, err, tail(msg, 4000))
					mu.Lock()
					broken = true
					mu.Unlock()
					return
				}
				v := violation{Case: c, Orig: c, What: fmt.Sprintf("the process died (%v): %s", err, head(msg, 6000))}
				if i < 0 {
					v.Orig = "\x00global"
				}
				mu.Lock()
				crashes = append(crashes, v)
				mu.Unlock()
				skip = append(skip, fmt.Sprint(i))
			}
		}(k)
	}
	wg.Wait()

	total := result{Counts: map[string]int64{}}
	distinct := map[uint64]bool{}
	for k, r := range results {
		if r == nil {
			continue
		}
		total.Evaluations += r.Evaluations
		for c, n := range r.Counts {
			if strings.HasPrefix(c, "max ") {
				if n > total.Counts[c] {
					total.Counts[c] = n
				}
			} else {
				total.Counts[c] += n
			}
		}
		if len(total.Samples) < 6 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		total.Violations = append(total.Violations, r.Violations...)
		hb, _ := os.ReadFile(filepath.Join(*flagDir, fmt.Sprintf("distinct%d", k)))
		for i := 0; i+8 <= len(hb); i += 8 {
			distinct[binary.LittleEndian.Uint64(hb[i:])] = true
		}
	}
	total.Violations = append(total.Violations, crashes...)
	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}

	known := loadKnown(p.id)
	var viol []violation
	for _, v := range total.Violations {
		if k := known.match(v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, k)
			continue
		}
		viol = append(viol, v)
	}
	sort.SliceStable(viol, func(i, j int) bool { return len(viol[i].Case) < len(viol[j].Case) })

	cov := map[string]interface{}{
		"evaluations":         total.Evaluations,
		"distinct_nontrivial": len(distinct),
		"rule":                p.rule,
		"samples":             total.Samples,
		"observed":            total.Counts,
		"fixed_cases":         len(p.fixed),
		"workers":             nw,
	}
	ev := map[string]interface{}{
		"property":    p.id,
		"tier":        *flagTier,
		"seed":        *flagSeed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": p.assumptions,
		"wall_s":      time.Since(begin).Seconds(),
		"violations":  len(viol),
	}
	if p.assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if total.Samples == nil {
		cov["samples"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.MkdirAll(*flagOut, 0o755); err == nil {
		err = os.WriteFile(filepath.Join(*flagOut, p.id+".json"), append(b, '\n'), 0o644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}

	if len(viol) > 0 {
		for n, v := range viol {
			if n >= 3 {
				break
			}
			path := filepath.Join(*flagOut, fmt.Sprintf("%s.replay%d.json", p.id, n))
			rb, _ := json.MarshalIndent(&replayFile{Property: p.id, Seed: *flagSeed, Tier: *flagTier, What: v.What,
				Case: fmt.Sprintf("%q", v.Case), Original: fmt.Sprintf("%q", v.Orig), Raw: []byte(v.Case), Global: v.Orig == "\x00global"}, "", " ")
			os.WriteFile(path, append(rb, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
			fmt.Printf("  case: %q\n", head(v.Case, 600))
			fmt.Printf("  observed: %s\n", strings.ReplaceAll(head(v.What, 1500), "\n", "\n    "))
		}
		return 1
	}
	if broken {
		return 2
	}
	for _, c := range p.need {
		if total.Counts[c] == 0 {
			fmt.Fprintf(os.Stderr, "inconclusive: nothing observed for %q\n", c)
			return 2
		}
	}
	fmt.Printf("ok property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", p.id, total.Evaluations, len(distinct), time.Since(begin).Seconds())
	var keys []string
	for k := range total.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if strings.HasPrefix(k, "rule: ") {
			continue // in the evidence
		}
		fmt.Printf("  %-40s %d\n", k, total.Counts[k])
	}
	return 0
}

func readSlot(path string) (int, string, bool) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 16 {
		return 0, "", false
	}
	i := int64(binary.LittleEndian.Uint64(b))
	n := int(binary.LittleEndian.Uint64(b[8:]))
	if n < 0 || 16+n > len(b) {
		return 0, "", false
	}
	return int(i), string(b[16 : 16+n]), true
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}

// Known findings: lines "known: property=<id> case=<Go-quoted minimal case> <what fails>".
type knownFindings []knownFinding
type knownFinding struct{ kase, what string }

func loadKnown(id string) knownFindings {
	b, err := os.ReadFile(filepath.Join(*flagOut, "..", "known-findings.txt"))
	if err != nil {
		return nil
	}
	var ks knownFindings
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + id + " case="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		rest := l[len(pre):]
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		c, _ := strconv.Unquote(q)
		ks = append(ks, knownFinding{c, strings.TrimSpace(rest)})
	}
	return ks
}

func (ks knownFindings) match(v violation) string {
	for _, k := range ks {
		if k.kase == v.Case {
			return k.what
		}
	}
	return ""
}
