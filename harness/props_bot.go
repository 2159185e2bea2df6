package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() {
	register(&prop{id: "C24", global: botWorkload,
		rule: "The bot binary, built with the race detector against a stand-in for the chat client, is joined to 6 channels. Scripts of command messages, some of them repeated, other messages, relayed messages and other events run on all of them at once, some with the sending of replies blocked meanwhile. The log of messages sent on each channel is compared with the replies the library's results call for, in order. Non-trivial: distinct command messages replied to.",
		need: []string{"replies", "syntax errors replied", "formulas replied", "fragments replied", "interpreter failures replied", "no reply needed", "relayed commands", "other events", "channels held while others run", "long texts", "commands repeated"},
		assumptions: []string{"the stand-in behaves as the chat client's interface documents; failing Receive and Send calls, on which the bot exits by design, are left out",
			"the race detector sees the interleavings of this run only"}})
}

type chatLine struct {
	Kind  string
	Text  []byte
	From  bool
	Nick  string
	Reply []byte
}

type botChannel struct {
	name string
	conn net.Conn
	mu   sync.Mutex
	got  []chatLine
	held chan string // acknowledged hold and release
}

func (c *botChannel) send(l chatLine) error {
	b, _ := json.Marshal(l)
	c.conn.SetWriteDeadline(time.Now().Add(60 * time.Second))
	_, err := c.conn.Write(append(b, '\n'))
	return err
}

func (c *botChannel) read(rd *bufio.Reader) {
	for {
		b, err := rd.ReadBytes('\n')
		if err != nil {
			return
		}
		var l chatLine
		if json.Unmarshal(b, &l) != nil {
			continue
		}
		if l.Kind == "hold" || l.Kind == "release" {
			c.held <- l.Kind
			continue
		}
		c.mu.Lock()
		c.got = append(c.got, l)
		c.mu.Unlock()
	}
}

func (c *botChannel) replies() []chatLine {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]chatLine(nil), c.got...)
}

// An expectation is what a reply has to be.
type expectation struct {
	msg string
	a   analysis
}

func (e expectation) judge(l chatLine) string {
	if l.Kind != "send" {
		return "not a plain message but: " + l.Kind
	}
	got := string(l.Text)
	if e.a.err != "" {
		if want := "syntax error " + e.a.err; got != want {
			return firstDiff(got, want)
		}
		return ""
	}
	want := e.a.braces
	if want != "" {
		want += "\n"
	}
	if e.a.failed {
		if !strings.HasPrefix(got, want) || !strings.Contains(got[len(want):], e.a.log) {
			return fmt.Sprintf("the interpreter fails with %q, the reply is %q", e.a.log, got)
		}
		return ""
	}
	return firstDiffOrNone(got, want+e.a.log)
}

func firstDiffOrNone(got, want string) string {
	if got == want {
		return ""
	}
	return firstDiff(got, want)
}

// An event with the reply it calls for, if any.
type botEvent struct {
	line chatLine
	want *expectation
}

func randEvent(o *lockedObs, r *rand.Rand) botEvent {
	nick := []string{"mi", "Ilmen", "ToaqBridgeBot2", "toaqbridgebot", ""}[r.Intn(5)]
	switch k := r.Intn(20); {
	case k < 9, k < 13: // a command, directly or relayed
		text, a := pickText(r)
		if strings.HasPrefix(text, longPrefix) {
			o.count("long texts", 1)
		}
		if strings.TrimSpace(text) != text {
			text = strings.TrimSpace(text)
			var big bool
			if a, big = analyze(text); big {
				text, a = "mai?", analysis{}
				a, _ = analyze(text)
			}
		}
		if r.Intn(6) == 0 {
			// The prefix, or what else the bot looks for, in the text itself.
			o.count("commands with a prefix or name inside", 1)
			ws := strings.SplitAfter(text, " ")
			i := r.Intn(len(ws) + 1)
			mark := []string{".miu ", ".miu? ", " .miu", "miu? ", ": ", ":", ". ", "ToaqBridgeBot: ", "Ilmen: "}[r.Intn(9)]
			text = strings.TrimSpace(strings.Join(ws[:i], "") + mark + strings.Join(ws[i:], ""))
			var big bool
			if a, big = analyze(text); big {
				text = ".miu? mai?"
				a, _ = analyze(text)
			}
		}
		pre := []string{".miu ", ".miu ", ".miu", ".miu\n", ".miu \t ", ".miu   "}[r.Intn(6)]
		post := []string{"", "", " ", "\n", " \n\t"}[r.Intn(5)]
		msg := pre + text + post
		e := botEvent{line: chatLine{Kind: "message", Text: []byte(msg), From: r.Intn(10) != 0, Nick: nick}, want: &expectation{msg, a}}
		if k >= 9 {
			e.line.From, e.line.Nick = true, "ToaqBridgeBot"
			switch r.Intn(6) {
			case 0:
				// Not relayed for anyone: as it is.
				if !strings.Contains(msg, ": ") {
					break
				}
				fallthrough
			case 1:
				e.line.Text = []byte(": " + msg)
			default:
				e.line.Text = []byte([]string{"**Ilmen**", "uakci", "a:b", ".miu", "Toaq Telegram mai"}[r.Intn(5)] + ": " + msg)
			}
			o.count("relayed commands", 1)
		}
		if r.Intn(8) == 0 {
			e.line.Reply = []byte(".miu mai? suq/")
		}
		return e
	case k < 17: // not a command
		o.count("no reply needed", 1)
		text := []string{"mai? ji/", "", " .miu mai?", "miu mai?", ".mi", ".MIU mai?", ".mıu mai?", "x .miu mai?", "hello .miu", ".", "\n.miu mai?", "Ilmen: .miu mai?", ".\u200bmiu mai?", "！miu mai?", "\xff.miu"}[r.Intn(15)]
		e := botEvent{line: chatLine{Kind: "message", Text: []byte(text), From: r.Intn(10) != 0, Nick: nick}}
		if r.Intn(4) == 0 {
			// Relayed, and not a command.
			e.line.From, e.line.Nick = true, "ToaqBridgeBot"
			e.line.Text = []byte([]string{"Ilmen: hello .miu", "Ilmen: x: .miu mai?", "Ilmen:.miu mai?", ": ", "Ilmen: ", "Ilmen:  .miu gi?", "(Ilmen) .miu: mai"}[r.Intn(7)])
		}
		if r.Intn(8) == 0 {
			e.line.Reply = []byte(".miu mai? suq/")
		}
		return e
	default:
		o.count("other events", 1)
		kind := []string{"edit", "delete", "joined", "left", "rename"}[r.Intn(5)]
		return botEvent{line: chatLine{Kind: kind, Text: []byte(".miu mai? ji/"), From: true, Nick: nick}}
	}
}

// botRound plays scripts on some channels and waits for their replies.
func botRound(o *lockedObs, r *rand.Rand, p *process, chans []*botChannel, n, round int) (string, string) {
	type bad struct{ c, what string }
	bads := make([]bad, len(chans))
	var wg sync.WaitGroup
	for i, c := range chans {
		var script []botEvent
		for k := 0; k < n; k++ {
			if k > 0 && r.Intn(6) == 0 {
				// The same again, from the last message or an earlier one.
				e := script[k-1]
				if r.Intn(3) == 0 {
					e = script[r.Intn(k)]
				}
				if e.want != nil {
					o.count("commands repeated", 1)
				}
				script = append(script, e)
				continue
			}
			script = append(script, randEvent(o, r))
		}
		// The last one tells the end.
		text := fmt.Sprintf("mai? bo%s da", strings.Repeat("ba", round%4+1))
		a, _ := analyze(text)
		script = append(script, botEvent{line: chatLine{Kind: "message", Text: []byte(".miu " + text), From: true, Nick: "end"}, want: &expectation{".miu " + text, a}})
		wg.Add(1)
		cr := rand.New(rand.NewSource(r.Int63()))
		go func(i int, c *botChannel) {
			defer wg.Done()
			var want []expectation
			for _, e := range script {
				if e.want != nil {
					want = append(want, *e.want)
				}
			}
			c.mu.Lock()
			c.got = nil
			c.mu.Unlock()
			go func() {
				for _, e := range script {
					if c.send(e.line) != nil {
						return
					}
					if cr.Intn(3) == 0 {
						time.Sleep(time.Duration(cr.Intn(3)) * time.Millisecond)
					}
				}
			}()
			deadline := time.Now().Add(120 * time.Second)
			for len(c.replies()) < len(want) && time.Now().Before(deadline) && p.alive() {
				time.Sleep(2 * time.Millisecond)
			}
			time.Sleep(20 * time.Millisecond)
			got := c.replies()
			for k := 0; k < len(want) || k < len(got); k++ {
				if k >= len(want) {
					bads[i] = bad{string(want[len(want)-1].msg), fmt.Sprintf("channel %s: a message too many was sent: %q", c.name, head(string(got[k].Text), 500))}
					return
				}
				if k >= len(got) {
					bads[i] = bad{want[k].msg, fmt.Sprintf("channel %s: %d replies instead of %d; no reply to %q", c.name, len(got), len(want), want[k].msg)}
					return
				}
				if what := want[k].judge(got[k]); what != "" {
					bads[i] = bad{want[k].msg, fmt.Sprintf("channel %s: reply %d to %q: %s", c.name, k, want[k].msg, what)}
					return
				}
				o.count("replies", 1)
				o.nontrivial(want[k].msg)
				switch a := want[k].a; {
				case a.err != "":
					o.count("syntax errors replied", 1)
				case a.failed:
					o.count("interpreter failures replied", 1)
				case a.fragment:
					o.count("fragments replied", 1)
				default:
					o.count("formulas replied", 1)
				}
			}
		}(i, c)
	}
	wg.Wait()
	for _, b := range bads {
		if b.what != "" {
			return b.c, b.what
		}
	}
	return "", ""
}

func botWorkload(ob *obs, r *rand.Rand, thorough bool) (string, string) {
	o := &lockedObs{o: ob}
	rounds := 40
	if thorough {
		rounds = 700
	}
	if *flagCases > 0 {
		rounds = *flagCases
	}
	sock := filepath.Join(*flagDir, "chat.sock")
	l, err := net.Listen("unix", sock)
	if err != nil {
		fatalf("no Unix socket: %v", err)
	}
	defer l.Close()
	names := []string{"alpha", "beta", "gamma", "delta", "epsilon", "zeta"}
	p, err := startProcess(*flagDir, []string{"FAKECHAT_SOCKET=" + sock, "DISCORD_TOKEN=token", "DISCORD_SERVER=the server", "DISCORD_CHANS=" + strings.Join(names, ",")},
		filepath.Join(*flagBin, "bot"))
	if err != nil {
		fatalf("cannot start the bot: %v", err)
	}
	defer p.kill()
	report := func(c, what string) (string, string) {
		time.Sleep(200 * time.Millisecond)
		log := p.out.String()
		if !p.alive() {
			what += fmt.Sprintf("; the bot exited (%v)", p.err)
		}
		if i := strings.Index(log, "WARNING: DATA RACE"); i >= 0 {
			log = log[i:]
		} else {
			log = tail(p.std.String(), 1500) + "\n" + tail(log, 3000)
		}
		return c, what + "\nbot log: " + head(log, 5000)
	}
	byName := map[string]*botChannel{}
	for range names {
		l.(*net.UnixListener).SetDeadline(time.Now().Add(30 * time.Second))
		conn, err := l.Accept()
		if err != nil {
			return report("", fmt.Sprintf("the bot joined only %d of its channels", len(byName)))
		}
		defer conn.Close()
		rd := bufio.NewReader(conn)
		b, _ := rd.ReadBytes('\n')
		var ln chatLine
		json.Unmarshal(b, &ln)
		name, ok := strings.CutPrefix(string(ln.Text), "the server/")
		if ln.Kind != "join" || !ok || byName[name] != nil {
			return report("", fmt.Sprintf("the bot joined %q", ln.Text))
		}
		c := &botChannel{name: name, conn: conn, held: make(chan string, 8)}
		byName[name] = c
		go c.read(rd)
	}
	var chans []*botChannel
	for _, n := range names {
		if byName[n] == nil {
			return report("", "the bot did not join "+n)
		}
		chans = append(chans, byName[n])
	}
	for round := 0; round < rounds; round++ {
		run := chans
		// Block the sending of replies on some channels, each with a command to reply to.
		var held []*botChannel
		if round%3 == 1 {
			held, run = chans[round%len(chans):][:1], nil
			for _, c := range chans {
				if c != held[0] {
					run = append(run, c)
				}
			}
			held[0].send(chatLine{Kind: "hold"})
			<-held[0].held
			held[0].send(chatLine{Kind: "message", Text: []byte(".miu mai? ji/ da"), From: true, Nick: "held"})
			o.count("channels held while others run", 1)
		}
		if c, what := botRound(o, r, p, run, 4+r.Intn(12), round); what != "" {
			return report(c, what)
		}
		if held != nil {
			for i := 0; i < 30000 && len(held[0].replies()) == 0 && p.alive(); i++ {
				time.Sleep(2 * time.Millisecond)
			}
			held[0].send(chatLine{Kind: "release"})
			select {
			case <-held[0].held:
			case <-time.After(30 * time.Second):
			}
			if c, what := botRound(o, r, p, held, 2, round); what != "" {
				return report(c, what)
			}
		}
		if !p.alive() || strings.Contains(p.out.String(), "DATA RACE") {
			return report("", "a data race or exit of the bot")
		}
		slotKeepAlive()
	}
	return "", ""
}
