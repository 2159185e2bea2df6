// Package discord is a stand-in for the Discord client.
// Its channels play the events that the monitor sends over a Unix socket,
// and report every message sent to the monitor.
package discord

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"

	"github.com/velour/chat"
)

// A Client is a handle to the stand-in.
type Client struct{ path string }

// Dial connects to the monitor.
func Dial(ctx context.Context, token string) (*Client, error) {
	if token != "token" {
		return nil, errors.New("bad token")
	}
	return &Client{path: os.Getenv("FAKECHAT_SOCKET")}, nil
}

// Close does nothing.
func (cl *Client) Close(ctx context.Context) error { return nil }

// RewriteName does nothing.
func (cl *Client) RewriteName(from, to string) {}

// Join joins a scripted channel.
func (cl *Client) Join(ctx context.Context, guildName, chName string) (chat.Channel, error) {
	conn, err := net.Dial("unix", cl.path)
	if err != nil {
		return nil, err
	}
	ch := &Channel{guild: guildName, name: chName, conn: conn, events: make(chan chat.Event, 1000)}
	ch.cond = sync.NewCond(&ch.mu)
	ch.report(line{Kind: "join", Text: []byte(guildName + "/" + chName)})
	go ch.read()
	return ch, nil
}

// A Channel is a scripted channel.
type Channel struct {
	guild, name string
	conn        net.Conn
	events      chan chat.Event

	mu   sync.Mutex
	cond *sync.Cond
	held bool
	n    int
}

type line struct {
	Kind  string
	Text  []byte
	From  bool
	Nick  string
	Reply []byte
}

func (ch *Channel) report(l line) {
	b, _ := json.Marshal(l)
	ch.conn.Write(append(b, '\n'))
}

func (ch *Channel) read() {
	rd := bufio.NewReader(ch.conn)
	for i := 0; ; i++ {
		b, err := rd.ReadBytes('\n')
		if err != nil {
			return
		}
		var l line
		if err := json.Unmarshal(b, &l); err != nil {
			panic(err)
		}
		u := chat.User{ID: chat.UserID("id-" + l.Nick), Nick: l.Nick, FullName: l.Nick, DisplayName: l.Nick, Channel: ch}
		m := chat.Message{ID: chat.MessageID(fmt.Sprint(i)), Text: string(l.Text)}
		if l.From {
			m.From = &u
		}
		if l.Reply != nil {
			m.ReplyTo = &chat.Message{ID: "0", Text: string(l.Reply), From: &u}
		}
		switch l.Kind {
		case "message":
			ch.events <- m
		case "edit":
			m.From = &u
			ch.events <- chat.Edit{OrigID: "0", New: m}
		case "delete":
			ch.events <- chat.Delete{ID: "0", Channel: ch}
		case "joined":
			ch.events <- chat.Join{Who: u}
		case "left":
			ch.events <- chat.Leave{Who: u}
		case "rename":
			ch.events <- chat.Rename{From: u, To: u}
		case "hold", "release":
			ch.mu.Lock()
			ch.held = l.Kind == "hold"
			ch.cond.Broadcast()
			ch.mu.Unlock()
			ch.report(line{Kind: l.Kind})
		}
	}
}

func (ch *Channel) Name() string        { return ch.name }
func (ch *Channel) ServiceName() string { return "Discord " + ch.guild + " " + ch.name }

func (ch *Channel) Receive(ctx context.Context) (chat.Event, error) {
	select {
	case <-ctx.Done():
		return nil, ctx.Err()
	case ev, ok := <-ch.events:
		if !ok {
			return nil, io.EOF
		}
		return ev, nil
	}
}

func (ch *Channel) Send(ctx context.Context, m chat.Message) (chat.Message, error) {
	ch.mu.Lock()
	defer ch.mu.Unlock()
	l := line{Kind: "send", Text: []byte(m.Text)}
	if m.From != nil {
		l.Kind = "send on behalf of " + m.From.Nick
	}
	ch.report(l)
	for ch.held {
		ch.cond.Wait()
	}
	ch.n++
	m.ID = chat.MessageID(fmt.Sprintf("sent-%d", ch.n))
	return m, nil
}

func (ch *Channel) Delete(ctx context.Context, m chat.Message) error {
	ch.mu.Lock()
	defer ch.mu.Unlock()
	ch.report(line{Kind: "deleted"})
	return nil
}

func (ch *Channel) Edit(ctx context.Context, m chat.Message) (chat.Message, error) {
	ch.mu.Lock()
	defer ch.mu.Unlock()
	ch.report(line{Kind: "edited", Text: []byte(m.Text)})
	return m, nil
}
