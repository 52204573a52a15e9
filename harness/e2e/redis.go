// Package e2e runs the real recorder process against a redis, peers and a
// LiveKit server of its own, and monitors what it does.
package e2e

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Pub is a message which was published by the recorder
type Pub struct {
	N       int
	At      time.Time
	Channel string
	Data    []byte
	Ev      map[string]interface{}
	// How many subscribers got it
	Receivers int
}

func (p Pub) Str(k string) string { s, _ := p.Ev[k].(string); return s }
func (p Pub) ID() string          { return p.Str("id") }
func (p Pub) Session() string     { return p.Str("recordingSessionId") }

// Redis is a redis server as far as publishing and subscribing go
type Redis struct {
	Addr     string
	ln       net.Listener
	m        sync.Mutex
	cond     *sync.Cond
	password string
	conns    map[*redisConn]bool
	refuse   bool
	log      []Pub
	dead     bool
	// Called for each publication, in order, before it is confirmed
	hooks []func(Pub)
	// How long a publication takes to be processed
	delay func(channel string, data []byte) time.Duration
	// How much of what is left of a message is written at once
	chop func(n int) int
	// What is not delivered
	drop func(channel string, data []byte) bool
	// Observations
	Accepted, AuthFailures, Refused int
	NoAuth                          int // commands without having authenticated
	subTimes                        map[string][]time.Time
}

type redisConn struct {
	c      net.Conn
	w      sync.Mutex
	subs   map[string]bool
	authed bool
	silent bool
}

func NewRedis(password string) (*Redis, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	r := &Redis{Addr: ln.Addr().String(), ln: ln, password: password, conns: map[*redisConn]bool{}, subTimes: map[string][]time.Time{}}
	r.cond = sync.NewCond(&r.m)
	go r.accept()
	return r, nil
}

func (r *Redis) accept() {
	for {
		c, err := r.ln.Accept()
		if err != nil {
			return
		}
		r.m.Lock()
		if r.refuse {
			r.Refused++
			r.m.Unlock()
			c.Close()
			continue
		}
		r.Accepted++
		rc := &redisConn{c: c, subs: map[string]bool{}, authed: r.password == ""}
		r.conns[rc] = true
		r.m.Unlock()
		go r.serve(rc)
	}
}

func (r *Redis) Close() {
	r.m.Lock()
	r.dead = true
	r.cond.Broadcast()
	r.m.Unlock()
	r.ln.Close()
	r.Kill(true)
}

// Kill closes the connections: all, or only those of subscribers
func (r *Redis) Kill(all bool) int {
	r.m.Lock()
	defer r.m.Unlock()
	n := 0
	for c := range r.conns {
		if all || len(c.subs) > 0 {
			c.c.Close()
			delete(r.conns, c)
			n++
		}
	}
	return n
}

// Silence makes the connections of subscribers neither answer nor deliver
// anything any more, without closing them
func (r *Redis) Silence() {
	r.m.Lock()
	defer r.m.Unlock()
	for c := range r.conns {
		if len(c.subs) > 0 {
			c.silent = true
			c.subs = map[string]bool{}
		}
	}
}

// Refuse makes connections fail until it is called with false
func (r *Redis) Refuse(v bool) { r.m.Lock(); r.refuse = v; r.m.Unlock() }

func (r *Redis) SetDelay(f func(channel string, data []byte) time.Duration) {
	r.m.Lock()
	r.delay = f
	r.m.Unlock()
}

// Chop makes messages be written in pieces
func (r *Redis) Chop(f func(n int) int) { r.m.Lock(); r.chop = f; r.m.Unlock() }

// Drop makes publications not reach their subscribers
func (r *Redis) Drop(f func(channel string, data []byte) bool) { r.m.Lock(); r.drop = f; r.m.Unlock() }

// SetPassword changes the password. Connections remain authenticated.
func (r *Redis) SetPassword(s string) { r.m.Lock(); r.password = s; r.m.Unlock() }

// Channels lists all that were ever subscribed to
func (r *Redis) Channels() []string {
	r.m.Lock()
	defer r.m.Unlock()
	var l []string
	for ch := range r.subTimes {
		l = append(l, ch)
	}
	return l
}

// WaitSubscribed waits until the channel was subscribed to n times
func (r *Redis) WaitSubscribed(channel string, n int, timeout time.Duration) bool {
	deadline := time.Now().Add(timeout)
	t := time.AfterFunc(timeout, func() { r.m.Lock(); r.cond.Broadcast(); r.m.Unlock() })
	defer t.Stop()
	r.m.Lock()
	defer r.m.Unlock()
	for len(r.subTimes[channel]) < n {
		if r.dead || !time.Now().Before(deadline) {
			return false
		}
		r.cond.Wait()
	}
	return true
}

func (r *Redis) Hook(f func(Pub)) { r.m.Lock(); r.hooks = append(r.hooks, f); r.m.Unlock() }

func (r *Redis) serve(rc *redisConn) {
	defer func() {
		r.m.Lock()
		delete(r.conns, rc)
		r.m.Unlock()
		rc.c.Close()
	}()
	br := bufio.NewReader(rc.c)
	for {
		args, err := readCommand(br)
		if err != nil {
			return
		}
		if len(args) == 0 {
			continue
		}
		cmd := strings.ToUpper(args[0])
		r.m.Lock()
		if rc.silent {
			r.m.Unlock()
			continue
		}
		authed, password := rc.authed, r.password
		if !authed && cmd != "AUTH" {
			r.NoAuth++
		}
		r.m.Unlock()
		if !authed && cmd != "AUTH" {
			rc.write("-NOAUTH Authentication required.\r\n")
			continue
		}
		switch cmd {
		case "AUTH":
			switch {
			case password == "":
				rc.write("-ERR Client sent AUTH, but no password is set\r\n")
			case args[len(args)-1] == password:
				r.m.Lock()
				rc.authed = true
				r.m.Unlock()
				rc.write("+OK\r\n")
			default:
				r.m.Lock()
				r.AuthFailures++
				r.m.Unlock()
				rc.write("-WRONGPASS invalid username-password pair\r\n")
			}
		case "PING":
			r.m.Lock()
			n := len(rc.subs)
			r.m.Unlock()
			if n > 0 {
				rc.write("*2\r\n$4\r\npong\r\n$0\r\n\r\n")
			} else {
				rc.write("+PONG\r\n")
			}
		case "SUBSCRIBE":
			for _, ch := range args[1:] {
				r.m.Lock()
				rc.subs[ch] = true
				n := len(rc.subs)
				r.subTimes[ch] = append(r.subTimes[ch], time.Now())
				rc.write(fmt.Sprintf("*3\r\n$9\r\nsubscribe\r\n$%d\r\n%s\r\n:%d\r\n", len(ch), ch, n))
				r.cond.Broadcast()
				r.m.Unlock()
			}
		case "UNSUBSCRIBE":
			r.m.Lock()
			for ch := range rc.subs {
				delete(rc.subs, ch)
				rc.write(fmt.Sprintf("*3\r\n$11\r\nunsubscribe\r\n$%d\r\n%s\r\n:%d\r\n", len(ch), ch, len(rc.subs)))
			}
			r.m.Unlock()
		case "PUBLISH":
			if len(args) != 3 {
				rc.write("-ERR wrong number of arguments for 'publish' command\r\n")
				continue
			}
			r.m.Lock()
			d := r.delay
			r.m.Unlock()
			if d != nil {
				if t := d(args[1], []byte(args[2])); t > 0 {
					time.Sleep(t)
				}
			}
			n := r.publish(args[1], []byte(args[2]), true)
			rc.write(fmt.Sprintf(":%d\r\n", n))
		case "QUIT":
			rc.write("+OK\r\n")
			return
		default:
			rc.write("-ERR unknown command '" + args[0] + "'\r\n")
		}
	}
}

func (rc *redisConn) write(s string) {
	rc.w.Lock()
	defer rc.w.Unlock()
	rc.c.SetWriteDeadline(time.Now().Add(20 * time.Second))
	io.WriteString(rc.c, s)
}

func readCommand(br *bufio.Reader) ([]string, error) {
	l, err := br.ReadString('\n')
	if err != nil {
		return nil, err
	}
	l = strings.TrimRight(l, "\r\n")
	if !strings.HasPrefix(l, "*") {
		return strings.Fields(l), nil
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil {
		return nil, err
	}
	var args []string
	for i := 0; i < n; i++ {
		l, err := br.ReadString('\n')
		if err != nil {
			return nil, err
		}
		k, err := strconv.Atoi(strings.TrimRight(l[1:], "\r\n"))
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(br, b); err != nil {
			return nil, err
		}
		args = append(args, string(b[:k]))
	}
	return args, nil
}

// publish delivers to the subscribers in the order of the log
func (r *Redis) publish(channel string, data []byte, logged bool) int {
	r.m.Lock()
	defer r.m.Unlock()
	n := 0
	msg := fmt.Sprintf("*3\r\n$7\r\nmessage\r\n$%d\r\n%s\r\n$%d\r\n%s\r\n", len(channel), channel, len(data), data)
	for c := range r.conns {
		if c.subs[channel] && (r.drop == nil || !r.drop(channel, data)) {
			for rest := msg; len(rest) > 0; {
				k := len(rest)
				if r.chop != nil {
					k = r.chop(k)
				}
				c.write(rest[:k])
				rest = rest[k:]
			}
			n++
		}
	}
	if logged {
		p := Pub{N: len(r.log), At: time.Now(), Channel: channel, Data: data, Receivers: n}
		json.Unmarshal(data, &p.Ev)
		for _, h := range r.hooks {
			h(p)
		}
		r.log = append(r.log, p)
		r.cond.Broadcast()
	}
	return n
}

// Inject publishes a message as a client of the recorder does. It returns how
// many subscribers got it.
func (r *Redis) Inject(channel string, data []byte) int {
	return r.publish(channel, data, false)
}

func (r *Redis) Subscribers(channel string) int {
	r.m.Lock()
	defer r.m.Unlock()
	n := 0
	for c := range r.conns {
		if c.subs[channel] {
			n++
		}
	}
	return n
}

// Subscriptions tells when the channel was subscribed to
func (r *Redis) Subscriptions(channel string) []time.Time {
	r.m.Lock()
	defer r.m.Unlock()
	return append([]time.Time(nil), r.subTimes[channel]...)
}

func (r *Redis) Log() []Pub {
	r.m.Lock()
	defer r.m.Unlock()
	return append([]Pub(nil), r.log...)
}

func (r *Redis) Len() int { r.m.Lock(); defer r.m.Unlock(); return len(r.log) }

// Wait waits for a publication from the from-th on
func (r *Redis) Wait(from int, timeout time.Duration, match func(Pub) bool) (Pub, bool) {
	deadline := time.Now().Add(timeout)
	t := time.AfterFunc(timeout, func() { r.m.Lock(); r.cond.Broadcast(); r.m.Unlock() })
	defer t.Stop()
	r.m.Lock()
	defer r.m.Unlock()
	i := from
	for {
		for ; i < len(r.log); i++ {
			if match(r.log[i]) {
				return r.log[i], true
			}
		}
		if r.dead || !time.Now().Before(deadline) {
			return Pub{}, false
		}
		r.cond.Wait()
	}
}
