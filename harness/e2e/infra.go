package e2e

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// RedisSuite checks the delivery of messages, and what happens when the
// connection to redis is lost
func RedisSuite(p Params) {
	type kind struct {
		name, password, sub, pub string
		http                     bool
	}
	var wg sync.WaitGroup
	for k, kd := range []kind{{"plain", "", "", "", false}, {"password", "s3cr3t \"x\"", "control ü", "events/1", false}, {"http", "pw", "a.b*", "c[d]?", true}} {
		if p.Prop == "C05" && k == 2 {
			continue
		}
		wg.Add(1)
		go func(k int, kd kind) {
			defer wg.Done()
			c := Conf{PktTimeout: 60000, Sub: kd.sub, Pub: kd.pub}
			if kd.http {
				c.HTTPPort = FreePort()
			}
			e := p.env(EnvOpts{Name: "redis-" + kd.name, Conf: c, Password: kd.password})
			if e == nil {
				return
			}
			defer e.Close()
			redisEnv(p, e, k, kd.http)
		}(k, kd)
	}
	if p.Prop == "C27" {
		wg.Add(3)
		go func() { defer wg.Done(); redisIdle(p) }()
		go func() { defer wg.Done(); redisOutage(p) }()
		go func() { defer wg.Done(); redisSilent(p) }()
	}
	wg.Wait()
}

// redisIdle leaves the recorder alone for longer than any timeout of its
// connection: it stays subscribed
func redisIdle(p Params) {
	e := p.env(EnvOpts{Name: "redis-idle"})
	if e == nil {
		return
	}
	defer e.Close()
	if !e.Status() {
		return
	}
	idle := 75 * time.Second
	if p.Thorough {
		idle = 200 * time.Second
	}
	select {
	case <-time.After(idle):
	case <-e.Proc.done:
	}
	if n := len(e.Redis.Subscriptions(e.Conf.Sub)); n != 1 && !e.Dead() {
		e.Rep("C27", "the connection to redis was fine, but nothing was sent for %v: the recorder subscribed %d times", idle, n)
	}
	if e.Status() {
		p.R.Count("idle_seconds", int64(idle/time.Second))
		p.R.Case("idle connection", map[string]interface{}{"idle": idle.String()})
	}
}

// redisOutage keeps redis away for long
func redisOutage(p Params) {
	e := p.env(EnvOpts{Name: "redis-outage"})
	if e == nil {
		return
	}
	defer e.Close()
	rng := p.rng(78)
	if !e.Status() {
		return
	}
	outage := 40 * time.Second
	if p.Thorough {
		outage = 10 * time.Minute
	}
	session := func(id string, d time.Duration) *Session {
		return e.RunSession(rng, SessionPlan{ID: id, File: id + ".webm", Form: "options", End: "stop", Tag: "C27", Media: NewPlan(rng, PlanOpts{Dur: d, Order: "v", Loss: "none", Tag: uint32(len(id))})})
	}
	// It begins before and ends after
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		if s := session("throughout", outage+5*time.Second); s.OK {
			p.R.Case("session throughout a long outage", nil)
		}
	}()
	time.Sleep(3 * time.Second)
	e.Mon.expectStatus()
	e.Redis.Refuse(true)
	e.Redis.Kill(true)
	p.R.Count("connection_losses_long", 1)
	select {
	case <-time.After(outage):
	case <-e.Proc.done:
	}
	e.Redis.Refuse(false)
	if !e.Redis.WaitSubscribed(e.Conf.Sub, 2, Patience) {
		if e.Dead() {
			e.Hang("C27", "redis was away for long")
		} else {
			e.Rep("C27", "redis was away for %v, and the recorder did not subscribe again", outage)
		}
		return
	}
	if e.Status() {
		session("after", time.Second)
		p.R.Case("long outage", map[string]interface{}{"outage": outage.String()})
	}
	wg.Wait()
}

// redisSilent loses the connection without telling the recorder
func redisSilent(p Params) {
	e := p.env(EnvOpts{Name: "redis-silent"})
	if e == nil {
		return
	}
	defer e.Close()
	rng := p.rng(77)
	if !e.Status() {
		return
	}
	p.R.Count("connection_losses_silent", 1)
	t := time.Now()
	e.Mon.expectStatus()
	e.Redis.Silence()
	// A recording does not mind (its end is published on another connection)
	if !e.Redis.WaitSubscribed(e.Conf.Sub, 2, 150*time.Second) {
		if e.Dead() {
			e.Hang("C27", "the connection to redis fell silent")
		} else {
			e.Rep("C27", "the connection to redis fell silent, and the recorder did not subscribe again within %v", time.Since(t).Round(time.Second))
		}
		return
	}
	p.R.Max("max_ms_to_notice_silence", time.Since(t).Milliseconds())
	if !e.Status() {
		return
	}
	s := e.RunSession(rng, SessionPlan{ID: "after", File: "after.webm", Form: "options", End: "stop", Tag: "C27", Media: NewPlan(rng, PlanOpts{Dur: 2 * time.Second, Order: "v", Loss: "none", Tag: 5})})
	if s.OK {
		p.R.Case("silent connection", map[string]interface{}{"noticed_after_ms": time.Since(t).Milliseconds()})
	}
}

func redisEnv(p Params, e *Env, k int, web bool) {
	rng := p.rng(int64(k + 1))
	chop := rand.New(rand.NewSource(p.Seed + int64(k)))
	e.Redis.Chop(func(n int) int {
		if chop.Intn(3) > 0 {
			return n
		}
		return 1 + chop.Intn(n)
	})
	if k < 2 {
		// Each connection is served on its own
		e.Redis.SetDelay(slowRedis(p.Seed + int64(k)))
	}
	spare, err := NewPeer(PeerOpts{Audio: true})
	if err != nil {
		p.R.Unsure("no peer: %v", err)
		return
	}
	defer spare.Close()
	// Connections are closed after use, and when they are lost
	sockets := func(most int, patience time.Duration) (n int) {
		for t := time.Now(); ; time.Sleep(20 * time.Millisecond) {
			k := 0
			for _, f := range e.Proc.FDs() {
				if strings.HasPrefix(f, "socket:") {
					k++
				}
			}
			if n == 0 || k < n {
				n = k
			}
			if n <= most || time.Since(t) > patience {
				return n
			}
		}
	}
	open := sockets(0, 500*time.Millisecond)
	var statuses atomic.Int64
	burst := func(tag string) bool {
		// Sent in one go: everything is answered, in this order
		var ss []*Start
		var last chan Pub
		n := 30 + rng.Intn(120)
		e.sendM.Lock()
		for i := 0; i < n; i++ {
			switch rng.Intn(5) {
			case 0, 1, 2:
				last = e.Mon.expectStatusCh()
				statuses.Add(1)
				e.Inject(map[string]interface{}{"id": "getRecorderStatus"})
			case 3:
				s := &Start{ID: fmt.Sprintf("b-%s-%d", tag, i), WantFail: true, Why: "no offer", resp: make(chan Pub, 1), At: time.Now()}
				e.Mon.m.Lock()
				e.Mon.fifo = append(e.Mon.fifo, &expectation{kind: "response", id: s.ID, req: s})
				e.Mon.m.Unlock()
				e.Inject(map[string]interface{}{"id": "startRecording", "recordingSessionId": s.ID, "fileName": "x.webm"})
				ss = append(ss, s)
			case 4:
				s := &Start{ID: fmt.Sprintf("b-%s-%d", tag, i), WantOK: true, Tracks: 1, Why: "valid request", Tag: "C27", resp: make(chan Pub, 1), At: time.Now()}
				e.Mon.m.Lock()
				e.Mon.fifo = append(e.Mon.fifo, &expectation{kind: "response", id: s.ID, req: s})
				e.Mon.m.Unlock()
				e.Inject((&SessionPlan{ID: s.ID, File: s.ID + ".webm", Form: "legacy"}).Message(nil, spare.Offer))
				e.Stop(s.ID)
				ss = append(ss, s)
			}
			// Not for the recorder
			if rng.Intn(6) == 0 {
				for _, ch := range []string{"other", e.Conf.Sub + "2", strings.TrimSuffix(e.Conf.Sub, e.Conf.Sub[len(e.Conf.Sub)-1:]), strings.ToUpper(e.Conf.Sub)} {
					if ch != e.Conf.Sub {
						if n := e.Redis.Inject(ch, []byte(`{"id":"getRecorderStatus"}`)); n > 0 {
							e.Rep("C27", "the recorder is subscribed to %q", ch)
						}
						p.R.Count("messages_on_other_channels", 1)
					}
				}
				if web {
					// It listens to its own publications, but they are no requests
					e.Redis.Inject(e.Conf.Pub, []byte(`{"id":"getRecorderStatus"}`))
				}
			}
		}
		e.sendM.Unlock()
		p.R.Count("messages_in_bursts", int64(n))
		for _, s := range ss {
			if _, ok := e.Response(s); !ok {
				return false
			}
			if s.Rec != nil && !e.Stopped(s.Rec, Patience, "stop in a burst") {
				return false
			}
		}
		if last != nil {
			select {
			case <-last:
			case <-time.After(Patience):
				e.Hang("C05,C27", "no status")
				return false
			case <-e.Proc.done:
				return false
			}
		}
		return true
	}
	losses := 0
	for round := 0; round < p.N && !e.Dead(); round++ {
		// Recordings go on meanwhile
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func(i int, r *rand.Rand) {
				defer wg.Done()
				id := fmt.Sprintf("kept-%d", i)
				sp := SessionPlan{ID: id, File: fmt.Sprintf("%s-%d.webm", id, round), Form: "options", End: "stop", Tag: "C27",
					Media: NewPlan(r, PlanOpts{Dur: 8 * time.Second, Order: pick(r, "v", "a"), Loss: "none", Tag: uint32(round*10 + i + 1)})}
				s := e.RunSession(r, sp)
				if s.OK {
					p.R.Case(fmt.Sprint("kept session ", k, round, i), nil)
				}
			}(i, rand.New(rand.NewSource(rng.Int63())))
		}
		for t := time.Now(); time.Since(t) < 1700*time.Millisecond; {
			if !burst(fmt.Sprintf("%d-%d", round, time.Since(t).Milliseconds())) {
				break
			}
			p.R.Case(fmt.Sprintf("burst %d %d", k, rng.Int63()), nil)
		}
		if e.Dead() {
			return
		}
		// The status events of these sessions were published by now
		time.Sleep(900 * time.Millisecond)
		if !e.Status() {
			return
		}
		statuses.Add(1)
		how := pick(rng, "kill", "kill", "subscriber", "refuse", "password", "twice")
		if how == "password" && e.Conf.RedisPassword == "" {
			how = "refuse"
		}
		before := len(e.Redis.Subscriptions(e.Conf.Sub))
		e.Mon.expectStatus()
		e.sendM.Lock()
		switch how {
		case "kill", "twice":
			e.Redis.Kill(true)
		case "subscriber":
			e.Redis.Kill(false)
		case "refuse":
			e.Redis.Refuse(true)
			e.Redis.Kill(true)
			time.Sleep(time.Duration(200+rng.Intn(2500)) * time.Millisecond)
			e.Redis.Refuse(false)
		case "password":
			e.Redis.SetPassword("changed")
			e.Redis.Kill(true)
			time.Sleep(time.Duration(200+rng.Intn(2500)) * time.Millisecond)
			e.Redis.SetPassword(e.Conf.RedisPassword)
		}
		losses++
		back := time.Now()
		ok := e.Redis.WaitSubscribed(e.Conf.Sub, before+1, Patience)
		e.sendM.Unlock()
		if !ok {
			if e.Dead() {
				e.Hang("C27", "the connection to redis was lost ("+how+")")
			} else {
				e.Rep("C27", "the recorder did not subscribe again within %v (%s)", time.Since(back).Round(time.Second), how)
			}
			return
		}
		p.R.Max("max_ms_to_reconnect", time.Since(back).Milliseconds())
		p.R.Count("connection_losses_"+how, 1)
		p.R.Case(fmt.Sprintf("loss %d %d %s", k, round, how), map[string]interface{}{"loss": how, "reconnected_after_ms": time.Since(back).Milliseconds(), "round": round})
		if !e.Status() {
			return
		}
		statuses.Add(1)
		if !burst(fmt.Sprintf("after-%d", round)) {
			return
		}
		if n := e.Redis.Subscribers(e.Conf.Sub); n != 1 {
			e.Rep("C27", "there are %d subscriptions to the control channel after reconnecting", n)
		}
		if how == "twice" {
			// While it is about to connect again
			n := len(e.Redis.Subscriptions(e.Conf.Sub))
			e.Mon.expectStatus()
			e.Redis.Kill(true)
			time.Sleep(time.Duration(rng.Intn(900)) * time.Millisecond)
			e.Redis.Kill(true)
			if !e.Redis.WaitSubscribed(e.Conf.Sub, n+1, Patience) {
				e.Rep("C27", "the recorder did not subscribe again (%s)", how)
				return
			}
			losses++
			if !e.Status() {
				return
			}
			statuses.Add(1)
		}
		wg.Wait()
		e.CheckGauge(fmt.Sprintf("after loss %d", losses))
	}
	if e.Dead() {
		return
	}
	e.Status()
	statuses.Add(1)
	// A status for each subscription, and each request
	time.Sleep(300 * time.Millisecond)
	subs := len(e.Redis.Subscriptions(e.Conf.Sub))
	p.R.Count("subscriptions", int64(subs))
	if want := int(statuses.Load()) + subs; e.Mon.Statuses() != want {
		e.Rep("C05,C27", "%d statuses were published for %d subscriptions and %d requests", e.Mon.Statuses(), subs, statuses.Load())
	}
	for _, ch := range e.Redis.Channels() {
		if ch != e.Conf.Sub && !(web && ch == e.Conf.Pub) {
			e.Rep("C27", "the recorder subscribed to %q", ch)
		}
	}
	if n := sockets(open, 15*time.Second); n > open && !e.Dead() {
		e.Rep("C27,C08", "%d sockets are open after %d losses of the connection, %d were before", n, losses, open)
	}
	if e.Redis.NoAuth > 0 {
		e.Rep("C27", "%d commands were sent without the password", e.Redis.NoAuth)
	}
}

// largeOffer adds candidates nobody can be reached at, as of a peer with many
// networks and relays
func largeOffer(rng *rand.Rand, offer string) string {
	d, err := DecodeSDP(offer)
	if err != nil {
		return offer
	}
	n := pick(rng, 100, 300, 600)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&sb, "a=candidate:%d 1 udp %d 127.0.0.1 %d typ host generation 0 network-id %d\r\n", 100000+i, 1000+i, 1+i, i)
	}
	at := strings.Index(d.SDP, "a=candidate:")
	if at < 0 {
		return offer
	}
	d.SDP = d.SDP[:at] + sb.String() + d.SDP[at:]
	return EncodeSDP(d)
}

// HTTPSuite checks the test page
func HTTPSuite(p Params) {
	work, err := os.MkdirTemp(p.Scratch, "media-")
	if err != nil {
		p.R.Unsure("%v", err)
		return
	}
	defer os.RemoveAll(work)
	dir := filepath.Join(work, "rec")
	os.MkdirAll(filepath.Join(dir, "sub"), 0755)
	os.MkdirAll(filepath.Join(work, "rec-secret"), 0755)
	const secret = "TOP-SECRET-CONTENTS"
	os.WriteFile(filepath.Join(work, "secret.txt"), []byte(secret), 0644)
	os.WriteFile(filepath.Join(work, "rec-secret", "secret.txt"), []byte(secret), 0644)
	public := bytes.Repeat([]byte("0123456789abcdef"), 5000)
	os.WriteFile(filepath.Join(dir, "public file.webm"), public, 0644)
	os.WriteFile(filepath.Join(dir, "sub", "x.webm"), []byte("sub"), 0644)
	c := Conf{PktTimeout: 60000, HTTPPort: FreePort(), Dir: dir}
	e := p.env(EnvOpts{Name: "http", Conf: c})
	if e == nil {
		return
	}
	defer e.Close()
	e.Mon.Unordered()
	base := fmt.Sprintf("http://127.0.0.1:%d", e.Conf.HTTPPort)
	cl := &http.Client{Timeout: 40 * time.Second}
	deadline := time.Now().Add(10 * time.Second)
	for {
		r, err := cl.Get(base + "/")
		if err == nil {
			b, _ := io.ReadAll(r.Body)
			r.Body.Close()
			if r.StatusCode != 200 || len(b) == 0 {
				e.Rep("C23", "the page has status %d, %d bytes", r.StatusCode, len(b))
			}
			break
		}
		if time.Now().After(deadline) || e.Dead() {
			e.Rep("C23", "the page cannot be reached: %v", err)
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	// The requests which the page makes
	type made struct {
		start *Start
		offer string
		times int
	}
	var mm sync.Mutex
	byOffer := map[string]*made{}
	ids := map[string]bool{}
	files := map[string]bool{}
	e.Redis.Hook(func(q Pub) {
		if q.Channel != e.Conf.Sub || q.ID() != "startRecording" {
			return
		}
		offer := q.Str("sdp")
		if ao, ok := q.Ev["adapterOptions"].(map[string]interface{}); ok {
			if ms, ok := ao["mediasoup"].(map[string]interface{}); ok {
				offer, _ = ms["sdp"].(string)
			}
		}
		id, file := q.Session(), q.Str("fileName")
		mm.Lock()
		defer mm.Unlock()
		if ids[id] || files[file] {
			e.Rep("C23", "two requests have the session id %q (file %q)", id, file)
		}
		ids[id], files[file] = true, true
		m := byOffer[offer]
		if m == nil {
			m = &made{offer: offer}
			byOffer[offer] = m
		}
		m.times++
		m.start = &Start{ID: id, File: file, Tracks: 2, Why: "request of the page", resp: make(chan Pub, 1), At: time.Now()}
		e.Mon.m.Lock()
		e.Mon.fifo = append(e.Mon.fifo, &expectation{kind: "response", id: id, req: m.start})
		e.Mon.m.Unlock()
	})
	post := func(ctx context.Context, body string) (int, string, error) {
		r, err := http.NewRequestWithContext(ctx, "POST", base+"/sdp", strings.NewReader(body))
		if err != nil {
			return 0, "", err
		}
		resp, err := cl.Do(r)
		if err != nil {
			return 0, "", err
		}
		defer resp.Body.Close()
		b, err := io.ReadAll(resp.Body)
		return resp.StatusCode, string(b), err
	}
	e.Redis.SetDelay(func(ch string, data []byte) time.Duration {
		if ch == e.Conf.Pub && bytes.Contains(data, []byte("startRecordingResponse")) {
			return time.Duration(time.Now().UnixNano()%40) * time.Millisecond
		}
		return 0
	})
	// Messages which the page has nothing to do with
	stop := make(chan struct{})
	var noise sync.WaitGroup
	noise.Add(1)
	go func() {
		defer noise.Done()
		rng := p.rng(5)
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(rng.Intn(8)) * time.Millisecond):
			}
			var b []byte
			switch rng.Intn(5) {
			case 0:
				b, _, _ = hostileMessage(rng, []string{"nobody"}, "x")
			case 1:
				b = []byte(fmt.Sprintf(`{"id":"startRecordingResponse","recordingSessionId":"other-%d","status":"ok","sdp":"d3Jvbmc=","fileName":"/x"}`, rng.Intn(100)))
			case 2:
				b = []byte(pick(rng, `{"id":"startRecordingResponse"}`, `{"id":"startRecordingResponse","recordingSessionId":null,"status":"ok"}`, `{"id":"startRecordingResponse","recordingSessionId":"","sdp":null}`, `{"id":"startRecordingResponse","recordingSessionId":"x","status":"failed"}`))
			default:
				// Again, or another answer to an offer which was answered
				log := e.Redis.Log()
				for i := 0; i < 5 && len(log) > 0; i++ {
					q := log[rng.Intn(len(log))]
					if q.ID() == "startRecordingResponse" {
						b = q.Data
						break
					}
				}
				if b == nil {
					continue
				}
			}
			e.Redis.Inject(e.Conf.Pub, b)
			p.R.Count("unrelated_messages", 1)
		}
	}()
	var unanswered atomic.Pointer[string]
	e.Redis.Drop(func(ch string, data []byte) bool {
		s := unanswered.Load()
		return ch == e.Conf.Sub && s != nil && bytes.Contains(data, []byte(*s))
	})
	for round := 0; round < p.N && !e.Dead(); round++ {
		var wg sync.WaitGroup
		for i := 0; i < 24; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				rng := p.rng(int64(round*1000 + i))
				time.Sleep(time.Duration(rng.Intn(30)) * time.Millisecond)
				rep := func(props, f string, a ...interface{}) {
					e.RepCase(props, fmt.Sprint("request ", i, " of round ", round), "HTTP request %d: %s", i, fmt.Sprintf(f, a...))
				}
				kind := []string{"ok", "ok", "ok", "refused", "wrong", "client", "gone", "ok"}[i%8]
				switch kind {
				case "client":
					// Another client's session on the control channel
					sp := SessionPlan{ID: fmt.Sprintf("c-%d-%d", round, i), File: fmt.Sprintf("c-%d-%d.webm", round, i), Form: "options", End: "stop", Tag: "C23",
						Media: NewPlan(rng, PlanOpts{Dur: time.Second, Loss: "none", Order: "a", Tag: uint32(9000 + round*100 + i)})}
					e.RunSession(rng, sp)
				case "refused":
					body := pick(rng, "garbage", "x", "{}", "bm90IGpzb24=", strings.Repeat("A", 100000)) + fmt.Sprint(round, i)
					code, text, err := post(context.Background(), body)
					if err != nil || code < 400 {
						rep("C23", "a refused offer got the status %d (%v): %.100s", code, err, text)
						return
					}
					// It is told why
					mm.Lock()
					x := byOffer[body]
					mm.Unlock()
					if x == nil || x.times != 1 {
						rep("C23", "a refused offer did not lead to one start request")
						return
					}
					if resp, ok := e.Response(x.start); ok && !strings.Contains(text, strings.TrimSpace(resp.Str("error"))) {
						rep("C23", "an offer was refused as %q, the answer is %.100q", resp.Str("error"), text)
					}
					p.R.Count("refused_offers", 1)
				case "wrong":
					for _, m := range []string{"GET", "PUT", "DELETE", "POST", "HEAD", "PATCH"} {
						body := ""
						if m == "PUT" || m == "PATCH" {
							body = "x"
						}
						r, _ := http.NewRequest(m, base+"/sdp", strings.NewReader(body))
						resp, err := cl.Do(r)
						if err != nil {
							rep("C23", "%s: %v", m, err)
							continue
						}
						resp.Body.Close()
						if resp.StatusCode != 422 {
							rep("C23", "%s with %d bytes got the status %d", m, len(body), resp.StatusCode)
						}
						p.R.Count("wrong_requests", 1)
					}
				case "gone":
					// A client which goes away before its offer is answered
					ctx, cancel := context.WithTimeout(context.Background(), time.Duration(rng.Intn(30))*time.Millisecond)
					defer cancel()
					peer, err := NewPeer(PeerOpts{Audio: true})
					if err != nil {
						return
					}
					defer peer.Close()
					post(ctx, peer.Offer)
					time.Sleep(500 * time.Millisecond)
					mm.Lock()
					m := byOffer[peer.Offer]
					mm.Unlock()
					if m != nil {
						if _, ok := e.Response(m.start); ok && m.start.Rec != nil {
							e.Stop(m.start.ID)
							e.Stopped(m.start.Rec, Patience, "stop")
						}
					}
				case "ok":
					o := PlanOpts{Dur: time.Second, Loss: "none", Order: pick(rng, "v", "a"), Tag: uint32(round*100 + i + 1), KeyGap: 300 * time.Millisecond}
					m := NewPlan(rng, o)
					peer, err := NewPeer(PeerOpts{Video: len(m.Video) > 0, Audio: len(m.Audio) > 0})
					if err != nil {
						return
					}
					defer peer.Close()
					if i%8 == 7 {
						peer.Offer = largeOffer(rng, peer.Offer)
					}
					code, answer, err := post(context.Background(), peer.Offer)
					if err != nil || code != 200 {
						rep("C23", "a good offer got the status %d (%v): %.200s", code, err, answer)
						return
					}
					mm.Lock()
					x := byOffer[peer.Offer]
					mm.Unlock()
					if x == nil || x.times != 1 {
						rep("C23", "the offer led to %d start requests", func() int {
							if x == nil {
								return 0
							}
							return x.times
						}())
						return
					}
					resp, ok := e.Response(x.start)
					if !ok || x.start.Rec == nil {
						rep("C23", "the offer was answered with 200, the response is %.200s", resp.Data)
						return
					}
					if strings.TrimSpace(answer) != resp.Str("sdp") {
						rep("C23", "the answer is not the one of session %s", x.start.ID)
					}
					s := &Session{Env: e, Conf: e.Conf, Peer: peer, Start: x.start, Plan: SessionPlan{ID: x.start.ID, File: x.start.File, Media: m, End: "stop", Tag: "C23"}}
					if err := peer.Answer(answer); err != nil {
						rep("C23", "the answer is not one to this offer: %v", err)
						e.end(s, "stop", rep)
						return
					}
					if !peer.Connected(15 * time.Second) {
						rep("C23", "the peer could not connect with the answer")
					} else {
						m.Run(peer, x.start.Rec.stopped)
						time.Sleep(300 * time.Millisecond)
					}
					e.end(s, "stop", rep)
					if s.OK {
						p.R.Case(fmt.Sprint("post ", round, i), nil)
						// Served as it is
						r, err := cl.Get(base + "/media/" + x.start.File)
						if err != nil {
							rep("C23", "the recording cannot be fetched: %v", err)
							return
						}
						b, _ := io.ReadAll(r.Body)
						r.Body.Close()
						if r.StatusCode != 200 || !bytes.Equal(b, x.start.Rec.Snapshot) {
							rep("C23", "the recording was served with status %d, %d bytes of %d", r.StatusCode, len(b), len(x.start.Rec.Snapshot))
						}
					}
				}
				p.R.Count("http_"+kind, 1)
			}(i)
		}
		// An offer which is never answered does not block the others
		peer, err := NewPeer(PeerOpts{Video: true})
		if err == nil {
			offer := peer.Offer
			unanswered.Store(&offer)
			ctx, cancel := context.WithTimeout(context.Background(), 2500*time.Millisecond)
			if code, text, err := post(ctx, offer); err == nil {
				e.Rep("C23", "an offer which nobody answered got the status %d: %.100s", code, text)
			}
			cancel()
			peer.Close()
			mm.Lock()
			m := byOffer[offer]
			mm.Unlock()
			if m != nil {
				e.Mon.Drop(m.start)
				// Too late
				e.Redis.Inject(e.Conf.Pub, []byte(fmt.Sprintf(`{"id":"startRecordingResponse","recordingSessionId":%q,"status":"ok","sdp":"x","fileName":"/x"}`, m.start.ID)))
				p.R.Count("http_unanswered", 1)
			}
		}
		wg.Wait()
		e.Status()
		e.CheckGauge("after all HTTP requests")
	}
	close(stop)
	noise.Wait()
	// Files
	get := func(path string) (int, []byte) {
		conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", e.Conf.HTTPPort), 5*time.Second)
		if err != nil {
			return 0, nil
		}
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(10 * time.Second))
		fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", path)
		b, _ := io.ReadAll(conn)
		f := bytes.Fields(b)
		if len(f) < 2 {
			return 0, b
		}
		code, _ := strconv.Atoi(string(f[1]))
		return code, b
	}
	if e.Dead() {
		return
	}
	for _, path := range []string{"/media/../secret.txt", "/media/..%2fsecret.txt", "/media/%2e%2e/secret.txt", "/media/%2e%2e%2fsecret.txt", "/media//../secret.txt", "/media/sub/../../secret.txt", "/media/sub/..%2f..%2fsecret.txt",
		"/media/..\\secret.txt", "/media/..%5csecret.txt", "/media/../rec-secret/secret.txt", "/media-secret/secret.txt", "/media/.%00./secret.txt", "/secret.txt", "/../secret.txt", "/media" + dir + "/../secret.txt", "/media//" + filepath.Join(work, "secret.txt"),
		"/..%2fmedia/..%2fsecret.txt", "/media/....//secret.txt", "/media/%252e%252e/secret.txt", "/media/sub/%2e%2e/%2e%2e/secret.txt", "http://x/media/../secret.txt"} {
		code, b := get(path)
		if bytes.Contains(b, []byte(secret)) {
			e.Rep("C23", "%s is served (status %d)", path, code)
		}
		p.R.Case("path "+path, nil)
	}
	if code, b := get("/media/public%20file.webm"); code != 200 || !bytes.HasSuffix(b, public) {
		e.Rep("C23", "a recording is served with status %d, %d bytes", code, len(b))
	}
	if code, b := get("/media/sub/x.webm"); code != 200 || !bytes.HasSuffix(b, []byte("sub")) {
		e.Rep("C23", "a recording in a subdirectory is served with status %d, %d bytes", code, len(b))
	}
	e.Status()
}

// setting is one of the settings
type setting struct {
	path, env, def string
	values         []string
}

var settings = []setting{
	{"recorder.directory", "RECORDER_DIRECTORY", "", []string{"/tmp/a", "/tmp/b c", "/x/ü", "relative/dir"}},
	{"recorder.dirFileMode", "RECORDER_DIRFILEMODE", "0700", []string{"'0711'", "'0750'", "'0777'"}},
	{"recorder.fileMode", "RECORDER_FILEMODE", "0600", []string{"'0644'", "'0640'", "'0666'"}},
	{"recorder.writeToDevNull", "RECORDER_WRITETODEVNULL", "", []string{"true", "false"}},
	{"recorder.writeIVFCopy", "RECORDER_WRITEIVFCOPY", "", []string{"true", "false"}},
	{"recorder.videoPacketQueueSize", "RECORDER_VIDEOPACKETQUEUESIZE", "256", []string{"1", "17", "65535"}},
	{"recorder.audioPacketQueueSize", "RECORDER_AUDIOPACKETQUEUESIZE", "32", []string{"1", "64", "1000"}},
	{"recorder.useCustomSampler", "RECORDER_USECUSTOMSAMPLER", "true", []string{"true", "false"}},
	{"pubsub.adapter", "PUBSUB_ADAPTER", "redis", []string{"other", "redis2"}},
	{"pubsub.channels.subscribe", "PUBSUB_CHANNELS_SUBSCRIBE", "to-bbb-webrtc-recorder", []string{"x", "in.put", "a b"}},
	{"pubsub.channels.publish", "PUBSUB_CHANNELS_PUBLISH", "from-bbb-webrtc-recorder", []string{"y", "out"}},
	{"pubsub.adapters.redis.address", "PUBSUB_ADAPTERS_REDIS_ADDRESS", ":6379", []string{"127.0.0.1:7777", "redis.example:1"}},
	{"pubsub.adapters.redis.network", "PUBSUB_ADAPTERS_REDIS_NETWORK", "tcp", []string{"unix", "tcp4"}},
	{"pubsub.adapters.redis.password", "PUBSUB_ADAPTERS_REDIS_PASSWORD", "", []string{"pw1", "p w 2"}},
	{"webrtc.rtcMinPort", "WEBRTC_RTCMINPORT", "24577", []string{"1024", "30000"}},
	{"webrtc.rtcMaxPort", "WEBRTC_RTCMAXPORT", "32768", []string{"40000", "65535"}},
	{"webrtc.jitterBuffer", "WEBRTC_JITTERBUFFER", "512", []string{"64", "1024", "65535"}},
	{"webrtc.jitterBufferPktTimeout", "WEBRTC_JITTERBUFFERPKTTIMEOUT", "200", []string{"1", "100", "5000"}},
	{"http.enable", "HTTP_ENABLE", "", []string{"true", "false"}},
	{"http.port", "HTTP_PORT", "8080", []string{"80", "9999"}},
	{"prometheus.enable", "PROMETHEUS_ENABLE", "", []string{"true", "false"}},
	{"prometheus.listenAddress", "PROMETHEUS_LISTENADDRESS", "127.0.0.1:3200", []string{"0.0.0.0:1", "127.0.0.1:3201"}},
	{"livekit.host", "LIVEKIT_HOST", "ws://localhost:7880", []string{"wss://lk.example", "ws://127.0.0.1:1"}},
	{"livekit.apiKey", "LIVEKIT_APIKEY", "", []string{"key1", "KEY-2"}},
	{"livekit.apiSecret", "LIVEKIT_APISECRET", "", []string{"sec1", "sec/2+="}},
	{"log.level", "LOG_LEVEL", "", []string{"debug", "trace", "error"}},
}

func unquote(s string) string { return strings.Trim(s, "'\"\n ") }

// yamlFile writes settings as a configuration file
func yamlFile(m map[string]string) string {
	type node map[string]interface{}
	root := node{}
	for k, v := range m {
		n := root
		ps := strings.Split(k, ".")
		for _, q := range ps[:len(ps)-1] {
			if n[q] == nil {
				n[q] = node{}
			}
			n = n[q].(node)
		}
		n[ps[len(ps)-1]] = v
	}
	var sb strings.Builder
	var write func(n node, ind string)
	write = func(n node, ind string) {
		var ks []string
		for k := range n {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if c, ok := n[k].(node); ok {
				sb.WriteString(ind + k + ":\n")
				write(c, ind+"  ")
				continue
			}
			v := n[k].(string)
			if v != "true" && v != "false" && !strings.HasPrefix(v, "'") {
				if _, err := strconv.Atoi(v); err != nil {
					v = strconv.Quote(v)
				}
			}
			sb.WriteString(ind + k + ": " + v + "\n")
		}
	}
	write(root, "")
	return sb.String()
}

// ConfigSuite checks which configuration is in effect
func ConfigSuite(p Params) {
	work, err := os.MkdirTemp(p.Scratch, "conf-")
	if err != nil {
		p.R.Unsure("%v", err)
		return
	}
	defer os.RemoveAll(work)
	var wg sync.WaitGroup
	wg.Add(3)
	go func() { defer wg.Done(); serversSuite(p) }()
	go func() { defer wg.Done(); reloadSuite(p) }()
	go func() { defer wg.Done(); lkReloadSuite(p) }()
	sem := make(chan struct{}, 6)
	for i := 0; i < p.N; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			dumpCase(p, work, i)
		}(i)
	}
	wg.Wait()
}

// iceServers are a list: the one of the environment replaces that of the file
func iceServers(rng *rand.Rand, pf, pe float64) (file string, env []string, want map[string]string) {
	want = map[string]string{}
	fill := func() (n int) {
		clear(want)
		n = 1 + rng.Intn(2)
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("webrtc.iceServers.%d.", i)
			want[k+"urls.0"] = fmt.Sprintf("stun:s%d.example:%d", rng.Intn(100), i)
			if rng.Intn(2) == 0 {
				want[k+"urls.1"] = fmt.Sprintf("turn:t%d.example", rng.Intn(100))
			}
			if rng.Intn(2) == 0 {
				want[k+"username"] = fmt.Sprintf("user%d", rng.Intn(100))
				want[k+"credential"] = fmt.Sprintf("secret%d", rng.Intn(100))
			}
		}
		return n
	}
	get := func(i int, k string) string { return want[fmt.Sprintf("webrtc.iceServers.%d.%s", i, k)] }
	urls := func(i int, sep string) string {
		u := []string{get(i, "urls.0")}
		if x := get(i, "urls.1"); x != "" {
			u = append(u, x)
		}
		return strings.Join(u, sep)
	}
	if rng.Float64() < pf {
		file = "  iceServers:\n"
		for i, n := 0, fill(); i < n; i++ {
			file += fmt.Sprintf("    - urls: ['%s']\n", urls(i, "', '"))
			if u := get(i, "username"); u != "" {
				file += fmt.Sprintf("      username: %s\n      credential: %s\n", u, get(i, "credential"))
			}
		}
	}
	if rng.Float64() < pe {
		for i, n := 0, fill(); i < n; i++ {
			k := fmt.Sprintf("BBBRECORDER_WEBRTC_ICESERVERS_%d_", i)
			env = append(env, k+"URLS="+urls(i, ","))
			if u := get(i, "username"); u != "" {
				env = append(env, k+"USERNAME="+u, k+"CREDENTIAL="+get(i, "credential"))
			}
		}
	}
	return
}

func dumpCase(p Params, work string, i int) {
	rng := p.rng(int64(1000 + i))
	file, env := map[string]string{}, map[string]string{}
	pf, pe := pick(rng, 0.0, 0.1, 0.5, 1.0), pick(rng, 0.0, 0.1, 0.3, 1.0)
	for _, s := range settings {
		if rng.Float64() < pf {
			file[s.path] = s.values[rng.Intn(len(s.values))]
		}
		if rng.Float64() < pe {
			env[s.path] = unquote(s.values[rng.Intn(len(s.values))])
		}
	}
	conf := yamlFile(file)
	iceFile, iceEnv, ice := iceServers(rng, pf, pe)
	if iceFile != "" {
		file["iceServers"] = ""
		if strings.Contains(conf, "webrtc:\n") {
			conf = strings.Replace(conf, "webrtc:\n", "webrtc:\n"+iceFile, 1)
		} else {
			conf += "webrtc:\n" + iceFile
		}
	}
	path := filepath.Join(work, fmt.Sprintf("c%d.yml", i))
	if len(file) > 0 {
		// (an empty one is an error)
		os.WriteFile(path, []byte(conf), 0644)
		defer os.Remove(path)
	}
	e := CleanEnv()
	for _, s := range settings {
		if v, ok := env[s.path]; ok {
			e = append(e, "BBBRECORDER_"+s.env+"="+v)
		}
	}
	e = append(e, iceEnv...)
	dump := func(key string) (string, error) {
		c := exec.Command(p.Bin, "-c", path, "--dump", key)
		c.Env, c.Dir = e, work
		b, err := c.Output()
		return string(b), err
	}
	sig := fmt.Sprint(file, env)
	for _, k := range rng.Perm(len(settings))[:8] {
		s := settings[k]
		want, from := s.def, "default"
		if v, ok := file[s.path]; ok {
			want, from = unquote(v), "file"
		}
		if v, ok := env[s.path]; ok {
			want, from = v, "environment"
		}
		if s.def == "" && from == "default" || want == "false" || want == "" {
			// Nothing to print, but it must not be anything else
			if b, err := dump(s.path); err == nil && unquote(b) != "false" && unquote(b) != "" && unquote(b) != "0" && s.path != "log.level" {
				p.R.Violate("C22", map[string]interface{}{"file": conf, "env": env}, "%s is %q (%s), but %q was dumped", s.path, want, from, b)
			}
			p.R.Count("dumps_of_nothing", 1)
			continue
		}
		b, err := dump(s.path)
		if got := unquote(b); err != nil || got != want {
			p.R.Violate("C22", map[string]interface{}{"file": conf, "env": env}, "%s has to be %q (%s), but %q was dumped (%v)", s.path, want, from, b, err)
		}
		p.R.Count("dumps_from_"+from, 1)
	}
	for k, want := range ice {
		b, err := dump(k)
		if got := unquote(b); err != nil || got != want {
			p.R.Violate("C22", map[string]interface{}{"file": conf, "env": env, "ice_servers": iceEnv}, "%s has to be %q, but %q was dumped (%v)", k, want, b, err)
		}
		p.R.Count("dumps_of_ice_servers", 1)
	}
	p.R.Case(sig, map[string]interface{}{"settings_in_file": len(file), "in_environment": len(env)})
}

// reloadSuite changes the configuration of a running recorder
// serversSuite checks that the page and the metrics are served if they are enabled,
// at their ports, and not otherwise
func serversSuite(p Params) {
	rng := p.rng(99)
	var wg sync.WaitGroup
	for k := 0; k < 9; k++ {
		set := func(c int) (file bool, env string, want bool) {
			switch c {
			case 0:
				return rng.Intn(2) == 0, "true", true
			case 1:
				return true, "", true
			}
			// It cannot be disabled by the environment: that is the default
			return false, "", false
		}
		hf, he, hw := set(k % 3)
		mf, me, mw := set(k / 3)
		c := Conf{HTTPPort: FreePort(), HTTPOff: !hf, MetricsPort: FreePort(), MetricsOff: !mf}
		var env []string
		if he != "" {
			env = append(env, "BBBRECORDER_HTTP_ENABLE="+he)
		}
		if me != "" {
			env = append(env, "BBBRECORDER_PROMETHEUS_ENABLE="+me)
		}
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			e := p.env(EnvOpts{Name: fmt.Sprintf("servers-%d", k), Conf: c, Env: env})
			if e == nil {
				return
			}
			defer e.Close()
			if !e.Status() {
				return
			}
			for _, x := range []struct {
				what string
				port int
				want bool
			}{{"page", c.HTTPPort, hw}, {"metrics", c.MetricsPort, mw}} {
				served := false
				for t := time.Now(); !served && (x.want && time.Since(t) < 10*time.Second || time.Since(t) < 500*time.Millisecond); time.Sleep(50 * time.Millisecond) {
					if conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", x.port), 5*time.Second); err == nil {
						conn.Close()
						served = true
					}
				}
				if served != x.want && !e.Dead() {
					e.Rep("C22", "the %s: enabled %v, served at the port %v (environment %q)", x.what, x.want, served, env)
				}
				p.R.Count("servers_probed", 1)
			}
			p.R.Case(fmt.Sprintf("servers http %v %v, metrics %v %v", hf, he, mf, me), nil)
		}(k)
	}
	wg.Wait()
}

func reloadSuite(p Params) {
	var wg sync.WaitGroup
	for k := 0; k < 2; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			var o EnvOpts
			o.Name = fmt.Sprintf("reload-%d", k)
			o.Conf = Conf{PktTimeout: 60000}
			if k == 1 {
				// These are fixed by the environment, whatever the file says
				o.Env = []string{"BBBRECORDER_RECORDER_FILEMODE=0640", "BBBRECORDER_WEBRTC_JITTERBUFFERPKTTIMEOUT=60000"}
			}
			e := p.env(o)
			if e == nil {
				return
			}
			defer e.Close()
			reloadEnv(p, e, k)
		}(k)
	}
	wg.Wait()
}

func reloadEnv(p Params, e *Env, k int) {
	rng := p.rng(int64(77 + k))
	spare, err := NewPeer(PeerOpts{Audio: true})
	if err != nil {
		p.R.Unsure("no peer: %v", err)
		return
	}
	defer spare.Close()
	// These must not notice
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func(i int, r *rand.Rand) {
			defer wg.Done()
			sp := SessionPlan{ID: fmt.Sprintf("kept-%d", i), File: fmt.Sprintf("kept-%d.webm", i), Form: "legacy", End: "stop", Tag: "C22",
				Media: NewPlan(r, PlanOpts{Dur: 9 * time.Second, Order: pick(r, "v", "a", "av"), Loss: pick(r, "none", "reorder"), Tag: uint32(i + 1)})}
			s := e.RunSession(r, sp)
			if s.OK {
				p.R.Case(fmt.Sprint("kept session ", k, i), nil)
			}
		}(i, rand.New(rand.NewSource(rng.Int63())))
	}
	time.Sleep(700 * time.Millisecond)
	n := 0
	turn, err := NewTurnServer(pick(rng, "user", "1700000000:x"), pick(rng, "secret", "s3cr3t/+= x", "12345"))
	if err != nil {
		p.R.Unsure("no TURN server: %v", err)
		return
	}
	defer turn.Close()
	try := func() (string, bool) {
		n++
		id := fmt.Sprintf("try-%d", n)
		s := &Start{ID: id, File: id + ".webm", Tracks: 1, WantOK: true, Tag: "C22", Why: "request after a reload"}
		e.Start(s, (&SessionPlan{ID: id, File: s.File, Form: "legacy"}).Message(nil, spare.Offer))
		if _, ok := e.Response(s); !ok || s.Rec == nil {
			return "", false
		}
		e.Stop(id)
		return filepath.Dir(s.Rec.Path), e.Stopped(s.Rec, Patience, "stop")
	}
	cur := e.Conf
	rounds := 10
	if p.Thorough {
		rounds = 60
	}
	for r := 0; r < rounds && !e.Dead(); r++ {
		bad := rng.Intn(2) == 0
		next := cur
		if bad {
			what := rng.Intn(6)
			garbage := []string{"a: [", "recorder:\n\t- x", "recorder: 5\n", "recorder:\n  videoPacketQueueSize: many\n", "\x00\x01\x02", "webrtc:\n  rtcMinPort: 99999999\n"}[what]
			// It would move the recordings
			if what > 1 && what != 4 {
				garbage = strings.Replace(garbage, "recorder:\n", "recorder:\n  directory: /nonexistent\n", 1)
			}
			os.WriteFile(e.Proc.Path, []byte(garbage), 0644)
			p.R.Count("reloads_of_a_broken_file", 1)
		} else {
			next.Dir = filepath.Join(e.Work, fmt.Sprintf("moved-%d", r))
			os.MkdirAll(next.Dir, 0755)
			next.FileMode = pick(rng, "0600", "0644", "0660")
			next.IVF = rng.Intn(2) == 0
			next.Omit = nil
			for _, k := range []string{"fileMode", "writeIVFCopy"} {
				// The default comes back
				if rng.Intn(3) == 0 {
					next.Omit = append(next.Omit, k)
					if k == "fileMode" {
						next.FileMode = "0600"
					} else {
						next.IVF = false
					}
				}
			}
			next.MinPort = 20000 + 1000*rng.Intn(30)
			next.MaxPort = next.MinPort + pick(rng, 40, 100, 1000)
			// The default is info
			next.LogLevel = pick(rng, "warn", "error", "info", "debug", "loud")
			next.ICE = pick(rng, "", fmt.Sprintf("[{urls: ['turn:%s?transport=udp'], username: %q, credential: %q}]", turn.Addr, turn.User, turn.Pass))
			os.WriteFile(e.Proc.Path, []byte(next.YAML()), 0644)
			p.R.Count("reloads", 1)
		}
		for i := rng.Intn(3); i >= 0; i-- {
			e.Hup()
			time.Sleep(time.Duration(rng.Intn(30)) * time.Millisecond)
		}
		if bad {
			time.Sleep(250 * time.Millisecond)
			d, ok := try()
			if !ok {
				if s, c := e.Proc.Crashed(); c {
					e.Rep("C22", "the recorder ended after a broken configuration was reloaded: %s", s)
				}
				break
			}
			if d != cur.Dir {
				e.Rep("C22", "after a configuration which cannot be read, recordings go to %q, not %q", d, cur.Dir)
			}
		} else {
			deadline := time.Now().Add(8 * time.Second)
			for {
				d, ok := try()
				if !ok {
					break
				}
				if d == next.Dir {
					break
				}
				if d != cur.Dir {
					e.Rep("C22", "recordings go to %q, neither %q nor %q", d, cur.Dir, next.Dir)
					break
				}
				if time.Now().After(deadline) {
					e.Rep("C22", "the configuration was not reloaded: recordings go to %q, not %q", d, next.Dir)
					break
				}
				time.Sleep(20 * time.Millisecond)
			}
			cur = next
			// A recording with the new settings
			time.Sleep(150 * time.Millisecond)
			logged := len(e.Proc.Log())
			sp := SessionPlan{ID: fmt.Sprintf("new-%d", r), File: fmt.Sprintf("d/new-%d.webm", r), Form: "options", End: "stop", Tag: "C22",
				Media: NewPlan(rng, PlanOpts{Dur: 600 * time.Millisecond, Order: "v", Loss: "none", Tag: uint32(100 + r), KeyGap: 300 * time.Millisecond})}
			if s := e.RunSessionConf(rng, sp, next); s.OK {
				p.R.Case(fmt.Sprint("reloaded ", k, r, next.FileMode, next.IVF, next.ICE != ""), nil)
				if relay := s.Relayed; relay != (next.ICE != "") {
					e.Rep("C22", "after a reload, an ICE server is configured: %v, but whether the answer has a candidate of it is %v", next.ICE != "", relay)
				} else if relay {
					p.R.Count("sessions_with_an_ice_server", 1)
				}
				verbose := next.LogLevel != "warn" && next.LogLevel != "error"
				if l := e.Proc.Log(); len(l) >= logged && strings.Contains(l[logged:], `"level":"info"`) != verbose && !p.Race {
					e.Rep("C22", "after a reload, the log level is %s, but messages of level info are there: %v", next.LogLevel, !verbose)
				}
				mode, _ := strconv.ParseUint(next.FileMode, 8, 32)
				if k == 1 {
					mode = 0640
				}
				if st, err := os.Stat(s.Start.Rec.Path); err == nil && st.Mode().Perm() != os.FileMode(mode)&^umask() {
					e.Rep("C22,C20", "after a reload, the mode of a recording is %v, not %o", st.Mode(), mode)
				}
			}
		}
	}
	wg.Wait()
	e.Status()
	e.CheckGauge("after all reloads")
}

func umask() os.FileMode {
	b, _ := os.ReadFile("/proc/self/status")
	for _, l := range strings.Split(string(b), "\n") {
		if s, ok := strings.CutPrefix(l, "Umask:"); ok {
			n, _ := strconv.ParseUint(strings.TrimSpace(s), 8, 32)
			return os.FileMode(n)
		}
	}
	return 0022
}
