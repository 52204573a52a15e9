package e2e

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/media"
)

// BadStart is a start request which has to be refused
type BadStart struct {
	Why string
	Msg map[string]interface{}
	Tag string
}

// badStarts makes start requests up which have to be refused. ok is a usable
// offer, existing a file name which exists.
func badStarts(id, ok, existing, free string) []BadStart {
	base := func(kv ...interface{}) map[string]interface{} {
		o := map[string]interface{}{"id": "startRecording", "recordingSessionId": id, "fileName": free}
		for i := 0; i < len(kv); i += 2 {
			o[kv[i].(string)] = kv[i+1]
		}
		return o
	}
	b64 := func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
	ms := func(sdp interface{}) map[string]interface{} {
		return map[string]interface{}{"mediasoup": map[string]interface{}{"sdp": sdp}}
	}
	out := []BadStart{
		{"no offer", base(), ""},
		{"empty offer", base("sdp", ""), ""},
		{"no offer in the options", base("adapter", "mediasoup", "adapterOptions", map[string]interface{}{}), ""},
		{"null options", base("adapter", "mediasoup", "adapterOptions", nil), ""},
		{"unknown adapter", base("adapter", "janus", "adapterOptions", ms(ok)), ""},
		{"unknown adapter and legacy offer", base("adapter", "janus", "sdp", ok), ""},
		{"adapter in the wrong case", base("adapter", "Mediasoup", "adapterOptions", ms(ok)), ""},
		{"offer which is no base64", base("sdp", "!!!! not base64 !!!!"), ""},
		{"offer which is no JSON", base("sdp", b64("v=0\r\n")), ""},
		{"offer of the wrong type", base("sdp", b64(`{"type":"answer","sdp":"v=0\r\no=- 1 1 IN IP4 0.0.0.0\r\ns=-\r\nt=0 0\r\n"}`)), ""},
		{"garbled offer", base("sdp", b64(`{"type":"offer","sdp":"garbage"}`)), ""},
		{"empty SDP", base("adapterOptions", ms(b64(`{"type":"offer","sdp":""}`))), ""},
		{"offer without media and ICE", base("adapterOptions", ms(b64(`{"type":"offer","sdp":"v=0\r\no=- 1 1 IN IP4 0.0.0.0\r\ns=-\r\nt=0 0\r\nm=video 9 UDP/TLS/RTP/SAVPF 96\r\nc=IN IP4 0.0.0.0\r\na=mid:0\r\na=sendonly\r\na=rtpmap:96 VP8/90000\r\n"}`))), ""},
		{"garbled offer in the options, good legacy one", base("sdp", ok, "adapterOptions", ms("garbage")), ""},
		{"livekit without options", base("adapter", "livekit"), "C26"},
		{"livekit without a room", base("adapter", "livekit", "adapterOptions", map[string]interface{}{"livekit": map[string]interface{}{"trackIds": []string{"TR_x"}}}), "C26"},
		{"livekit without tracks", base("adapter", "livekit", "adapterOptions", map[string]interface{}{"livekit": map[string]interface{}{"room": "r"}}), "C26"},
		{"no file name", base("sdp", ok, "fileName", ""), "C20"},
		{"other extension", base("sdp", ok, "fileName", strings.TrimSuffix(free, ".webm")+".mp4"), "C20"},
		{"no extension", base("sdp", ok, "fileName", strings.TrimSuffix(free, ".webm")), "C20"},
		{"leaving the directory", base("sdp", ok, "fileName", "../"+free), "C20"},
		{"leaving the directory deeper", base("sdp", ok, "fileName", "a/../../"+free), "C20"},
	}
	if existing != "" {
		out = append(out, BadStart{"existing file", base("sdp", ok, "fileName", existing), "C20"})
	}
	return out
}

// refused sends a start request which has to be refused
func (e *Env) refused(rng *rand.Rand, b BadStart, id string) bool {
	tag := "C01"
	if b.Tag != "" {
		tag += "," + b.Tag
	}
	s := &Start{ID: id, WantFail: true, Tag: tag, Why: b.Why}
	e.Start(s, JSON5(rng, b.Msg, orderOfFields))
	p, ok := e.Response(s)
	if !ok {
		return false
	}
	e.R.Count("refused_starts", 1)
	if p.Str("status") == "ok" && s.Rec != nil {
		e.Stop(id)
		e.Stopped(s.Rec, Patience, "a start which should have been refused")
	}
	return true
}

// actor uses session ids of its own, one recording after the other
type actor struct {
	e    *Env
	rng  *rand.Rand
	ids  []string
	n    int
	k    int
	last string
	// The offer of a peer which never answers
	spare *Peer
}

func (a *actor) file() string {
	a.n++
	d := pick(a.rng, "", "", "sub/", fmt.Sprintf("n%d/", a.k))
	return fmt.Sprintf("%sc%d-%d.webm", d, a.k, a.n)
}

func (a *actor) media(d time.Duration) *Plan {
	return NewPlan(a.rng, PlanOpts{Dur: d, Loss: "none", Order: pick(a.rng, "v", "a", "v"), Tag: uint32(a.k*1000 + a.n + 1), KeyGap: 400 * time.Millisecond})
}

func (a *actor) plan(id string) SessionPlan {
	return SessionPlan{ID: id, File: a.file(), Form: pick(a.rng, "legacy", "options", "both"), Adapter: pick(a.rng, "", "mediasoup"),
		End: pick(a.rng, "stop", "stop", "close", "race", "stop2")}
}

// sessionIDs makes ids up, which can be any strings
func sessionIDs(rng *rand.Rand, i int) []string {
	odd := []string{"ID %d/ü", "%d'\"\\", "<%d>&", "\n%d\t", "%d\u2028\U0001f3a5", " %d ", "../%d", "%%d%d", "{%d: null}", "%d-" + strings.Repeat("long", 300), "%d"}
	return []string{fmt.Sprintf("id-%d", i), fmt.Sprintf(odd[rng.Intn(len(odd))], i)}
}

var scenarios = []string{"plain", "duplicates", "empty", "refused", "takeover", "window", "pipelined", "wave", "early", "unknown", "burst"}

// scenario runs one of the histories. It returns false if the recorder is dead.
func (a *actor) scenario(name string) {
	e, rng := a.e, a.rng
	id := a.ids[rng.Intn(len(a.ids))]
	rep := func(props, f string, args ...interface{}) {
		e.RepCase(props, name, "%s of session %s: %s", name, id, fmt.Sprintf(f, args...))
	}
	switch name {
	case "plain":
		sp := a.plan(id)
		sp.Media = a.media(time.Duration(600+rng.Intn(800)) * time.Millisecond)
		sp.Tag = "C02"
		e.RunSession(rng, sp)
	case "duplicates":
		sp := a.plan(id)
		sp.Media = a.media(1500 * time.Millisecond)
		sp.Tag = "C02"
		var wg sync.WaitGroup
		sp.OnBegin = func(s *Session) {
			// A request for the same id while it is active
			wg.Add(1)
			go func() {
				defer wg.Done()
				r2 := rand.New(rand.NewSource(rng.Int63()))
				n := 1 + r2.Intn(3)
				for i := 0; i < n && e.Mon.IsActive(s.Start.Rec); i++ {
					time.Sleep(time.Duration(r2.Intn(350)) * time.Millisecond)
					var b BadStart
					if r2.Intn(2) == 0 {
						b = BadStart{"id in use", map[string]interface{}{"id": "startRecording", "recordingSessionId": id, "fileName": pick(r2, fmt.Sprintf("dup-%s-%d-%d.webm", id, a.n, i), sp.File), "sdp": a.spare.Offer}, "C02"}
					} else {
						bs := badStarts(id, a.spare.Offer, "", "dup.webm")
						b = bs[r2.Intn(len(bs))]
					}
					if !e.refused(r2, b, id) {
						return
					}
					e.R.Count("duplicate_starts", 1)
					if _, err := os.Stat(filepath.Join(e.Rec, fmt.Sprintf("dup-%s-%d-%d.webm", id, a.n, i))); err == nil {
						rep("C02,C20", "the refused start left a file")
					}
				}
			}()
		}
		sp.OnMedia = func(*Session) { wg.Wait() }
		e.RunSession(rng, sp)
		wg.Wait()
	case "empty":
		sp := a.plan(id)
		sp.Offer = PeerOpts{Video: rng.Intn(2) == 0, Audio: true}
		sp.Connect = rng.Intn(3) > 0
		if !sp.Connect {
			sp.End = pick(rng, "stop", "stop2")
		}
		e.RunSession(rng, sp)
	case "early":
		sp := a.plan(id)
		sp.Offer = PeerOpts{Video: true, Audio: rng.Intn(2) == 0}
		sp.Connect = true
		sp.End = "early"
		e.RunSession(rng, sp)
	case "refused":
		existing := "existing.webm"
		// Others do the same at the same time
		tmp := filepath.Join(filepath.Dir(e.Rec), fmt.Sprintf("existing-%d-%d", a.k, a.n))
		os.WriteFile(tmp, []byte("precious"), 0644)
		os.Link(tmp, filepath.Join(e.Rec, existing))
		bs := badStarts(id, a.spare.Offer, existing, fmt.Sprintf("bad-%d-%d.webm", a.k, a.n))
		for i := 0; i < 3 && !e.Dead(); i++ {
			if !e.refused(rng, bs[rng.Intn(len(bs))], id) {
				return
			}
		}
		if b, err := os.ReadFile(filepath.Join(e.Rec, existing)); err != nil || string(b) != "precious" {
			rep("C20", "an existing file was changed: %v", err)
		}
		// The id and the file name can be used now
		sp := a.plan(id)
		sp.File = fmt.Sprintf("bad-%d-%d.webm", a.k, a.n)
		a.n++
		sp.Media = a.media(500 * time.Millisecond)
		sp.Tag = "C02"
		e.RunSession(rng, sp)
	case "takeover":
		// The peer of an ended session goes away while a new one has its id
		old, err := NewPeer(PeerOpts{Video: true, Audio: true})
		if err != nil {
			return
		}
		defer old.Close()
		s := &Start{ID: id, File: a.file(), Tracks: 2, WantOK: true, Why: "legacy request"}
		e.Start(s, (&SessionPlan{ID: id, File: s.File, Form: "legacy"}).Message(rng, old.Offer))
		p, ok := e.Response(s)
		if !ok || s.Rec == nil {
			return
		}
		if old.Answer(p.Str("sdp")) == nil {
			old.Connected(15 * time.Second)
		}
		time.Sleep(time.Duration(rng.Intn(300)) * time.Millisecond)
		e.Stop(id)
		if !e.Stopped(s.Rec, Patience, "stop of the first one") {
			return
		}
		sp := a.plan(id)
		sp.Media = a.media(1200 * time.Millisecond)
		sp.Tag = "C02"
		sp.OnBegin = func(*Session) {
			go func() {
				time.Sleep(time.Duration(rng.Intn(500)) * time.Millisecond)
				old.Close()
			}()
		}
		e.RunSession(rng, sp)
	case "window":
		// A new recording of the same id is requested around the time the
		// transport of the old one is closed
		old, err := NewPeer(PeerOpts{Audio: true})
		if err != nil {
			return
		}
		defer old.Close()
		s := &Start{ID: id, File: a.file(), Tracks: 1, WantOK: true, Why: "legacy request"}
		e.Start(s, (&SessionPlan{ID: id, File: s.File, Form: "legacy"}).Message(rng, old.Offer))
		p, ok := e.Response(s)
		if !ok || s.Rec == nil {
			return
		}
		if old.Answer(p.Str("sdp")) != nil || !old.Connected(15*time.Second) {
			e.Stop(id)
			e.Stopped(s.Rec, Patience, "stop")
			return
		}
		go old.Close()
		// It is noticed after a while
		var t *Start
		for n := 0; n < 400; n++ {
			t = &Start{ID: id, File: a.file(), Tracks: 1, Why: "request while the previous one may end"}
			e.Start(t, (&SessionPlan{ID: id, File: t.File, Form: "legacy"}).Message(rng, a.spare.Offer))
			if _, ok := e.Response(t); !ok {
				return
			}
			if t.Rec != nil {
				break
			}
			time.Sleep(time.Duration(20+rng.Intn(60)) * time.Millisecond)
			e.R.Count("duplicate_starts", 1)
		}
		if !e.Stopped(s.Rec, Patience, "its peer went away") {
			return
		}
		if t.Rec != nil {
			e.R.Count("started_while_ending", 1)
			time.Sleep(time.Duration(rng.Intn(200)) * time.Millisecond)
			if !e.Mon.IsActive(t.Rec) {
				rep("C02,C03", "the new recording ended (%s)", t.Rec.Reason)
			}
			e.Stop(id)
			e.Stopped(t.Rec, Patience, "stop of the new one")
		}
	case "pipelined":
		// Without waiting for anything
		n := 2 + rng.Intn(3)
		var ss []*Start
		for i := 0; i < n; i++ {
			s := &Start{ID: id, File: a.file(), Tracks: 1, WantOK: true, Tag: "C02", Why: "request right after the stop of the previous one"}
			e.Start(s, (&SessionPlan{ID: id, File: s.File, Form: "options"}).Message(rng, a.spare.Offer))
			ss = append(ss, s)
			if rng.Intn(2) == 0 {
				d := &Start{ID: id, WantFail: true, Tag: "C02", Why: "id in use"}
				e.Start(d, (&SessionPlan{ID: id, File: a.file(), Form: "options"}).Message(rng, a.spare.Offer))
				ss = append(ss, d)
				e.R.Count("duplicate_starts", 1)
			}
			for k := rng.Intn(2); k >= 0; k-- {
				e.Stop(id)
			}
		}
		for _, s := range ss {
			if _, ok := e.Response(s); !ok {
				return
			}
			if s.Rec != nil && !e.Stopped(s.Rec, Patience, "pipelined stop") {
				return
			}
		}
	case "wave":
		// Peers go away, and stops and new starts come around the time this
		// is noticed: what comes after a stop has to be accepted in any case
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func(rng *rand.Rand, id, f1, f2 string) {
				defer wg.Done()
				a.endrace(rng, id, f1, f2, rep)
			}(rand.New(rand.NewSource(rng.Int63())), fmt.Sprintf("%s-%d", id, i), a.file(), a.file())
		}
		wg.Wait()
	case "unknown":
		// Nothing is published about sessions which do not exist
		for i := 0; i < 4; i++ {
			e.Stop(pick(rng, id, "unknown-"+id, "", strings.Repeat("x", 3000)))
		}
		e.Status()
	case "burst":
		for i := 0; i < 5; i++ {
			e.R.Count("status_requests", 1)
			if rng.Intn(5) == 0 {
				// Reloads its configuration, which is the same
				e.Hup()
				e.R.Count("reloads", 1)
			}
			if rng.Intn(2) == 0 {
				e.Stop("unknown-" + id)
			}
			go e.Status()
		}
		e.Status()
	}
}

// endrace ends a session by a stop and by the loss of its peer at the same time
func (a *actor) endrace(rng *rand.Rand, id, f1, f2 string, rep media.Report) {
	e := a.e
	old, err := NewPeer(PeerOpts{Video: rng.Intn(2) == 0, Audio: true})
	if err != nil {
		return
	}
	defer old.Close()
	s := &Start{ID: id, File: f1, Tracks: 2, WantOK: true, Why: "legacy request"}
	e.Start(s, (&SessionPlan{ID: id, File: s.File, Form: "legacy"}).Message(rng, old.Offer))
	p, ok := e.Response(s)
	if !ok || s.Rec == nil {
		return
	}
	if old.Answer(p.Str("sdp")) == nil {
		old.Connected(15 * time.Second)
	}
	old.Close()
	d := time.Duration(4800+rng.Intn(1800)) * time.Millisecond
	select {
	case <-s.Rec.stopped:
		time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
	case <-time.After(d):
	case <-e.Proc.done:
		return
	}
	e.R.Count("stops_around_a_loss", 1)
	e.Stop(id)
	t := &Start{ID: id, File: f2, Tracks: 2, WantOK: true, Tag: "C02", Why: "request right after the stop of the previous one"}
	e.Start(t, (&SessionPlan{ID: id, File: t.File, Form: "legacy"}).Message(rng, a.spare.Offer))
	if _, ok := e.Response(t); !ok || !e.Stopped(s.Rec, Patience, "stop and loss of its peer") {
		return
	}
	if t.Rec == nil {
		return
	}
	time.Sleep(time.Duration(rng.Intn(600)) * time.Millisecond)
	if !e.Mon.IsActive(t.Rec) {
		rep("C02,C03", "the new recording of %s ended (%s)", id, t.Rec.Reason)
	}
	e.Stop(id)
	e.Stopped(t.Rec, Patience, "stop of the new one")
}

// slowRedis makes publications take their time
func slowRedis(seed int64) func(string, []byte) time.Duration {
	var n atomic.Int64
	return func(ch string, data []byte) time.Duration {
		r := rand.New(rand.NewSource(seed + n.Add(1)))
		var m struct{ Id string }
		json.Unmarshal(data, &m)
		switch m.Id {
		case "recordingStopped":
			if r.Intn(2) == 0 {
				return time.Duration(r.Intn(400)) * time.Millisecond
			}
		case "startRecordingResponse", "recordingRtpStatusChanged":
			if r.Intn(4) == 0 {
				return time.Duration(r.Intn(200)) * time.Millisecond
			}
		}
		return time.Duration(r.Intn(10)) * time.Millisecond
	}
}

// ControlSuite runs random histories of control messages and checks the
// publications, the gauge and the recordings
func ControlSuite(p Params) {
	type kind struct {
		name string
		slow bool
	}
	instances := map[string]string{}
	var im sync.Mutex
	var wg sync.WaitGroup
	for k, kd := range []kind{{"plain", false}, {"slow", true}} {
		wg.Add(1)
		go func(k int, kd kind) {
			defer wg.Done()
			o := EnvOpts{Name: "control-" + kd.name, Conf: Conf{PktTimeout: 60000}}
			if kd.slow {
				// The responses have absolute paths, nevertheless
				o.Conf.DirAs = "./recordings/"
			}
			e := p.env(o)
			if e == nil {
				return
			}
			defer e.Close()
			if kd.slow {
				e.Redis.SetDelay(slowRedis(p.Seed))
			}
			e.CheckGauge("before any session")
			spare, err := NewPeer(PeerOpts{Audio: true})
			if err != nil {
				p.R.Unsure("no peer: %v", err)
				return
			}
			defer spare.Close()
			// Ends which take long, at the same time
			var long sync.WaitGroup
			for i, how := range []string{"mute", "never", "mute"} {
				if how == "never" && (k == 1 || p.Prop == "C05" || p.Race) {
					continue
				}
				long.Add(1)
				go func(i int, how string) {
					defer long.Done()
					rng := p.rng(int64(900000 + k*1000 + i))
					sp := SessionPlan{ID: fmt.Sprintf("long-%d", i), File: fmt.Sprintf("long-%d.webm", i), Form: "legacy", End: how, Offer: PeerOpts{Video: true, Audio: i > 0}}
					sp.Connect = how == "mute"
					if i == 2 {
						sp.Media = NewPlan(rng, PlanOpts{Dur: 2 * time.Second, Loss: "none", Order: "v", Tag: 77})
					}
					s := e.RunSession(rng, sp)
					if s.OK {
						p.R.Case("long "+how, nil)
					}
				}(i, how)
			}
			rounds, actors := p.N, 14
			for round := 0; round < rounds && !e.Dead(); round++ {
				var aw sync.WaitGroup
				for i := 0; i < actors; i++ {
					aw.Add(1)
					go func(i int) {
						defer aw.Done()
						rng := p.rng(int64(k*100000 + round*100 + i))
						a := &actor{e: e, rng: rng, k: i, n: round * 100, ids: sessionIDs(rng, i), spare: spare}
						time.Sleep(time.Duration(rng.Intn(100)) * time.Millisecond)
						for until := time.Now().Add(6 * time.Second); time.Now().Before(until) && !e.Dead(); {
							name := scenarios[rng.Intn(len(scenarios))]
							if a.last == "" && i < len(scenarios) {
								name = scenarios[i]
							}
							if name == "wave" && i%4 != 0 && a.last != "" {
								name = "pipelined"
							}
							a.last = name
							t0 := time.Now()
							a.scenario(name)
							p.R.Max("max_ms_"+name, time.Since(t0).Milliseconds())
							p.R.Case(fmt.Sprint(kd.name, round, i, a.n, name), map[string]interface{}{"history": name, "env": kd.name, "round": round})
							p.R.Count("histories_"+name, 1)
							if rng.Intn(2) == 0 {
								e.R.Count("status_requests", 1)
								e.Status()
							}
						}
					}(i)
				}
				aw.Wait()
				e.Status()
				e.CheckGauge(fmt.Sprintf("after round %d", round))
			}
			long.Wait()
			e.Status()
			e.CheckGauge("after everything")
			im.Lock()
			if o, ok := instances[e.Mon.Instance()]; ok {
				e.Rep("C05", "two processes have the instance id %q (%s, too)", e.Mon.Instance(), o)
			}
			instances[e.Mon.Instance()] = e.Name
			im.Unlock()
		}(k, kd)
	}
	wg.Wait()
}
