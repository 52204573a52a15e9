package e2e

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verif/media"
)

// SessionPlan is what happens to a session
type SessionPlan struct {
	ID, File string
	Media    *Plan  // nil: none
	Form     string // how the request is written: "legacy", "options", "both"
	Adapter  string // "", "mediasoup"
	End      string // "stop", "close", "mute", "stop2", "race", "never", "early"
	// Without media, whether the peer connects at all
	Connect bool
	// Leave the session running after the media
	Linger    time.Duration
	StackNACK bool
	Offer     PeerOpts
	// What is checked beyond what always is
	Flow    bool
	PLI     bool
	NACK    bool
	Tag     string // properties broken, too, if frames are missing
	Lenient bool
	// It is made to fail: only what remains is looked at
	Victim bool
	Prefix bool // it may end in the middle of an element
	// With the LiveKit adapter
	LiveKit bool
	// Called when the media begins and when it is over
	OnBegin func(*Session)
	OnMedia func(*Session)
}

// Session is one that was run
type Session struct {
	Env    *Env
	Plan   SessionPlan
	Peer   *Peer
	Start  *Start
	Out    Outcome
	OK     bool
	StopAt time.Time
	Conf   Conf // when it was started
	// The answer has a candidate of an ICE server
	Relayed bool
	began   time.Time
	// Closed when its end was asked for, if somebody waits for that
	endSent chan struct{}
}

var orderOfFields = []string{"id", "recordingSessionId", "fileName", "adapter", "sdp", "adapterOptions"}

// Message writes the start request
func (sp *SessionPlan) Message(rng *rand.Rand, offer string) string {
	o := map[string]interface{}{"id": "startRecording", "recordingSessionId": sp.ID, "fileName": sp.File}
	if sp.Adapter != "" {
		o["adapter"] = sp.Adapter
	}
	switch sp.Form {
	case "legacy":
		o["sdp"] = offer
	case "both":
		// The one of the options has precedence
		o["sdp"] = "bm90IGFuIG9mZmVy"
		o["adapterOptions"] = map[string]interface{}{"mediasoup": map[string]interface{}{"sdp": offer}}
	default:
		o["adapterOptions"] = map[string]interface{}{"mediasoup": map[string]interface{}{"sdp": offer}}
	}
	return JSON5(rng, o, orderOfFields)
}

func (sp SessionPlan) String() string {
	s := fmt.Sprintf("session %s, file %s, form %s, adapter %q, end %s", sp.ID, sp.File, sp.Form, sp.Adapter, sp.End)
	if sp.Media != nil {
		s += ", " + sp.Media.Desc
	}
	return s
}

func nTracks(o PeerOpts) int {
	n := 0
	if o.Video {
		n++
	}
	if o.Audio {
		n++
	}
	return n
}

// RunSession runs a session from its start request to its end and checks it
func (e *Env) RunSession(rng *rand.Rand, sp SessionPlan) *Session {
	return e.RunSessionConf(rng, sp, e.Conf)
}

// RunSessionConf runs a session with the configuration which is in effect
func (e *Env) RunSessionConf(rng *rand.Rand, sp SessionPlan, conf Conf) *Session {
	s := &Session{Env: e, Plan: sp, Conf: conf}
	rep := func(props, f string, a ...interface{}) {
		e.RepCase(props, sp.String(), "session %s: %s", sp.ID, fmt.Sprintf(f, a...))
	}
	if sp.Media != nil {
		sp.Offer.Video, sp.Offer.Audio = len(sp.Media.Video) > 0, len(sp.Media.Audio) > 0
		sp.Connect = true
	}
	sp.Offer.StackNACK = sp.StackNACK
	if e.Dead() {
		return s
	}
	var err error
	if s.Peer, err = NewPeer(sp.Offer); err != nil {
		e.R.Unsure("no peer: %v", err)
		return s
	}
	defer s.Peer.Close()
	s.Start = &Start{ID: sp.ID, File: sp.File, Tracks: nTracks(sp.Offer), WantOK: true, Why: sp.Form + " request"}
	e.Start(s.Start, sp.Message(rng, s.Peer.Offer))
	p, ok := e.Response(s.Start)
	if !ok || p.Str("status") != "ok" {
		return s
	}
	r := s.Start.Rec
	if want := filepath.Join(s.Conf.Dir, sp.File); r.Path != want && !s.Conf.DevNull {
		rep("C01,C20", "the recording is at %q, not %q", r.Path, want)
	}
	e.R.Count("sessions", 1)
	s.checkPorts(p.Str("sdp"), rep)
	s.began = time.Now()
	if sp.Connect {
		if err := s.Peer.Answer(p.Str("sdp")); err != nil {
			rep("C01,C13", "the answer is not usable: %v", err)
			e.end(s, "stop", rep)
			return s
		}
		if sp.End == "early" {
			// Stopped while it connects
			time.Sleep(time.Duration(rng.Intn(30)) * time.Millisecond)
			e.end(s, "stop", rep)
			return s
		}
		if !s.Peer.Connected(15 * time.Second) {
			if !e.Dead() && e.Mon.IsActive(r) {
				rep("C13,C01", "the peer could not connect with the answer")
			}
			e.end(s, "stop", rep)
			return s
		}
		e.R.Count("connections", 1)
	}
	if sp.OnBegin != nil {
		sp.OnBegin(s)
	}
	stop := make(chan struct{})
	if sp.Media != nil {
		go func() {
			select {
			case <-r.stopped:
				close(stop)
			case <-e.Proc.done:
				close(stop)
			case <-stop:
			}
		}()
		sp.Media.Run(s.Peer, stop)
	}
	if sp.OnMedia != nil {
		sp.OnMedia(s)
	}
	select {
	case <-time.After(sp.Linger):
	case <-r.stopped:
	case <-e.Proc.done:
	}
	if sp.Media != nil {
		// The last packets are on their way
		time.Sleep(300 * time.Millisecond)
	}
	e.end(s, sp.End, rep)
	return s
}

// checkPorts checks that the ports in the answer are those which may be used
func (s *Session) checkPorts(answer string, rep media.Report) {
	b, err := base64.StdEncoding.DecodeString(answer)
	var d struct{ SDP string }
	if err != nil || json.Unmarshal(b, &d) != nil {
		return
	}
	n := 0
	for _, l := range strings.Split(d.SDP, "\n") {
		f := strings.Fields(l)
		if strings.HasPrefix(l, "a=candidate:") && len(f) >= 8 && f[7] == "relay" {
			s.Relayed = true
		}
		if !strings.HasPrefix(l, "a=candidate:") || len(f) < 8 || f[2] != "udp" || f[7] != "host" {
			continue
		}
		n++
		if p, _ := strconv.Atoi(f[5]); p < s.Conf.MinPort || p > s.Conf.MaxPort {
			rep("C22", "it uses the port %d, configured are %d to %d", p, s.Conf.MinPort, s.Conf.MaxPort)
		}
	}
	s.Env.R.Count("candidates", int64(n))
}

// end ends the session and checks what it left
func (e *Env) end(s *Session, how string, rep media.Report) {
	r := s.Start.Rec
	s.StopAt = time.Now()
	if !e.Dead() && !e.Mon.IsActive(r) && !s.Plan.Victim {
		rep("C03", "it ended by itself (%s) %v after its start", r.Reason, r.Ended.Sub(r.Started))
	}
	timeout := Patience
	switch how {
	case "close":
		s.Peer.Close()
	case "mute":
		s.Peer.Mute()
		timeout = 45 * time.Second
	case "server":
		// It is on its way
	case "never":
		timeout = 75 * time.Second
	case "stop2":
		e.Stop(r.ID)
		e.Stop(r.ID)
	case "race":
		// The transport closes while it is stopped
		go s.Peer.Close()
		time.Sleep(time.Duration(time.Now().UnixNano()%4000) * time.Microsecond)
		e.Stop(r.ID)
	default:
		e.Stop(r.ID)
	}
	if s.endSent != nil {
		close(s.endSent)
	}
	if !e.Stopped(r, timeout, "end: "+how) {
		return
	}
	s.OK = true
	e.R.Count("ended_by_"+how, 1)
	e.verify(s, how, rep)
}

func (e *Env) verify(s *Session, how string, rep media.Report) {
	r := s.Start.Rec
	sp := s.Plan
	if s.Conf.DevNull {
		return
	}
	if sp.Victim {
		s.checkVictim(rep)
		return
	}
	exists := r.SnapErr == nil
	var out Outcome
	if sp.Media != nil {
		o := CheckOpts{Stop: s.StopAt, IVF: s.Conf.IVF, Tag: sp.Tag, Lenient: sp.Lenient, Builtin: s.Conf.Builtin, LiveKit: sp.LiveKit}
		if sp.Media.SendError != nil && how != "close" {
			e.R.Note("session %s: %v", sp.ID, sp.Media.SendError)
		}
		out = sp.Media.Check(rep, r.Snapshot, exists, o)
		s.Out = out
		sp.Media.CheckIVFFile(rep, r.Path, out.File, s.Conf.IVF)
		e.R.Count("video_frames_recorded", int64(out.Video))
		e.R.Count("audio_packets_recorded", int64(out.Audio))
		e.R.Count("frames_required", int64(out.MustV+out.MustA))
	} else if exists {
		rep("C17", "nothing was ever received, but there is a file")
	}
	last := int64(0)
	if out.File != nil {
		last = out.File.LastTime()
	}
	if sp.Media != nil && out.File != nil && int64(r.HR) != last {
		rep("C03", "the last frame is at %d ms, recordingStopped says %.0f", last, r.HR)
	}
	if (sp.Media == nil || out.File == nil) && r.HR != 0 {
		rep("C03", "nothing was recorded, recordingStopped says %.0f ms", r.HR)
	}
	if sp.Media != nil && sp.Flow {
		s.checkFlow(rep)
	}
	if sp.Media != nil {
		s.checkRTCP(rep)
	}
	// Nothing changes the file afterwards
	e.later(func() {
		data, err := os.ReadFile(r.Path)
		if (err == nil) != exists || string(data) != string(r.Snapshot) {
			rep("C03", "the file changed after recordingStopped was published: %d bytes, then %d (%v)", len(r.Snapshot), len(data), err)
		}
	})
}

// checkFlow checks the status events against the times at which media was sent
func (s *Session) checkFlow(rep media.Report) {
	r := s.Start.Rec
	p := s.Plan.Media
	evs := s.Env.Mon.Events(r)
	p.m.Lock()
	defer p.m.Unlock()
	type span struct{ from, to time.Time }
	var spans []span
	// What should have been steady was not when it took us that long to send it
	gaps := 0
	track := func(frames []*media.Frame) {
		var cur *span
		for _, f := range frames {
			t, ok := p.first[f]
			if !ok {
				continue
			}
			if cur != nil && t.Sub(cur.to) < 2500*time.Millisecond {
				if t.Sub(cur.to) > 800*time.Millisecond {
					gaps++
				}
				cur.to = p.last[f]
				continue
			}
			spans = append(spans, span{t, p.last[f]})
			cur = &spans[len(spans)-1]
		}
	}
	track(p.Video)
	track(p.Audio)
	// Changes of each track, as they have to be: by the latest time of each
	want := 0
	for _, sp := range spans {
		if s.StopAt.Sub(sp.from) > 2500*time.Millisecond {
			want++
		}
	}
	ups, downs := 0, 0
	for _, f := range evs {
		if f.Flowing {
			ups++
		} else {
			downs++
		}
	}
	s.Env.R.Count("flow_spans", int64(len(spans)))
	if ups < want {
		rep("C21", "%d times media started to flow, %d flowing events: %s", want, ups, r.History())
	}
	// While lost packets are waited for, the recording gets none
	steady := p.Loss == "none" || p.Loss == "reorder"
	stalls := gaps
	if !steady {
		stalls += len(p.Fate)
	}
	if ups > len(spans)+stalls {
		rep("C21", "%d times media started to flow, but there were %d flowing events: %s", len(spans), ups, r.History())
	}
	// How late, and not too early
	for _, sp := range spans {
		n := 0
		began := 0
		for _, o := range spans {
			if !o.from.After(sp.from) {
				began++
			}
		}
		for _, f := range evs {
			if f.Flowing && f.At.Before(sp.from.Add(2*time.Second+200*time.Millisecond)) {
				n++
			}
		}
		if n < began && s.StopAt.Sub(sp.from) > 2500*time.Millisecond {
			rep("C21", "media which started %.2f s after the response was not reported within 2 s: %s", sp.from.Sub(r.Started).Seconds(), r.History())
		}
		n = 0
		for _, f := range evs {
			if f.Flowing && f.At.Before(sp.from.Add(-20*time.Millisecond)) {
				n++
			}
		}
		before := 0
		for _, o := range spans {
			if o.from.Before(sp.from) {
				before++
			}
		}
		if n > before && steady && gaps == 0 {
			rep("C21", "there were %d flowing events before media started the %d. time (%.2f s after the response): %s", n, before+1, sp.from.Sub(r.Started).Seconds(), r.History())
		}
	}
	// Pauses
	ended := 0
	for _, sp := range spans {
		if s.StopAt.Sub(sp.to) > 4500*time.Millisecond {
			ended++
			n := 0
			for _, f := range evs {
				if !f.Flowing && f.At.Before(sp.to.Add(4*time.Second+200*time.Millisecond)) {
					n++
				}
			}
			k := 0
			for _, o := range spans {
				if !o.to.After(sp.to) {
					k++
				}
			}
			if n < k {
				rep("C21", "a pause which began %.2f s after the response was not reported within 4 s: %s", sp.to.Sub(r.Started).Seconds(), r.History())
			}
		}
	}
	if steady && gaps == 0 {
		for _, sp := range spans {
			n, k := 0, 0
			for _, f := range evs {
				if !f.Flowing && f.At.Before(sp.to) {
					n++
				}
			}
			for _, o := range spans {
				if o.to.Before(sp.to) {
					k++
				}
			}
			if n > k {
				rep("C21", "a steady stream was reported as not flowing: %s (media until %.2f s)", r.History(), sp.to.Sub(r.Started).Seconds())
				break
			}
		}
	}
	// Media times: no later than what had been sent of either track
	reached := func(at time.Time) (ms int64) {
		for _, x := range []struct {
			frames []*media.Frame
			rate   int64
		}{{p.Video, 90}, {p.Audio, 48}} {
			var first *media.Frame
			for _, f := range x.frames {
				t, ok := p.first[f]
				if !ok || t.After(at) {
					continue
				}
				if first == nil {
					first = f
				}
				if m := t0(p.first[first], p.began) + int64(int32(f.TS-p.ahead[f]-first.TS+p.ahead[first]))/x.rate; m > ms {
					ms = m
				}
			}
		}
		return
	}
	for _, f := range evs {
		if d := reached(f.At); int64(f.HR) > d+400 || f.HR < 0 {
			rep("C21", "a status event has the media time %.0f ms, when %d ms of media had been sent: %s", f.HR, d, r.History())
			break
		}
	}
	if steady && gaps == 0 {
		s.checkPauseTimes(rep, evs)
	}
}

// checkPauseTimes checks that media which paused is reported with the media time
// it had reached. If there are two tracks, it is that of either.
func (s *Session) checkPauseTimes(rep media.Report, evs []Flow) {
	p := s.Plan.Media
	from := s.Out.FileStart
	if from.IsZero() || s.Out.File == nil {
		return
	}
	for _, f := range evs {
		if f.Flowing || !f.At.Before(s.StopAt) {
			continue
		}
		least := time.Duration(-1)
		for _, frames := range [][]*media.Frame{p.Video, p.Audio} {
			var last, before time.Time
			for _, x := range frames {
				if t, ok := p.last[x]; ok && t.Before(f.At) {
					last, before = t, last
				}
			}
			if before.IsZero() {
				continue
			}
			// The sampler and the jitter buffer may keep the last ones
			d := before.Sub(from) - 600*time.Millisecond
			if s.Plan.LiveKit {
				d -= 400 * time.Millisecond
			}
			for _, x := range []Pause{p.VPause, p.APause} {
				if last.After(p.began.Add(x.At + x.For)) {
					d -= x.For
				}
			}
			if least < 0 || d < least {
				least = d
			}
		}
		if least > 0 {
			s.Env.R.Count("pause_times_checked", 1)
		}
		if int64(f.HR) < least.Milliseconds() {
			rep("C21", "a pause has the media time %.0f ms, when %d ms had been reached: %s", f.HR, least.Milliseconds(), s.Start.Rec.History())
			return
		}
	}
}

// t0 is what a track which began at the time starts at
func t0(t, began time.Time) int64 { return t.Sub(began).Milliseconds() }

// checkRTCP checks the requests which the recorder sent to the peer
func (s *Session) checkRTCP(rep media.Report) {
	p := s.Plan.Media
	for _, t := range []*SentTrack{s.Peer.Video, s.Peer.Audio} {
		if t == nil {
			continue
		}
		asked, never, max, spurious := t.NackStats()
		s.Env.R.Count("packets_held_back", int64(asked+never))
		s.Env.R.Count("packets_asked_for_again", int64(asked))
		s.Env.R.Max("max_requests_for_a_packet", int64(max))
		if s.Plan.StackNACK || s.Plan.LiveKit {
			continue
		}
		if max > 10 {
			rep("C11", "a %s packet was asked for %d times", t.Kind, max)
		}
		if len(spurious) > 0 {
			rep("C11", "%s", strings.Join(spurious, "; "))
		}
		if never > 0 && !p.stopped && s.OK {
			rep("C11", "%d lost %s packets were never asked for (%d were)", never, t.Kind, asked)
		}
	}
	if t := s.Peer.Video; t != nil {
		plis := t.Requests()
		s.Env.R.Count("keyframe_requests", int64(len(plis)))
		p.m.Lock()
		began := p.vBegan
		p.m.Unlock()
		if began.IsZero() || s.Plan.LiveKit {
			// LiveKit's jitter buffer asks on its own
			return
		}
		// At most one per second because of losses, and one every 3 seconds
		for i := range plis {
			for j := i; j < len(plis); j++ {
				d := plis[j].Sub(plis[i]) + 150*time.Millisecond
				if n := j - i + 1; n > int(d/time.Second)+int(d/(3*time.Second))+2 {
					rep("C14", "%d keyframe requests within %v", n, d)
					return
				}
			}
		}
		prev := began
		for _, x := range append(plis, s.StopAt) {
			if d := x.Sub(prev); d > 4*time.Second {
				rep("C14", "no keyframe was requested for %v while video was received", d.Round(time.Millisecond))
				return
			}
			prev = x
		}
	}
}
