package e2e

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Monitor checks everything the recorder publishes, as it is published, against
// what was asked of it
type Monitor struct {
	e    *Env
	m    sync.Mutex
	fifo []*expectation
	// Current recording of each id
	sess map[string]*Recording
	// Everything that is published about these is accounted for elsewhere
	foreign    func(id string) bool
	instance   string
	statuses   int
	loose      bool
	unordered  bool
	unexpected int
}

type expectation struct {
	kind string // "status", "response"
	id   string
	req  *Start
	ch   chan Pub
}

// Recording is what is known about a session
type Recording struct {
	ID       string
	Path     string
	Started  time.Time
	Tracks   int
	Flow     int // flowing events minus not_flowing ones
	Events   []Flow
	Ended    time.Time
	HR       float64
	Reason   string
	Snapshot []byte // the file when it was announced to have stopped
	SnapErr  error
	stopped  chan struct{}
}

// Flow is a status event
type Flow struct {
	At      time.Time
	Flowing bool
	HR      float64
}

// Start is a start request
type Start struct {
	ID       string
	File     string
	Tracks   int
	WantOK   bool
	WantFail bool
	LiveKit  bool
	// The ways in which it would be wrong
	Tag  string
	Why  string
	resp chan Pub
	Rec  *Recording
	At   time.Time
	Path string
}

func NewMonitor(e *Env) *Monitor {
	return &Monitor{e: e, sess: map[string]*Recording{}}
}

// Loose makes the monitor accept what it did not expect (connections are being
// cut, so that requests or messages may get lost)
func (m *Monitor) Loose(v bool) { m.m.Lock(); m.loose = v; m.m.Unlock() }

// Unordered tells that requests are sent from several places at a time, so that
// the order of expectations is not that of the requests
func (m *Monitor) Unordered() { m.m.Lock(); m.unordered = true; m.m.Unlock() }

// Drop drops the expectation of a response
func (m *Monitor) Drop(s *Start) {
	m.m.Lock()
	defer m.m.Unlock()
	for i, x := range m.fifo {
		if x.req == s {
			m.fifo = append(m.fifo[:i:i], m.fifo[i+1:]...)
			return
		}
	}
}

// Forget drops the expectations which are not met yet
func (m *Monitor) Forget() {
	m.m.Lock()
	m.fifo = nil
	m.m.Unlock()
}

func (m *Monitor) Foreign(f func(id string) bool) { m.m.Lock(); m.foreign = f; m.m.Unlock() }

func (m *Monitor) expectStatus() { m.expectStatusCh() }

func (m *Monitor) expectStatusCh() chan Pub {
	x := &expectation{kind: "status", ch: make(chan Pub, 1)}
	m.m.Lock()
	m.fifo = append(m.fifo, x)
	m.m.Unlock()
	return x.ch
}

// Active is the number of recordings which were started and did not end
func (m *Monitor) Active() int {
	m.m.Lock()
	defer m.m.Unlock()
	return len(m.sess)
}

func (m *Monitor) ActiveIDs() string {
	m.m.Lock()
	defer m.m.Unlock()
	var ids []string
	for id := range m.sess {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	if len(ids) > 10 {
		ids = ids[:10]
	}
	return strings.Join(ids, " ")
}

func (m *Monitor) observe(p Pub) {
	m.m.Lock()
	defer m.m.Unlock()
	e := m.e
	e.R.Count("publications", 1)
	if p.Channel == e.Conf.Sub {
		return // the test page's requests
	}
	if p.Channel != e.Conf.Pub {
		e.Rep("C27,C22", "something was published on channel %q: %.200s", p.Channel, p.Data)
		return
	}
	if p.Ev == nil {
		e.Rep("C01,C27", "what was published is no JSON object: %.200q", p.Data)
		return
	}
	if m.foreign != nil && p.ID() != "recorderStatus" && m.foreign(p.Session()) {
		return
	}
	switch p.ID() {
	case "recorderStatus":
		m.status(p)
	case "startRecordingResponse":
		m.response(p)
	case "recordingRtpStatusChanged":
		m.flow(p)
	case "recordingStopped":
		m.stopped(p)
	default:
		e.Rep("C01,C04", "an unknown message was published: %.200s", p.Data)
	}
}

// next returns the expectation which the message answers
func (m *Monitor) next(kind, id string, p Pub) *expectation {
	for i, x := range m.fifo {
		if x.kind == kind && x.id == id {
			if i > 0 && !m.loose && !m.unordered {
				first := m.fifo[0]
				m.e.Rep("C05,C27", "%s %s was published before the %s %s which was requested earlier", kind, id, first.kind, first.id)
			}
			m.fifo = append(m.fifo[:i:i], m.fifo[i+1:]...)
			return x
		}
		if m.loose && kind == "status" && x.kind == kind {
			break
		}
	}
	return nil
}

func (m *Monitor) status(p Pub) {
	e := m.e
	m.statuses++
	x := m.next("status", "", p)
	if x == nil {
		m.unexpected++
		if !m.loose {
			e.Rep("C05,C04", "a recorderStatus was published which nobody asked for")
		}
	}
	v, inst := p.Str("appVersion"), p.Str("instanceId")
	if v != AppVersion {
		e.Rep("C05", "the status has the version %q, not %q", v, AppVersion)
	}
	if inst == "" {
		e.Rep("C05", "the status has no instance id: %s", p.Data)
	}
	if m.instance != "" && inst != m.instance {
		e.Rep("C05", "the instance id changed from %q to %q", m.instance, inst)
	}
	m.instance = inst
	ts, ok := p.Ev["timestamp"].(float64)
	now := float64(p.At.UnixMilli())
	if !ok || ts > now+2000 || ts < now-60000 {
		e.Rep("C05", "the status has the timestamp %v, it is %.0f", p.Ev["timestamp"], now)
	}
	if x != nil {
		x.ch <- p
	}
}

// AppVersion is the one the recorder is built with
const AppVersion = "v9.8.7-verif"

// NewInstance tells that another process takes over
func (m *Monitor) NewInstance() string {
	m.m.Lock()
	defer m.m.Unlock()
	i := m.instance
	m.instance = ""
	m.sess = map[string]*Recording{}
	m.fifo = nil
	return i
}

func (m *Monitor) Instance() string { m.m.Lock(); defer m.m.Unlock(); return m.instance }
func (m *Monitor) Statuses() int    { m.m.Lock(); defer m.m.Unlock(); return m.statuses }

func (m *Monitor) response(p Pub) {
	e := m.e
	id := p.Session()
	x := m.next("response", id, p)
	if x == nil {
		m.unexpected++
		e.Rep("C01,C04", "a response was published for session %q, which has no request pending: %.300s", id, p.Data)
		return
	}
	s := x.req
	status := p.Str("status")
	_, hasSDP := p.Ev["sdp"]
	_, hasErr := p.Ev["error"]
	_, hasFile := p.Ev["fileName"]
	switch status {
	case "ok":
		if hasErr {
			e.Rep("C01", "session %s: the response is ok but has an error: %.300s", id, p.Data)
		}
		sdp, file := p.Str("sdp"), p.Str("fileName")
		if !hasFile || !filepath.IsAbs(file) {
			e.Rep("C01,C20", "session %s: the response has no absolute path: %q", id, file)
		}
		if !hasSDP {
			e.Rep("C01", "session %s: the response has no sdp: %.300s", id, p.Data)
		} else if s.LiveKit && sdp != "" {
			e.Rep("C01,C26", "session %s: the response to a LiveKit request has an answer: %.100q", id, sdp)
		} else if !s.LiveKit {
			if d, err := DecodeSDP(sdp); err != nil || !strings.Contains(d.SDP, "v=0") {
				e.Rep("C01", "session %s: the answer cannot be decoded: %v, %.100q", id, err, sdp)
			}
		}
		if s.WantFail {
			tag := s.Tag
			if tag == "" {
				tag = "C01"
			}
			e.Rep(tag, "session %s: a request which has to be refused (%s) succeeded: %.300s", id, s.Why, p.Data)
		}
		if _, active := m.sess[id]; active {
			if !s.WantFail {
				e.Rep("C02", "session %s was accepted while another recording with its id is active", id)
			}
		}
		s.Rec = &Recording{ID: id, Path: file, Started: p.At, Tracks: s.Tracks, stopped: make(chan struct{})}
		s.Path = file
		m.sess[id] = s.Rec
	case "failed":
		if p.Str("error") == "" {
			e.Rep("C01", "session %s: the response is failed but has no error: %.300s", id, p.Data)
		}
		if hasSDP || hasFile {
			e.Rep("C01", "session %s: the response is failed but has sdp or fileName: %.300s", id, p.Data)
		}
		if s.WantOK {
			tag := "C01"
			if s.Tag != "" {
				tag += "," + s.Tag
			}
			e.Rep(tag, "session %s: a valid request (%s) was refused: %.300s", id, s.Why, p.Data)
		}
	default:
		e.Rep("C01", "session %s: the response has the status %q", id, status)
	}
	s.resp <- p
}

func (m *Monitor) flow(p Pub) {
	e := m.e
	id := p.Session()
	r := m.sess[id]
	if r == nil {
		e.Rep("C01,C03,C02", "recordingRtpStatusChanged was published for session %q, which is not active (before its response, after its end, or it failed): %.300s", id, p.Data)
		return
	}
	hr, ok := p.Ev["timestampHR"].(float64)
	if !ok {
		e.Rep("C21", "session %s: the status event has no timestampHR: %.300s", id, p.Data)
	}
	f := Flow{At: p.At, HR: hr}
	switch p.Str("status") {
	case "flowing":
		f.Flowing = true
		r.Flow++
	case "not_flowing":
		r.Flow--
	default:
		e.Rep("C21", "session %s: the status is %q", id, p.Str("status"))
		return
	}
	r.Events = append(r.Events, f)
	e.R.Count("flow_events", 1)
	if r.Flow < 0 {
		e.Rep("C21", "session %s: there were more not_flowing than flowing events: %s", id, r.History())
		r.Flow = 0
	}
	if r.Flow > r.Tracks {
		e.Rep("C21", "session %s has %d tracks: there were %d more flowing than not_flowing events: %s", id, r.Tracks, r.Flow, r.History())
		r.Flow = r.Tracks
	}
}

// History writes the status events out
func (r *Recording) History() string {
	var s []string
	for _, f := range r.Events {
		w := "-"
		if f.Flowing {
			w = "+"
		}
		s = append(s, fmt.Sprintf("%s%.2fs(HR %.0f)", w, f.At.Sub(r.Started).Seconds(), f.HR))
	}
	return strings.Join(s, " ")
}

func (m *Monitor) stopped(p Pub) {
	e := m.e
	id := p.Session()
	r := m.sess[id]
	if r == nil {
		e.Rep("C03,C02,C01", "recordingStopped was published for session %q, which is not active: %.300s", id, p.Data)
		return
	}
	delete(m.sess, id)
	r.Ended = p.At
	r.Reason = p.Str("reason")
	if r.Reason == "" {
		e.Rep("C03", "session %s: recordingStopped has no reason", id)
	}
	// A zero may be left out
	r.HR, _ = p.Ev["timestampHR"].(float64)
	if p.Ev["timestampHR"] == nil {
		r.HR = 0
	}
	// The file as it is at this moment
	if r.Path != os.DevNull {
		r.Snapshot, r.SnapErr = os.ReadFile(r.Path)
	}
	e.R.Count("recordings_stopped", 1)
	close(r.stopped)
}

// Events returns the status events of a recording so far
func (m *Monitor) Events(r *Recording) []Flow {
	m.m.Lock()
	defer m.m.Unlock()
	return append([]Flow(nil), r.Events...)
}

func (m *Monitor) IsActive(r *Recording) bool {
	m.m.Lock()
	defer m.m.Unlock()
	return m.sess[r.ID] == r
}

// Start sends a start request
func (e *Env) Start(s *Start, msg interface{}) *Start {
	s.resp = make(chan Pub, 1)
	s.At = time.Now()
	m := e.Mon
	e.sendM.Lock()
	defer e.sendM.Unlock()
	m.m.Lock()
	m.fifo = append(m.fifo, &expectation{kind: "response", id: s.ID, req: s})
	m.m.Unlock()
	e.Inject(msg)
	return s
}

// Response waits for the response
func (e *Env) Response(s *Start) (Pub, bool) {
	select {
	case p := <-s.resp:
		return p, true
	default:
	}
	select {
	case p := <-s.resp:
		return p, true
	case <-e.Proc.done:
	case <-time.After(Patience):
	}
	if !e.Dead() {
		// Did it get to this at all?
		e.Hang("C01", "no response to the request for session "+s.ID)
	} else {
		e.Hang("C01", "no response to the request for session "+s.ID)
	}
	return Pub{}, false
}

// Ask sends messages one after the other (see Start for the ones with responses)
func (e *Env) Stop(id string) {
	b, _ := json.Marshal(map[string]interface{}{"id": "stopRecording", "recordingSessionId": id})
	e.Inject(b)
}

// Stopped waits for the end of a recording
func (e *Env) Stopped(r *Recording, timeout time.Duration, why string) bool {
	select {
	case <-r.stopped:
		return true
	case <-time.After(timeout):
	case <-e.Proc.done:
	}
	select {
	case <-r.stopped:
		return true
	default:
	}
	if e.Dead() {
		e.Hang("C03", "no recordingStopped for session "+r.ID)
		return false
	}
	if e.Status() {
		e.Rep("C03", "session %s did not end within %v (%s), while requests are answered", r.ID, timeout, why)
	}
	return false
}
