package e2e

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/livekit/protocol/livekit"
	"github.com/pion/rtp"
	"verif/media"
)

const lkKey, lkSecret = "APIkey123", "secret/+=-0123456789abcdefghijkl"

// lkMessage writes a start request
func lkMessage(rng *rand.Rand, id, file, room string, tracks []string) string {
	return JSON5(rng, map[string]interface{}{"id": "startRecording", "recordingSessionId": id, "fileName": file, "adapter": "livekit",
		"adapterOptions": map[string]interface{}{"livekit": map[string]interface{}{"room": room, "trackIds": tracks}}}, orderOfFields)
}

// LKPlan is a session with the LiveKit adapter
type LKPlan struct {
	SessionPlan
	Room *LKRoom
	Ask  []string // track ids in the request
	// Requests for the same id while it is active, with an offer of this peer
	// and with the same room
	Dup  *Peer
	Want []string // those which exist
	// The media begins before the response is published, which takes long
	Eager bool
	// Another recording with the id follows as soon as it ended: a room to join,
	// or (if nil) an offer of this peer
	Again     *LKRoom
	AgainPeer *Peer
	// Things happen in the room meanwhile
	Noise bool
	// One of the tracks ends before the other, after that time
	EndOf string
	EndAt time.Duration
	// Others record in the room, too, and are told when this one did join
	Joined func()
}

// newLKPlan makes a room and a session in it up
func newLKPlan(rng *rand.Rand, id string, m *Plan) *LKPlan {
	lp := &LKPlan{}
	lp.ID, lp.File, lp.Media, lp.LiveKit = id, id+".webm", m, true
	lp.Room = &LKRoom{Name: fmt.Sprintf("room %s %d", id, rng.Intn(1000))}
	n := 1 + rng.Intn(3)
	for i := 0; i < n; i++ {
		lp.Room.Participants = append(lp.Room.Participants, LKParticipant{SID: fmt.Sprintf("PA_%s_%d", id, i), Identity: fmt.Sprintf("user-%d", i)})
	}
	sid := 0
	add := func(kind string, ask bool) {
		sid++
		t := LKTrack{SID: fmt.Sprintf("TR_%s%d%c", kind[:1], sid, 'A'+rng.Intn(26)), Kind: kind}
		p := &lp.Room.Participants[rng.Intn(n)]
		p.Tracks = append(p.Tracks, t)
		if ask {
			lp.Ask = append(lp.Ask, t.SID)
			lp.Want = append(lp.Want, t.SID)
		}
	}
	for i := rng.Intn(3); i > 0; i-- {
		add(pick(rng, "video", "audio"), false)
	}
	if len(m.Video) > 0 {
		add("video", true)
	}
	for i := rng.Intn(2); i > 0; i-- {
		add(pick(rng, "video", "audio"), false)
	}
	if len(m.Audio) > 0 {
		add("audio", true)
	}
	if rng.Intn(4) == 0 {
		lp.Ask = append(lp.Ask, "TR_nosuchtrack")
	}
	rng.Shuffle(len(lp.Ask), func(i, j int) { lp.Ask[i], lp.Ask[j] = lp.Ask[j], lp.Ask[i] })
	return lp
}

// endFirst has the track of the kind end early
func (lp *LKPlan) endFirst(rng *rand.Rand, kind string) {
	m := lp.Media
	frames, start, rate := &m.Video, m.VStart, int64(90000)
	if kind == "audio" {
		frames, start, rate = &m.Audio, m.AStart, 48000
	}
	for _, p := range lp.Room.Participants {
		for _, t := range p.Tracks {
			if t.Kind == kind && slices.Contains(lp.Want, t.SID) {
				lp.EndOf = t.SID
			}
		}
	}
	*frames = (*frames)[:len(*frames)/2+rng.Intn(len(*frames)/4)]
	held := time.Duration(0)
	for _, f := range *frames {
		for _, q := range append(append([]*rtp.Packet(nil), f.Pads...), f.Pkts...) {
			held = max(held, m.Hold[q])
		}
	}
	lp.EndAt = held + start + time.Duration((*frames)[len(*frames)-1].Ticks)*time.Second/time.Duration(rate) + time.Duration(20+rng.Intn(40))*time.Millisecond
	// For the ends of both tracks to be reported
	lp.Linger = 5 * time.Second
	m.Desc += fmt.Sprintf(", %s ends after %v", kind, lp.EndAt)
}

// holdHead has the first packet of the video come after the next ones of its frame
func (p *Plan) holdHead(rng *rand.Rand) {
	pkts := p.Video[0].Pkts
	if len(pkts) < 2 || len(p.Video[0].Pads) > 0 {
		return
	}
	n := 1 + rng.Intn(min(3, len(pkts)-1))
	for i, q := range pkts[:n] {
		p.Hold[q] = time.Duration(5+i+rng.Intn(30)) * time.Millisecond
	}
	if rng.Intn(3) > 0 {
		d := uint16(rng.Intn(2)) - pkts[n].SequenceNumber
		for _, f := range p.Video {
			for _, q := range append(append([]*rtp.Packet(nil), f.Pads...), f.Pkts...) {
				q.SequenceNumber += d
			}
		}
	}
	p.Desc += fmt.Sprintf(", the first %d packets are held back (%d)", n, pkts[0].SequenceNumber)
}

// spareKeyframes leaves alone what is sent shortly before keyframes, as the
// jitter buffer, which goes by RTP time, may drop more than what was lost
func (p *Plan) spareKeyframes(d time.Duration) {
	last := int64(-1)
	for i := len(p.Video) - 1; i >= 0; i-- {
		f := p.Video[i]
		if f.Key {
			last = f.Ticks
			continue
		}
		if last >= 0 && last-f.Ticks < int64(d.Milliseconds())*90 {
			for _, q := range append(append([]*rtp.Packet(nil), f.Pads...), f.Pkts...) {
				if p.Fate[q] != 0 {
					delete(p.Fate, q)
				}
			}
		}
	}
}

// loseHeads loses first packets of consecutive frames, and perhaps the very
// first one
func (p *Plan) loseHeads(rng *rand.Rand) {
	for i := 2 + rng.Intn(3); i+7 < len(p.Video); i += 6 + rng.Intn(3) {
		if f := p.Video[i]; len(f.Pkts) > 2 && !f.Key {
			p.Fate[f.Pkts[len(f.Pkts)/2]] = -1
		}
		for _, f := range p.Video[i+3 : i+5] {
			if len(f.Pkts) > 1 && !f.Key {
				p.Fate[f.Pkts[0]] = -1
			}
		}
	}
}

// loseFirst loses the first packet
func (p *Plan) loseFirst() {
	p.Lossless = false
	p.Fate[p.Video[0].Pkts[0]] = -1
	p.Desc += ", the first packet is lost"
}

// bound waits until all requested tracks which exist can be sent
func (lp *LKPlan) bound(srv *LKServer, c *LKConn) bool {
	return srv.wait(15*time.Second, func() bool {
		for _, t := range lp.Want {
			if !c.bound[t] {
				return false
			}
		}
		return true
	})
}

// peer is what the media is sent with
func (lp *LKPlan) peer(srv *LKServer, c *LKConn) *Peer {
	srv.m.Lock()
	defer srv.m.Unlock()
	for _, t := range lp.Want {
		if st := c.tracks[t]; st != nil && st.Kind == "video" {
			c.Peer.Video = st
		} else if st != nil {
			c.Peer.Audio = st
		}
	}
	return c.Peer
}

// runEager has things happen before the response is published: nothing about
// the session may come before it, and nothing that happened gets lost
func (e *Env) runEager(rng *rand.Rand, srv *LKServer, lp *LKPlan, s *Session, rep media.Report) *Session {
	sp := lp.SessionPlan
	leave := strings.HasPrefix(sp.End, "leave")
	delay := time.Duration(800+rng.Intn(700)) * time.Millisecond
	e.slow.Store(sp.ID, delay)
	stop := make(chan struct{})
	finished := make(chan time.Time, 1)
	wait := time.Duration(rng.Intn(500)) * time.Millisecond
	go func() {
		var at time.Time
		defer func() { finished <- at }()
		if !srv.wait(Patience, func() bool { return len(lp.Room.conns) > 0 }) {
			return
		}
		c := srv.Conns(lp.Room)[0]
		if !lp.bound(srv, c) {
			return
		}
		p := lp.peer(srv, c)
		if !leave {
			time.Sleep(300 * time.Millisecond)
			at = time.Now()
			s.Peer = p
			sp.Media.Run(p, stop)
			return
		}
		time.Sleep(wait)
		at = time.Now()
		c.Leave(pick(rng, livekit.DisconnectReason_ROOM_DELETED, livekit.DisconnectReason_DUPLICATE_IDENTITY))
	}()
	e.Start(s.Start, lkMessage(rng, sp.ID, sp.File, lp.Room.Name, lp.Ask))
	p, ok := e.Response(s.Start)
	answered := time.Now()
	if !ok || p.Str("status") != "ok" {
		close(stop)
		return s
	}
	r := s.Start.Rec
	e.R.Count("livekit_sessions", 1)
	s.began = answered
	if !leave {
		go func() {
			select {
			case <-r.stopped:
				close(stop)
			case <-e.Proc.done:
				close(stop)
			case <-stop:
			}
		}()
	}
	at := <-finished
	if at.IsZero() {
		rep("C26", "the tracks %v were requested and not subscribed to", lp.Ask)
		e.end(s, "stop", rep)
		return s
	}
	if at.Before(answered) {
		e.R.Count("livekit_events_before_the_response", 1)
	}
	if leave {
		s.StopAt = at
		if !e.Stopped(r, Patience, "the server ended it before the response") {
			if !e.Dead() {
				rep("C03", "the server ended it before the response, but it goes on")
			}
			return s
		}
		s.OK = true
		if r.SnapErr == nil || r.HR != 0 {
			rep("C03,C17", "nothing was received, but there is a file, or the end is at %.0f ms", r.HR)
		}
		return s
	}
	select {
	case <-time.After(sp.Linger + 300*time.Millisecond):
	case <-r.stopped:
	case <-e.Proc.done:
	}
	e.R.Count("livekit_packets_recovered_late", int64(sp.Media.MarkLate(s.Peer.Video, 160*time.Millisecond)))
	e.end(s, sp.End, rep)
	return s
}

// lkShared records several times in a room, in which the tracks of all are
func (e *Env) lkShared(rng *rand.Rand, srv *LKServer, k int) {
	room := &LKRoom{Name: fmt.Sprintf("shared room %d", k), Unique: true}
	var lps []*LKPlan
	var ready []chan struct{}
	for i := 0; i < 2+rng.Intn(2); i++ {
		o := PlanOpts{Tag: uint32(700 + 10*k + i), Order: pick(rng, "v", "a", "av", "va"), Loss: "none", Dur: 3 * time.Second, LiveKit: true}
		lp := newLKPlan(rng, fmt.Sprintf("shared-session-%d-%d", k, i), NewPlan(rng, o))
		if rng.Intn(2) == 0 {
			// A letter is in the other case
			lp.ID = fmt.Sprintf("%s-session-%d", []string{"shared", "Shared", "sharEd"}[i], k)
		}
		sids := func(ts []string) {
			for j := range ts {
				ts[j] += fmt.Sprint("_", i)
			}
		}
		sids(lp.Ask)
		sids(lp.Want)
		for _, pa := range lp.Room.Participants {
			pa.SID += fmt.Sprint("_", i)
			pa.Identity += fmt.Sprint(" of ", i)
			for j := range pa.Tracks {
				pa.Tracks[j].SID += fmt.Sprint("_", i)
			}
			room.Participants = append(room.Participants, pa)
		}
		joined := make(chan struct{})
		lp.Flow, lp.End, lp.Joined = true, pick(rng, "stop", "stop", "leave"), sync.OnceFunc(func() { close(joined) })
		lps, ready = append(lps, lp), append(ready, joined)
	}
	rng.Shuffle(len(room.Participants), func(i, j int) {
		room.Participants[i], room.Participants[j] = room.Participants[j], room.Participants[i]
	})
	srv.Add(room)
	var wg sync.WaitGroup
	for i, lp := range lps {
		lp.Room = room
		wg.Add(1)
		go func(rng *rand.Rand) {
			defer wg.Done()
			if i > 0 {
				<-ready[i-1]
				time.Sleep(time.Duration(rng.Intn(1000)) * time.Millisecond)
			}
			defer lp.Joined()
			if s := e.RunLK(rng, srv, lp); s.OK {
				e.R.Count("sessions_in_shared_rooms", 1)
				e.R.Case(fmt.Sprint("shared ", k, i, lp.Media.Desc), map[string]interface{}{"plan": lp.Media.Desc, "room": room.infos(), "asked_for": lp.Ask, "ended_by": lp.End, "video": s.Out.Video, "audio": s.Out.Audio})
			}
		}(rand.New(rand.NewSource(rng.Int63())))
	}
	wg.Wait()
}

// again records with the same id once a recording has ended
func (e *Env) again(rng *rand.Rand, srv *LKServer, lp *LKPlan, r *Recording) {
	select {
	case <-r.stopped:
	case <-time.After(Patience):
		// Reported by those who wait for its end
		return
	case <-e.Proc.done:
		return
	}
	s := &Start{ID: r.ID, File: "again-" + lp.File, Tracks: 1, WantOK: true, Tag: "C02,C26", Why: "request as soon as a LiveKit recording with the id ended"}
	msg := ""
	if lp.Again != nil {
		srv.Add(lp.Again)
		s.LiveKit = true
		msg = lkMessage(rng, s.ID, s.File, lp.Again.Name, []string{lp.Again.Participants[0].Tracks[0].SID})
	} else {
		msg = (&SessionPlan{ID: s.ID, File: s.File, Form: "options", Adapter: pick(rng, "", "mediasoup")}).Message(rng, lp.AgainPeer.Offer)
	}
	e.Start(s, msg)
	if _, ok := e.Response(s); !ok || s.Rec == nil {
		return
	}
	e.R.Count("ids_used_again", 1)
	time.Sleep(time.Duration(rng.Intn(1500)) * time.Millisecond)
	if !e.Mon.IsActive(s.Rec) && !e.Dead() {
		e.Rep("C02,C03,C26", "session %s: the recording which followed a LiveKit recording with the same id ended (%s)", s.ID, s.Rec.Reason)
	}
	e.Stop(s.ID)
	if e.Stopped(s.Rec, Patience, "stop") && (s.Rec.SnapErr == nil || s.Rec.HR != 0) {
		e.Rep("C02,C03,C26", "session %s: nothing was sent after it was started again, but there is a file, or the end is at %.0f ms", s.ID, s.Rec.HR)
	}
}

// RunLK runs a session with the LiveKit adapter
func (e *Env) RunLK(rng *rand.Rand, srv *LKServer, lp *LKPlan) *Session {
	sp := lp.SessionPlan
	s := &Session{Env: e, Plan: sp, Conf: e.Conf}
	rep := func(props, f string, a ...interface{}) {
		if !strings.Contains(props, "C26") {
			props += ",C26"
		}
		e.RepCase(props, fmt.Sprintf("room %+v, asks for %v, %s", *lp.Room, lp.Ask, sp), "LiveKit session %s: %s", sp.ID, fmt.Sprintf(f, a...))
	}
	if e.Dead() {
		return s
	}
	srv.Add(lp.Room)
	s.Start = &Start{ID: sp.ID, File: sp.File, Tracks: len(lp.Want), WantOK: true, LiveKit: true, Tag: "C26", Why: "LiveKit request"}
	if lp.Eager {
		return e.runEager(rng, srv, lp, s, rep)
	}
	e.Start(s.Start, lkMessage(rng, sp.ID, sp.File, lp.Room.Name, lp.Ask))
	p, ok := e.Response(s.Start)
	conns := srv.take(lp.Room)
	if lp.Joined != nil {
		lp.Joined()
	}
	if !ok || p.Str("status") != "ok" {
		return s
	}
	r := s.Start.Rec
	e.R.Count("livekit_sessions", 1)
	if want := filepath.Join(e.Conf.Dir, sp.File); r.Path != want {
		rep("C01,C20", "the recording is at %q, not %q", r.Path, want)
	}
	if lp.Again != nil || lp.AgainPeer != nil {
		again := make(chan struct{})
		rng := rand.New(rand.NewSource(rng.Int63()))
		s.endSent = make(chan struct{})
		go func() {
			defer close(again)
			// A late stop would be one of the next recording
			select {
			case <-s.endSent:
			case <-e.Proc.done:
				return
			}
			e.again(rng, srv, lp, r)
		}()
		defer func() { <-again }()
	}
	if len(conns) != 1 {
		rep("C26", "it was started, but the room was joined %d times", len(conns))
		e.end(s, "stop", rep)
		return s
	}
	c := conns[0]
	if !strings.Contains(c.Query, "auto_subscribe=0") {
		rep("C26", "it subscribes to all tracks: %s", c.Query)
	}
	want := map[string]bool{}
	for _, t := range lp.Want {
		want[t] = true
	}
	if !lp.bound(srv, c) {
		rep("C26", "the tracks %v were requested, it subscribed to %v", lp.Ask, c.Subscribed())
		e.end(s, "stop", rep)
		return s
	}
	s.Peer = lp.peer(srv, c)
	s.began = time.Now()
	stop := make(chan struct{})
	go func() {
		select {
		case <-r.stopped:
			close(stop)
		case <-e.Proc.done:
			close(stop)
		case <-stop:
		}
	}()
	// Packets which arrive before the track is bound are lost
	time.Sleep(300 * time.Millisecond)
	var dups sync.WaitGroup
	if lp.Dup != nil {
		rng := rand.New(rand.NewSource(rng.Int63()))
		dups.Add(1)
		go func() {
			defer dups.Done()
			e.duplicates(rng, r, sp.Media.Dur(),
				(&SessionPlan{ID: sp.ID, File: "dup-" + sp.File, Form: "options", Adapter: "mediasoup"}).Message(rng, lp.Dup.Offer),
				lkMessage(rng, sp.ID, "dup-"+sp.File, lp.Room.Name, lp.Ask))
		}()
	}
	quiet := make(chan struct{})
	if lp.Noise {
		rng := rand.New(rand.NewSource(rng.Int63()))
		dups.Add(1)
		go func() {
			defer dups.Done()
			e.R.Count("livekit_room_events", int64(c.Noise(rng, lp.Want, quiet)))
		}()
	}
	if lp.EndOf != "" {
		t := time.AfterFunc(lp.EndAt, func() {
			e.R.Count("livekit_tracks_ended", 1)
			c.Unpublish(lp.EndOf)
		})
		defer t.Stop()
	}
	sp.Media.Run(s.Peer, stop)
	close(quiet)
	dups.Wait()
	select {
	case <-time.After(sp.Linger + 300*time.Millisecond):
	case <-r.stopped:
	case <-e.Proc.done:
	}
	for _, t := range c.Subscribed() {
		if !want[t] {
			rep("C26", "it subscribed to the track %s, which was not requested (%v)", t, lp.Ask)
		}
	}
	e.R.Count("livekit_packets_recovered_late", int64(sp.Media.MarkLate(s.Peer.Video, 160*time.Millisecond)))
	ended := sp.End
	switch sp.End {
	case "leave":
		// The server ends it
		s.StopAt = time.Now()
		if !e.Mon.IsActive(r) && !e.Dead() {
			rep("C03", "it ended by itself (%s)", r.Reason)
		}
		c.Leave(pick(rng, livekit.DisconnectReason_ROOM_DELETED, livekit.DisconnectReason_PARTICIPANT_REMOVED, livekit.DisconnectReason_DUPLICATE_IDENTITY, livekit.DisconnectReason_SERVER_SHUTDOWN))
		ended = "server"
	case "leave+stop":
		s.StopAt = time.Now()
		c.Leave(livekit.DisconnectReason_ROOM_DELETED)
		time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
		e.Stop(r.ID)
		ended = "server"
	}
	if ended == "server" {
		if s.endSent != nil {
			close(s.endSent)
		}
		if !e.Stopped(r, Patience, "end: "+sp.End) {
			if !e.Dead() {
				rep("C03", "the server ended it, but it goes on")
			}
			return s
		}
		s.OK = true
		e.R.Count("ended_by_"+sp.End, 1)
		e.verify(s, sp.End, rep)
	} else {
		e.end(s, ended, rep)
	}
	if !s.OK {
		return s
	}
	if !srv.wait(10*time.Second, func() bool { return !c.closed.IsZero() }) && !e.Dead() {
		rep("C26,C08", "it did not leave the room within 10 s of its end (%s)", sp.End)
	}
	srv.m.Lock()
	left := !c.left.IsZero()
	n := 0
	for _, o := range lp.Room.conns {
		if o.Identity == c.Identity {
			n++
		}
	}
	srv.m.Unlock()
	if !left && (sp.End == "stop" || sp.End == "stop2") {
		rep("C26", "it did not tell that it leaves the room")
	}
	if n != 1 {
		rep("C26", "it joined the room %d times", n)
	}
	if len(sp.Media.Video) > 0 && sp.Media.Loss == "perm" {
		s.checkResume(rep)
	}
	return s
}

// duplicates sends requests for the id of a recording while it is active
func (e *Env) duplicates(rng *rand.Rand, r *Recording, d time.Duration, msgs ...string) {
	if len(msgs) == 0 || d > 3*time.Second {
		d = 3 * time.Second
	}
	rng.Shuffle(len(msgs), func(i, j int) { msgs[i], msgs[j] = msgs[j], msgs[i] })
	for _, m := range msgs {
		time.Sleep(time.Duration(rng.Int63n(int64(d)/int64(len(msgs)) + 1)))
		if !e.Mon.IsActive(r) || e.Dead() {
			return
		}
		s := &Start{ID: r.ID, WantFail: true, Tag: "C02,C26", Why: "id in use, either adapter"}
		e.Start(s, m)
		if _, ok := e.Response(s); !ok {
			return
		}
		e.R.Count("duplicate_starts", 1)
	}
}

// checkResume checks that a keyframe is requested after a loss, unless one
// comes before it is noticed
func (s *Session) checkResume(rep media.Report) {
	p := s.Plan.Media
	plis := s.Peer.Video.Requests()
	p.m.Lock()
	defer p.m.Unlock()
	for i, f := range p.Video {
		t, sent := p.last[f]
		lost := false
		for _, q := range f.Pkts {
			lost = lost || p.Fate[q] < 0
		}
		if !lost || !sent || s.StopAt.Sub(t) < 3*time.Second {
			continue
		}
		key := false
		for _, g := range p.Video[i+1:] {
			x, ok := p.last[g]
			if !ok || x.Sub(t) > 2500*time.Millisecond {
				break
			}
			if g.Key {
				key = true
			}
		}
		if key {
			continue
		}
		asked := false
		for _, x := range plis {
			asked = asked || x.After(t) && x.Sub(t) < 2500*time.Millisecond
		}
		s.Env.R.Count("losses_without_a_keyframe_soon", 1)
		if !asked {
			rep("C14", "no keyframe was requested within 2.5 s of the loss in frame %d", f.Idx)
			return
		}
	}
}

// LiveKitSuite records from a LiveKit server
func LiveKitSuite(p Params) {
	srv, err := NewLKServer(lkKey, lkSecret)
	if err != nil {
		p.R.Unsure("no LiveKit server: %v", err)
		return
	}
	defer srv.Close()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); lkRefusals(p, srv) }()
	go func() { defer wg.Done(); lkMedia(p, srv) }()
	wg.Wait()
	for _, x := range srv.Rejected {
		if !strings.Contains(x, "no room \"none") {
			p.R.Violate("C26", nil, "the server rejected a connection: %s", x)
		}
	}
}

// responseTo is the session of a response
func responseTo(data []byte) string {
	var m struct{ Id, RecordingSessionId string }
	if json.Unmarshal(data, &m) != nil || m.Id != "startRecordingResponse" {
		return ""
	}
	return m.RecordingSessionId
}

func lkMedia(p Params, srv *LKServer) {
	e := p.env(EnvOpts{Name: "livekit", Conf: Conf{PktTimeout: 60000, LiveKitHost: "ws://" + srv.Addr, LiveKitKey: lkKey, LiveKitSecret: lkSecret, IVF: p.Prop == "C19"}})
	if e == nil {
		return
	}
	defer e.Close()
	slow := slowRedis(p.Seed)
	e.Redis.SetDelay(func(ch string, data []byte) time.Duration {
		if ev, ok := e.slow.Load(responseTo(data)); ok {
			return ev.(time.Duration)
		}
		return slow(ch, data)
	})
	spare, err := NewPeer(PeerOpts{Audio: true})
	if err != nil {
		p.R.Unsure("no peer: %v", err)
		return
	}
	defer spare.Close()
	for from := 0; from < p.N && !e.Dead(); from += 16 {
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.lkShared(p.rng(int64(600+from)), srv, from/16)
		}()
		for i := from; i < p.N && i < from+16; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				rng := p.rng(int64(i))
				time.Sleep(time.Duration(rng.Intn(2500)) * time.Millisecond)
				if i%8 == 7 {
					// Next to the other kind
					sp := SessionPlan{ID: fmt.Sprintf("ms-%d", i), File: fmt.Sprintf("ms-%d.webm", i), Form: "options", End: "stop",
						Media: NewPlan(rng, PlanOpts{Loss: "none", Tag: uint32(i + 1)}), Tag: "C26"}
					room := &LKRoom{Name: fmt.Sprint("not joined ", i), Participants: []LKParticipant{{SID: "PA_n", Identity: "n", Tracks: []LKTrack{{"TR_n", "audio"}}}}}
					srv.Add(room)
					var dups sync.WaitGroup
					sp.OnBegin = func(s *Session) {
						rng := rand.New(rand.NewSource(rng.Int63()))
						dups.Add(1)
						go func() {
							defer dups.Done()
							e.duplicates(rng, s.Start.Rec, sp.Media.Dur(), lkMessage(rng, sp.ID, "dup-"+sp.File, room.Name, []string{"TR_n"}), lkMessage(rng, sp.ID, "dup-"+sp.File, room.Name, []string{"TR_n"}))
							if n := len(srv.Conns(room)); n > 0 {
								e.Rep("C02,C26", "a room was joined for a request with an id in use")
							}
						}()
					}
					sp.OnMedia = func(*Session) { dups.Wait() }
					if s := e.RunSession(rng, sp); s.OK {
						p.R.Case(fmt.Sprint("mediasoup", i), nil)
					}
					return
				}
				o := PlanOpts{Tag: uint32(i + 1), Order: pick(rng, "v", "a", "av", "va"), Loss: pick(rng, "none", "none", "perm", "reorder", "recover1"), Dur: 5 * time.Second}
				if o.Loss == "perm" {
					o.Order = pick(rng, "v", "v", "av")
					o.KeyGap = pick(rng, time.Second, 2*time.Second, 3500*time.Millisecond)
					o.Dur = 8 * time.Second
				}
				if i%5 == 4 && o.Loss == "none" {
					o.Pause, o.PauseOf, o.PauseTS = 5*time.Second, pick(rng, "", "", "a", "v"), rng.Intn(2) == 0
				}
				if i%16 == 8 {
					// A track ends, see below
					o.Order, o.Loss, o.Pause = pick(rng, "av", "va"), pick(rng, "none", "reorder"), 0
				}
				if i%16 == 2 {
					// Eager, see below
					o.Order, o.Loss, o.Dur = pick(rng, "av", "va"), "none", 5*time.Second
				}
				switch i % 8 {
				case 3:
					// The jitter buffer has few frames to go by
					o = PlanOpts{Tag: o.Tag, Order: "v", Loss: "heads", Dur: 10 * time.Second, FPS: pick(rng, 3, 4), KeyGap: 4500 * time.Millisecond}
				case 5:
					o = PlanOpts{Tag: o.Tag, Order: "v", Loss: "none", Dur: 6 * time.Second, KeyGap: 1500 * time.Millisecond}
				}
				o.LiveKit = true
				m := NewPlan(rng, o)
				switch i % 8 {
				case 3:
					m.loseHeads(rng)
				case 5:
					m.loseFirst()
				}
				head := m.Loss != "perm" && i%8 != 3 && i%8 != 5 && len(m.Video) > 0 && rng.Intn(2) == 0
				if head {
					m.holdHead(rng)
				}
				m.spareKeyframes(400 * time.Millisecond)
				lp := newLKPlan(rng, fmt.Sprintf("lk-%d", i), m)
				lp.Flow = true
				if i%3 == 1 {
					lp.Dup = spare
				}
				lp.End = pick(rng, "stop", "stop", "stop2", "leave", "leave+stop")
				lp.Room.Mode = pick(rng, "", "", "", "", "", "", "", "slow")
				if o.Pause > 0 {
					lp.Linger = 5 * time.Second
				} else if len(m.Video) > 0 && len(m.Audio) > 0 && m.Lossless && (i%16 == 8 || rng.Intn(2) == 0) {
					lp.endFirst(rng, pick(rng, "video", "audio"))
				}
				lp.Noise = rng.Intn(2) == 0
				switch k := i % 16; k {
				case 2, 12:
					lp.Eager = true
					lp.Room.Mode = ""
					lp.End = pick(rng, "stop", "stop2")
					if k == 12 {
						lp.End = "leave"
					}
				case 0, 6, 10:
					lp.AgainPeer = spare
				case 4, 9, 14:
					lp.Again = &LKRoom{Name: "again " + lp.ID, Participants: []LKParticipant{{SID: "PA_a", Identity: "a", Tracks: []LKTrack{{"TR_again", pick(rng, "video", "audio")}}}}}
				}
				s := e.RunLK(rng, srv, lp)
				if s.OK {
					p.R.Case(fmt.Sprint(i, m.Desc), map[string]interface{}{"plan": m.Desc, "room": lp.Room.infos(), "asked_for": lp.Ask, "ended_by": lp.End, "video": s.Out.Video, "audio": s.Out.Audio})
				}
			}(i)
		}
		wg.Wait()
		e.Status()
		e.CheckGauge("after LiveKit sessions")
	}
}

// lkRefusals joins rooms which cannot be joined
func lkRefusals(p Params, srv *LKServer) {
	type kind struct {
		name, host, key, secret string
	}
	other, err := NewLKServer("other", "other-secret-0123456789012345678901")
	if err != nil {
		p.R.Unsure("no LiveKit server: %v", err)
		return
	}
	defer other.Close()
	var wg sync.WaitGroup
	for k, kd := range []kind{
		{"good", "ws://" + srv.Addr, lkKey, lkSecret},
		{"unreachable", fmt.Sprintf("ws://127.0.0.1:%d", FreePort()), lkKey, lkSecret},
		{"credentials", "http://" + other.Addr, "other", "wrong-secret-01234567890123456789012"},
	} {
		wg.Add(1)
		go func(k int, kd kind) {
			defer wg.Done()
			e := p.env(EnvOpts{Name: "refused-" + kd.name, Conf: Conf{PktTimeout: 60000, LiveKitHost: kd.host, LiveKitKey: kd.key, LiveKitSecret: kd.secret}})
			if e == nil {
				return
			}
			defer e.Close()
			rng := p.rng(int64(500 + k))
			// This one goes on meanwhile
			var bg sync.WaitGroup
			bg.Add(1)
			go func(rng *rand.Rand) {
				defer bg.Done()
				e.RunSession(rng, SessionPlan{ID: "bg", File: "bg.webm", Form: "options", End: "stop", Tag: "C26",
					Media: NewPlan(rng, PlanOpts{Loss: "none", Tag: 99, Dur: 3 * time.Second})})
			}(rand.New(rand.NewSource(rng.Int63())))
			time.Sleep(300 * time.Millisecond)
			modes := []string{"404", "503", "close", "garbage", "leave", "none", "404"}
			if k == 0 && (p.Thorough || p.Seed%2 == 0) {
				modes = append(modes, "nooffer")
			}
			if k > 0 {
				modes = []string{"", "", ""}
			}
			for i, mode := range modes {
				id := fmt.Sprintf("refused-%d", i%3)
				room := &LKRoom{Name: fmt.Sprintf("%s-%s-%d-%d", "none", mode, k, i), Mode: mode, Participants: []LKParticipant{{SID: "PA_x", Identity: "x", Tracks: []LKTrack{{"TR_x", "video"}}}}}
				if mode != "none" {
					room.Name = "refusing " + room.Name[5:]
					srv.Add(room)
					other.Add(room)
				}
				s := &Start{ID: id, File: id + ".webm", WantFail: true, LiveKit: true, Tag: "C26", Why: "room with the fault " + mode + ", " + kd.name}
				e.Start(s, lkMessage(rng, id, s.File, room.Name, []string{"TR_x"}))
				q, ok := e.Response(s)
				if !ok {
					break
				}
				if q.Str("status") == "ok" {
					e.Stop(id)
					e.Stopped(s.Rec, Patience, "stop")
				}
				p.R.Count("refused_livekit_starts", 1)
				p.R.Case(fmt.Sprint("refused ", kd.name, mode), nil)
				if k == 1 || rng.Intn(2) == 0 {
					e.Status()
				}
			}
			if k == 0 {
				lkIncomplete(rng, e, srv)
			}
			bg.Wait()
			if k == 1 {
				lkReload(rng, e, srv, other)
			}
			// Others are served, and the id and the file name are free
			spare, err := NewPeer(PeerOpts{Audio: true})
			if err != nil {
				return
			}
			defer spare.Close()
			s := &Start{ID: "refused-0", File: "refused-0.webm", Tracks: 1, WantOK: true, Tag: "C26", Why: "request after refused ones"}
			e.Start(s, (&SessionPlan{ID: s.ID, File: s.File, Form: "legacy"}).Message(nil, spare.Offer))
			if _, ok := e.Response(s); ok && s.Rec != nil {
				e.Stop(s.ID)
				e.Stopped(s.Rec, Patience, "stop")
			}
			e.CheckGauge("after refused LiveKit requests")
		}(k, kd)
	}
	wg.Wait()
}

// lkIncomplete sends requests which lack something, for rooms which could be
// joined nevertheless. An offer is no substitute.
func lkIncomplete(rng *rand.Rand, e *Env, srv *LKServer) {
	peer, err := NewPeer(PeerOpts{Audio: true})
	if err != nil {
		return
	}
	defer peer.Close()
	name := fmt.Sprintf("incomplete %d", rng.Intn(1000))
	for _, n := range []string{name, ""} {
		srv.Add(&LKRoom{Name: n, Participants: []LKParticipant{{SID: "PA_i", Identity: "i", Tracks: []LKTrack{{"TR_i", "audio"}}}}})
	}
	type o = map[string]interface{}
	offer := o{"sdp": peer.Offer}
	all := []struct {
		why     string
		options interface{}
	}{
		{"null options", nil},
		{"options of the other adapter only", o{"mediasoup": offer}},
		{"null livekit options", o{"livekit": nil, "mediasoup": offer}},
		{"no room", o{"livekit": o{"trackIds": []string{"TR_i"}}}},
		{"an empty room name", o{"livekit": o{"room": "", "trackIds": []string{"TR_i"}}, "mediasoup": offer}},
		{"no tracks", o{"livekit": o{"room": name}}},
		{"an empty list of tracks", o{"livekit": o{"room": name, "trackIds": []string{}}}},
		{"a null list of tracks", o{"livekit": o{"room": name, "trackIds": nil}}},
	}
	for i, c := range all {
		m := o{"id": "startRecording", "recordingSessionId": "incomplete", "fileName": fmt.Sprintf("incomplete-%d.webm", i), "adapter": "livekit", "adapterOptions": c.options}
		if i != 3 && rng.Intn(2) == 0 {
			m["sdp"] = peer.Offer
		}
		if !e.refused(rng, BadStart{"livekit request with " + c.why, m, "C26"}, "incomplete") {
			return
		}
		e.R.Case("incomplete livekit request: "+c.why, nil)
	}
}

// lkReloadSuite is about the LiveKit settings only
func lkReloadSuite(p Params) {
	srv, err := NewLKServer(lkKey, lkSecret)
	if err != nil {
		p.R.Unsure("no LiveKit server: %v", err)
		return
	}
	defer srv.Close()
	other, err := NewLKServer("other", "other-secret-0123456789012345678901")
	if err != nil {
		p.R.Unsure("no LiveKit server: %v", err)
		return
	}
	defer other.Close()
	e := p.env(EnvOpts{Name: "reload-livekit", Conf: Conf{LiveKitHost: fmt.Sprintf("ws://127.0.0.1:%d", FreePort()), LiveKitKey: lkKey, LiveKitSecret: lkSecret}})
	if e == nil {
		return
	}
	defer e.Close()
	lkReload(p.rng(78), e, srv, other)
	e.CheckGauge("after reloads of the LiveKit settings")
}

// lkReload changes what the LiveKit server is, at first one which does not exist
func lkReload(rng *rand.Rand, e *Env, srv, other *LKServer) {
	n := 0
	for _, c := range []struct {
		host, key, secret string
		room              string
		ok                bool
	}{
		{"ws://" + srv.Addr, lkKey, lkSecret, "here", true},
		{"http://" + other.Addr, "other", "wrong-secret-01234567890123456789012", "there", false},
		{"http://" + other.Addr, other.Key, other.Secret, "there", true},
		{"ws://" + other.Addr, other.Key, other.Secret, "here", false},
	} {
		// It is in one of them only
		room := &LKRoom{Name: "none but " + c.room, Participants: []LKParticipant{{SID: "PA_r", Identity: "r", Tracks: []LKTrack{{"TR_r", "audio"}}}}}
		if c.room == "here" {
			srv.Add(room)
		} else {
			other.Add(room)
		}
		next := e.Conf
		next.LiveKitHost, next.LiveKitKey, next.LiveKitSecret = c.host, c.key, c.secret
		os.WriteFile(e.Proc.Path, []byte(next.YAML()), 0644)
		e.Hup()
		deadline := time.Now().Add(8 * time.Second)
		for {
			n++
			id := fmt.Sprintf("reloaded-%d", n)
			s := &Start{ID: id, File: id + ".webm", Tracks: 1, LiveKit: true, Tag: "C22,C26", Why: "after a change of the LiveKit server"}
			e.Start(s, lkMessage(rng, id, s.File, room.Name, []string{"TR_r"}))
			if _, ok := e.Response(s); !ok {
				return
			}
			if s.Rec != nil {
				e.Stop(id)
				if !e.Stopped(s.Rec, Patience, "stop") {
					return
				}
			}
			if (s.Rec != nil) == c.ok {
				break
			}
			if time.Now().After(deadline) {
				e.Rep("C22,C26", "the LiveKit server is now %s (%s, %s), but requests for a room behave as before (success: %v)", c.host, c.key, c.secret, s.Rec != nil)
				return
			}
			time.Sleep(50 * time.Millisecond)
		}
		e.R.Count("reloads_of_the_livekit_server", 1)
	}
}
