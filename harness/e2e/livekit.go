package e2e

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/livekit/protocol/auth"
	"github.com/livekit/protocol/livekit"
	"github.com/pion/webrtc/v3"
	"google.golang.org/protobuf/proto"
)

// LKServer is a LiveKit server as far as subscribers are concerned
type LKServer struct {
	Addr        string
	Key, Secret string
	ln          net.Listener
	srv         *http.Server
	turn        *TurnServer
	m           sync.Mutex
	cond        *sync.Cond
	rooms       map[string]*LKRoom
	// Connections whose token was not accepted, or has no room
	Rejected []string
}

// LKTrack is a track which a participant publishes
type LKTrack struct {
	SID, Kind string
}

type LKParticipant struct {
	SID, Identity string
	Tracks        []LKTrack
}

// LKRoom is a room. There is one for most sessions.
type LKRoom struct {
	Name         string
	Participants []LKParticipant
	// Who joins as somebody who is there already has that one leave. A server
	// does so for any room, but a client may be gone before it is seen.
	Unique bool
	taken  int
	// What is wrong with it: "", "404", "503", "close", "garbage", "leave", "nooffer", "slow"
	Mode  string
	conns []*LKConn
	tries int
}

// LKConn is a client of a room
type LKConn struct {
	srv      *LKServer
	room     *LKRoom
	ws       *websocket.Conn
	w        sync.Mutex
	Peer     *Peer
	Identity string
	Query    string
	Grants   *auth.ClaimGrants
	// Guarded by the server's mutex
	subscribed map[string]bool
	requests   []string
	left       time.Time
	closed     time.Time
	tracks     map[string]*SentTrack
	bound      map[string]bool // negotiated
	negotiate  chan struct{}
	answers    chan webrtc.SessionDescription
	done       chan struct{}
	// What the client was told about others
	im    sync.Mutex
	infos []*livekit.ParticipantInfo
	gone  map[string]bool
	muted map[string]bool
}

func NewLKServer(key, secret string) (*LKServer, error) {
	s := &LKServer{Key: key, Secret: secret, rooms: map[string]*LKRoom{}}
	s.cond = sync.NewCond(&s.m)
	// There is nothing but the loopback interface, which clients do not use
	// themselves
	var err error
	if s.turn, err = NewTurnServer("u", "p"); err != nil {
		return nil, err
	}
	if s.ln, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		return nil, err
	}
	s.Addr = s.ln.Addr().String()
	mux := http.NewServeMux()
	mux.HandleFunc("/rtc", s.rtc)
	mux.HandleFunc("/rtc/validate", func(w http.ResponseWriter, r *http.Request) {
		// The client would keep some of these connections for a while
		w.Header().Set("Connection", "close")
		if code, text := s.check(r, nil); code != 200 {
			http.Error(w, text, code)
		}
	})
	s.srv = &http.Server{Handler: mux}
	go s.srv.Serve(s.ln)
	return s, nil
}

func (s *LKServer) Close() {
	s.srv.Close()
	s.m.Lock()
	var cs []*LKConn
	for _, r := range s.rooms {
		cs = append(cs, r.conns...)
	}
	s.m.Unlock()
	for _, c := range cs {
		c.ws.Close()
	}
	s.turn.Close()
}

func (s *LKServer) Add(r *LKRoom) *LKRoom {
	s.m.Lock()
	defer s.m.Unlock()
	s.rooms[r.Name] = r
	return r
}

// check looks at the token of a request
func (s *LKServer) check(r *http.Request, conn *LKConn) (int, string) {
	token := strings.TrimPrefix(r.Header.Get("Authorization"), "Bearer ")
	if token == "" {
		token = r.FormValue("access_token")
	}
	reject := func(code int, f string, a ...interface{}) (int, string) {
		s.m.Lock()
		s.Rejected = append(s.Rejected, fmt.Sprintf(f, a...))
		s.m.Unlock()
		return code, fmt.Sprintf(f, a...)
	}
	v, err := auth.ParseAPIToken(token)
	if err != nil {
		return reject(401, "bad token: %v", err)
	}
	if v.APIKey() != s.Key {
		return reject(401, "unknown API key %q", v.APIKey())
	}
	g, err := v.Verify(s.Secret)
	if err != nil {
		return reject(401, "bad signature: %v", err)
	}
	if g.Video == nil || !g.Video.RoomJoin {
		return reject(401, "no permission to join")
	}
	s.m.Lock()
	room := s.rooms[g.Video.Room]
	if room != nil {
		room.tries++
	}
	s.m.Unlock()
	if room == nil {
		return reject(404, "no room %q", g.Video.Room)
	}
	switch room.Mode {
	case "404":
		return 404, "no such room"
	case "503":
		return 503, "overloaded"
	}
	if conn != nil {
		conn.room, conn.Grants = room, g
		conn.Identity = v.Identity()
	}
	return 200, ""
}

func (s *LKServer) rtc(w http.ResponseWriter, r *http.Request) {
	c := &LKConn{srv: s, subscribed: map[string]bool{}, tracks: map[string]*SentTrack{}, bound: map[string]bool{},
		negotiate: make(chan struct{}, 100), answers: make(chan webrtc.SessionDescription, 10), done: make(chan struct{}), Query: r.URL.RawQuery}
	if code, text := s.check(r, c); code != 200 {
		http.Error(w, text, code)
		return
	}
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	ws, err := up.Upgrade(w, r, nil)
	if err != nil {
		return
	}
	c.ws = ws
	defer func() {
		ws.Close()
		close(c.done)
		if c.Peer != nil {
			c.Peer.Close()
		}
		s.m.Lock()
		c.closed = time.Now()
		s.cond.Broadcast()
		s.m.Unlock()
	}()
	s.m.Lock()
	var before []*LKConn
	for _, o := range c.room.conns {
		if c.room.Unique && o.Identity == c.Identity && o.closed.IsZero() && o.left.IsZero() {
			before = append(before, o)
		}
	}
	c.room.conns = append(c.room.conns, c)
	s.cond.Broadcast()
	s.m.Unlock()
	for _, o := range before {
		o.Leave(livekit.DisconnectReason_DUPLICATE_IDENTITY)
	}
	c.serve()
}

func (c *LKConn) send(m *livekit.SignalResponse) error {
	b, err := proto.Marshal(m)
	if err != nil {
		return err
	}
	c.w.Lock()
	defer c.w.Unlock()
	c.ws.SetWriteDeadline(time.Now().Add(10 * time.Second))
	return c.ws.WriteMessage(websocket.BinaryMessage, b)
}

func (r *LKRoom) infos() []*livekit.ParticipantInfo {
	var out []*livekit.ParticipantInfo
	for _, p := range r.Participants {
		pi := &livekit.ParticipantInfo{Sid: p.SID, Identity: p.Identity, State: livekit.ParticipantInfo_ACTIVE, JoinedAt: time.Now().Unix()}
		for _, t := range p.Tracks {
			ti := &livekit.TrackInfo{Sid: t.SID, Name: t.SID}
			if t.Kind == "video" {
				ti.Type, ti.Source, ti.MimeType = livekit.TrackType_VIDEO, livekit.TrackSource_CAMERA, "video/vp8"
			} else {
				ti.Type, ti.Source, ti.MimeType = livekit.TrackType_AUDIO, livekit.TrackSource_MICROPHONE, "audio/opus"
			}
			pi.Tracks = append(pi.Tracks, ti)
		}
		out = append(out, pi)
	}
	return out
}

func (c *LKConn) serve() {
	room := c.room
	switch room.Mode {
	case "close":
		return
	case "garbage":
		c.w.Lock()
		c.ws.WriteMessage(websocket.BinaryMessage, []byte("\xff\xff\xffgarbage"))
		c.w.Unlock()
		time.Sleep(50 * time.Millisecond)
		return
	case "leave":
		c.send(&livekit.SignalResponse{Message: &livekit.SignalResponse_Leave{Leave: &livekit.LeaveRequest{Reason: livekit.DisconnectReason_JOIN_FAILURE}}})
		time.Sleep(50 * time.Millisecond)
		return
	case "slow":
		time.Sleep(900 * time.Millisecond)
	}
	c.im.Lock()
	c.infos = room.infos()
	c.im.Unlock()
	c.send(&livekit.SignalResponse{Message: &livekit.SignalResponse_Join{Join: &livekit.JoinResponse{
		Room:              &livekit.Room{Sid: "RM_" + room.Name, Name: room.Name},
		Participant:       &livekit.ParticipantInfo{Sid: fmt.Sprintf("PA_rec%p", c), Identity: c.Identity, State: livekit.ParticipantInfo_JOINED},
		OtherParticipants: room.infos(),
		ServerVersion:     "1.5.3",
		IceServers:        []*livekit.ICEServer{{Urls: []string{"turn:" + c.srv.turn.Addr + "?transport=udp"}, Username: "u", Credential: "p"}},
		SubscriberPrimary: true,
		ClientConfiguration: &livekit.ClientConfiguration{
			ForceRelay: livekit.ClientConfigSetting_ENABLED,
		},
		ServerInfo: &livekit.ServerInfo{Version: "1.5.3", Protocol: 12},
	}}})
	if room.Mode != "nooffer" {
		if err := c.connect(); err != nil {
			return
		}
		go c.negotiator()
		c.negotiate <- struct{}{}
	}
	for {
		_, b, err := c.ws.ReadMessage()
		if err != nil {
			return
		}
		var m livekit.SignalRequest
		if proto.Unmarshal(b, &m) != nil {
			continue
		}
		c.handle(&m)
	}
}

// connect makes the connection which media is sent over
func (c *LKConn) connect() error {
	u, err := net.ListenPacket("udp4", "127.0.0.1:0")
	if err != nil {
		return err
	}
	if x, ok := u.(*net.UDPConn); ok {
		x.SetReadBuffer(4 << 20)
		x.SetWriteBuffer(4 << 20)
	}
	p := &Peer{mux: &muteConn{PacketConn: u}, connected: make(chan struct{})}
	api, err := newAPI(PeerOpts{StackNACK: true}, p.mux)
	if err != nil {
		return err
	}
	if p.pc, err = api.NewPeerConnection(webrtc.Configuration{}); err != nil {
		return err
	}
	go p.watch()
	for _, l := range []string{"_reliable", "_lossy"} {
		if _, err := p.pc.CreateDataChannel(l, nil); err != nil {
			return err
		}
	}
	c.srv.m.Lock()
	c.Peer = p
	c.srv.m.Unlock()
	return nil
}

// negotiator offers what is to be sent, again and again
func (c *LKConn) negotiator() {
	for {
		select {
		case <-c.done:
			return
		case <-c.negotiate:
		}
		for len(c.negotiate) > 0 {
			<-c.negotiate
		}
		c.srv.m.Lock()
		var add []string
		for sid, on := range c.subscribed {
			if on && c.tracks[sid] == nil {
				add = append(add, sid)
			}
		}
		c.srv.m.Unlock()
		sort.Strings(add)
		for _, sid := range add {
			pa, t, ok := c.room.find(sid)
			if !ok {
				continue
			}
			mime := webrtc.MimeTypeOpus
			if t.Kind == "video" {
				mime = webrtc.MimeTypeVP8
			}
			st, err := c.Peer.addTrackAs(t.Kind, mime, sid, pa)
			if err != nil {
				continue
			}
			c.srv.m.Lock()
			c.tracks[sid] = st
			c.srv.m.Unlock()
		}
		pc := c.Peer.pc
		offer, err := pc.CreateOffer(nil)
		if err != nil {
			return
		}
		g := webrtc.GatheringCompletePromise(pc)
		if pc.SetLocalDescription(offer) != nil {
			return
		}
		<-g
		d := pc.LocalDescription()
		c.send(&livekit.SignalResponse{Message: &livekit.SignalResponse_Offer{Offer: &livekit.SessionDescription{Type: "offer", Sdp: d.SDP}}})
		select {
		case a := <-c.answers:
			if err := pc.SetRemoteDescription(a); err != nil {
				return
			}
		case <-c.done:
			return
		case <-time.After(20 * time.Second):
			return
		}
		c.srv.m.Lock()
		for sid := range c.tracks {
			c.bound[sid] = true
		}
		c.srv.cond.Broadcast()
		c.srv.m.Unlock()
	}
}

func (r *LKRoom) find(sid string) (string, LKTrack, bool) {
	for _, p := range r.Participants {
		for _, t := range p.Tracks {
			if t.SID == sid {
				return p.SID, t, true
			}
		}
	}
	return "", LKTrack{}, false
}

func (c *LKConn) handle(m *livekit.SignalRequest) {
	s := c.srv
	s.m.Lock()
	defer s.m.Unlock()
	defer s.cond.Broadcast()
	switch x := m.Message.(type) {
	case *livekit.SignalRequest_Answer:
		c.answers <- webrtc.SessionDescription{Type: webrtc.SDPTypeAnswer, SDP: x.Answer.Sdp}
	case *livekit.SignalRequest_Trickle:
		if x.Trickle.Target == livekit.SignalTarget_SUBSCRIBER {
			var ci webrtc.ICECandidateInit
			if json.Unmarshal([]byte(x.Trickle.CandidateInit), &ci) == nil && c.Peer != nil {
				go func() {
					// The answer may not be applied yet
					for i := 0; i < 100 && c.Peer.pc.RemoteDescription() == nil; i++ {
						time.Sleep(20 * time.Millisecond)
					}
					c.Peer.pc.AddICECandidate(ci)
				}()
			}
		}
	case *livekit.SignalRequest_Subscription:
		sids := append([]string(nil), x.Subscription.TrackSids...)
		for _, pt := range x.Subscription.ParticipantTracks {
			sids = append(sids, pt.TrackSids...)
		}
		for i, sid := range sids {
			dup := false
			for _, o := range sids[:i] {
				dup = dup || o == sid
			}
			if dup {
				continue
			}
			c.requests = append(c.requests, fmt.Sprintf("%s=%v", sid, x.Subscription.Subscribe))
			c.subscribed[sid] = x.Subscription.Subscribe
		}
		select {
		case c.negotiate <- struct{}{}:
		default:
		}
	case *livekit.SignalRequest_Leave:
		c.left = time.Now()
	}
}

// wait waits until something holds. f is called with the mutex held.
func (s *LKServer) wait(timeout time.Duration, f func() bool) bool {
	deadline := time.Now().Add(timeout)
	t := time.AfterFunc(timeout, func() { s.m.Lock(); s.cond.Broadcast(); s.m.Unlock() })
	defer t.Stop()
	s.m.Lock()
	defer s.m.Unlock()
	for !f() {
		if !time.Now().Before(deadline) {
			return false
		}
		s.cond.Wait()
	}
	return true
}

// Conns returns the connections which the room had
func (s *LKServer) Conns(r *LKRoom) []*LKConn {
	s.m.Lock()
	defer s.m.Unlock()
	return append([]*LKConn(nil), r.conns...)
}

// take returns the connections which the room had since the last time
func (s *LKServer) take(r *LKRoom) []*LKConn {
	s.m.Lock()
	defer s.m.Unlock()
	cs := append([]*LKConn(nil), r.conns[r.taken:]...)
	r.taken = len(r.conns)
	return cs
}

// Noise tells the client about things which happen in the room, none of which
// has to do with what is sent, until the channel is closed. Nobody who has one
// of the tracks leaves.
func (c *LKConn) Noise(rng *rand.Rand, needed []string, stop <-chan struct{}) (n int) {
	c.im.Lock()
	for i := 0; i < 2; i++ {
		c.infos = append(c.infos, &livekit.ParticipantInfo{Sid: fmt.Sprintf("PA_late%d", i), Identity: fmt.Sprint("late ", i), State: livekit.ParticipantInfo_ACTIVE,
			Tracks: []*livekit.TrackInfo{
				{Sid: fmt.Sprintf("TR_lateV%d", i), Type: livekit.TrackType_VIDEO, Source: livekit.TrackSource_CAMERA, MimeType: "video/vp8"},
				{Sid: fmt.Sprintf("TR_lateA%d", i), Type: livekit.TrackType_AUDIO, Source: livekit.TrackSource_MICROPHONE, MimeType: "audio/opus"}}})
	}
	c.im.Unlock()
	for {
		select {
		case <-stop:
			return n
		case <-c.done:
			return n
		case <-time.After(time.Duration(rng.Intn(150)) * time.Millisecond):
		}
		if m := c.event(rng, needed, n); m != nil {
			if c.send(m) != nil {
				return n
			}
			n++
		}
	}
}

// update is what the client is told about a participant. im is locked.
func (c *LKConn) update(p *livekit.ParticipantInfo) *livekit.SignalResponse {
	p.Version++
	q := proto.Clone(p).(*livekit.ParticipantInfo)
	for _, t := range q.Tracks {
		t.Muted = c.muted[t.Sid]
	}
	if c.gone[p.Sid] {
		q.State = livekit.ParticipantInfo_DISCONNECTED
	}
	return &livekit.SignalResponse{Message: &livekit.SignalResponse_Update{Update: &livekit.ParticipantUpdate{Participants: []*livekit.ParticipantInfo{q}}}}
}

// event makes one of Noise's up
func (c *LKConn) event(rng *rand.Rand, needed []string, n int) (m *livekit.SignalResponse) {
	c.im.Lock()
	defer c.im.Unlock()
	p := c.infos[rng.Intn(len(c.infos))]
	if c.muted == nil {
		c.muted, c.gone = map[string]bool{}, map[string]bool{}
	}
	switch rng.Intn(9) {
	case 0, 1, 2:
		if len(p.Tracks) == 0 {
			return nil
		}
		t := p.Tracks[rng.Intn(len(p.Tracks))].Sid
		c.muted[t] = !c.muted[t]
		m = c.update(p)
	case 3:
		g := true
		for _, t := range p.Tracks {
			g = g && !slices.Contains(needed, t.Sid)
		}
		c.gone[p.Sid] = g && !c.gone[p.Sid]
		m = c.update(p)
	case 4:
		p.Name, p.Metadata = fmt.Sprint("name ", n), fmt.Sprintf("{\"n\": %d}", n)
		p.IsPublisher = true
		m = c.update(p)
	case 5:
		m = &livekit.SignalResponse{Message: &livekit.SignalResponse_SpeakersChanged{SpeakersChanged: &livekit.SpeakersChanged{
			Speakers: []*livekit.SpeakerInfo{{Sid: p.Sid, Level: rng.Float32(), Active: rng.Intn(2) == 0}}}}}
	case 6:
		m = &livekit.SignalResponse{Message: &livekit.SignalResponse_RoomUpdate{RoomUpdate: &livekit.RoomUpdate{
			Room: &livekit.Room{Sid: "RM_" + c.room.Name, Name: c.room.Name, Metadata: fmt.Sprint(n), NumParticipants: uint32(rng.Intn(9))}}}}
	case 7:
		m = &livekit.SignalResponse{Message: &livekit.SignalResponse_ConnectionQuality{ConnectionQuality: &livekit.ConnectionQualityUpdate{
			Updates: []*livekit.ConnectionQualityInfo{{ParticipantSid: p.Sid, Quality: livekit.ConnectionQuality(rng.Intn(3)), Score: rng.Float32()}}}}}
	case 8:
		if len(p.Tracks) == 0 {
			return nil
		}
		m = &livekit.SignalResponse{Message: &livekit.SignalResponse_StreamStateUpdate{StreamStateUpdate: &livekit.StreamStateUpdate{
			StreamStates: []*livekit.StreamStateInfo{{ParticipantSid: p.Sid, TrackSid: p.Tracks[rng.Intn(len(p.Tracks))].Sid, State: livekit.StreamState(rng.Intn(2))}}}}}
	}
	return m
}

// Unpublish ends a track which is being sent
func (c *LKConn) Unpublish(sid string) {
	c.srv.m.Lock()
	st := c.tracks[sid]
	c.srv.m.Unlock()
	c.im.Lock()
	for _, p := range c.infos {
		for i, t := range p.Tracks {
			if t.Sid == sid {
				p.Tracks = append(p.Tracks[:i:i], p.Tracks[i+1:]...)
				c.send(c.update(p))
				break
			}
		}
	}
	c.im.Unlock()
	if st == nil {
		return
	}
	c.Peer.pc.RemoveTrack(st.sender)
	select {
	case c.negotiate <- struct{}{}:
	default:
	}
}

// Leave tells the client that it has to go
func (c *LKConn) Leave(reason livekit.DisconnectReason) {
	c.send(&livekit.SignalResponse{Message: &livekit.SignalResponse_Leave{Leave: &livekit.LeaveRequest{Reason: reason}}})
}

// Subscribed lists the tracks which the client wants
func (c *LKConn) Subscribed() []string {
	c.srv.m.Lock()
	defer c.srv.m.Unlock()
	var out []string
	for sid, on := range c.subscribed {
		if on {
			out = append(out, sid)
		}
	}
	sort.Strings(out)
	return out
}
