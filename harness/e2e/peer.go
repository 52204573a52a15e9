package e2e

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pion/interceptor"
	"github.com/pion/logging"
	"github.com/pion/rtcp"
	"github.com/pion/rtp"
	"github.com/pion/webrtc/v3"
)

// PeerOpts tells what a peer offers
type PeerOpts struct {
	Video, Audio bool
	// Offer the WebRTC stack's own retransmission requests, too
	StackNACK bool
	// Of any number of tracks instead
	Kinds []string
}

// Packet life in the history of a track
type sentPkt struct {
	pkt *rtp.Packet
	// Answer the n-th retransmission request only (0: it was sent in the first
	// place; <0: never)
	answerAt   int
	requests   int
	first      time.Time // when it was sent or held back
	sent       time.Time // when it was sent last
	answered   time.Time // when it was sent for the first time, on a request
	sentTimes  int
	perRequest map[uint32]int // by sender SSRC
	// Nobody knows whether it arrived
	unsure bool
}

// SentTrack is a track which is sent
type SentTrack struct {
	Kind    string
	peer    *Peer
	local   *webrtc.TrackLocalStaticRTP
	sender  *webrtc.RTPSender
	m       sync.Mutex
	hist    map[uint16]*sentPkt
	highest uint16
	any     bool
	PLIs    []time.Time
	NACKs   int // messages
	NACKed  int // packets asked for
	// Observations which contradict what is expected
	Spurious []string
	MaxReq   int
	Resent   int
	Sent     int
	Dropped  int
	// Packets which will be sent late
	held      map[uint16]bool
	heldAsked int
}

// Peer is the SFU's side of a session
type Peer struct {
	pc           *webrtc.PeerConnection
	Video, Audio *SentTrack
	Tracks       []*SentTrack // of PeerOpts.Kinds
	Offer        string       // as in a startRecording message
	mux          *muteConn
	connected    chan struct{}
	closed       atomic.Bool
}

// muteConn is a socket which can be cut off
type muteConn struct {
	net.PacketConn
	mute atomic.Bool
}

func (c *muteConn) WriteTo(b []byte, a net.Addr) (int, error) {
	if c.mute.Load() {
		return len(b), nil
	}
	return c.PacketConn.WriteTo(b, a)
}

func (c *muteConn) ReadFrom(b []byte) (int, net.Addr, error) {
	for {
		n, a, err := c.PacketConn.ReadFrom(b)
		if err != nil || !c.mute.Load() {
			return n, a, err
		}
	}
}

func newAPI(o PeerOpts, mux *muteConn) (*webrtc.API, error) {
	m := &webrtc.MediaEngine{}
	var fb []webrtc.RTCPFeedback
	if o.StackNACK {
		fb = append(fb, webrtc.RTCPFeedback{Type: "nack"}, webrtc.RTCPFeedback{Type: "nack", Parameter: "pli"})
	}
	if err := m.RegisterCodec(webrtc.RTPCodecParameters{
		RTPCodecCapability: webrtc.RTPCodecCapability{MimeType: webrtc.MimeTypeVP8, ClockRate: 90000, RTCPFeedback: fb}, PayloadType: 96}, webrtc.RTPCodecTypeVideo); err != nil {
		return nil, err
	}
	if err := m.RegisterCodec(webrtc.RTPCodecParameters{
		RTPCodecCapability: webrtc.RTPCodecCapability{MimeType: webrtc.MimeTypeOpus, ClockRate: 48000, Channels: 2}, PayloadType: 111}, webrtc.RTPCodecTypeAudio); err != nil {
		return nil, err
	}
	se := webrtc.SettingEngine{}
	lf := logging.NewDefaultLoggerFactory()
	lf.DefaultLogLevel = logging.LogLevelDisabled
	se.LoggerFactory = lf
	se.SetIncludeLoopbackCandidate(true)
	se.SetNetworkTypes([]webrtc.NetworkType{webrtc.NetworkTypeUDP4})
	se.SetRelayAcceptanceMinWait(0)
	se.SetPrflxAcceptanceMinWait(0)
	se.SetSrflxAcceptanceMinWait(0)
	se.SetICETimeouts(20*time.Second, 40*time.Second, 500*time.Millisecond)
	se.SetInterfaceFilter(func(n string) bool { return n == "lo" })
	se.SetICEUDPMux(webrtc.NewICEUDPMux(lf.NewLogger("mux"), mux))
	return webrtc.NewAPI(webrtc.WithMediaEngine(m), webrtc.WithSettingEngine(se), webrtc.WithInterceptorRegistry(&interceptor.Registry{})), nil
}

// NewPeer makes a peer and its offer
func NewPeer(o PeerOpts) (*Peer, error) {
	c, err := net.ListenPacket("udp4", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	if u, ok := c.(*net.UDPConn); ok {
		u.SetReadBuffer(4 << 20)
		u.SetWriteBuffer(4 << 20)
	}
	p := &Peer{mux: &muteConn{PacketConn: c}, connected: make(chan struct{})}
	api, err := newAPI(o, p.mux)
	if err != nil {
		return nil, err
	}
	if p.pc, err = api.NewPeerConnection(webrtc.Configuration{}); err != nil {
		return nil, err
	}
	go p.watch()
	if o.Audio {
		if p.Audio, err = p.addTrack("audio", webrtc.MimeTypeOpus); err != nil {
			return nil, err
		}
	}
	if o.Video {
		if p.Video, err = p.addTrack("video", webrtc.MimeTypeVP8); err != nil {
			return nil, err
		}
	}
	for i, k := range o.Kinds {
		mime := webrtc.MimeTypeOpus
		if k == "video" {
			mime = webrtc.MimeTypeVP8
		}
		t, err := p.addTrackAs(k, mime, fmt.Sprint(k, i), fmt.Sprint("stream", i))
		if err != nil {
			return nil, err
		}
		p.Tracks = append(p.Tracks, t)
	}
	if !o.Audio && !o.Video && len(o.Kinds) == 0 {
		if _, err := p.pc.CreateDataChannel("x", nil); err != nil {
			return nil, err
		}
	}
	offer, err := p.pc.CreateOffer(nil)
	if err != nil {
		return nil, err
	}
	done := webrtc.GatheringCompletePromise(p.pc)
	if err := p.pc.SetLocalDescription(offer); err != nil {
		return nil, err
	}
	<-done
	p.Offer = EncodeSDP(*p.pc.LocalDescription())
	return p, nil
}

// EncodeSDP makes what startRecording carries
func EncodeSDP(d webrtc.SessionDescription) string {
	b, _ := json.Marshal(d)
	return base64.StdEncoding.EncodeToString(b)
}

// DecodeSDP reads what startRecordingResponse carries
func DecodeSDP(s string) (webrtc.SessionDescription, error) {
	var d webrtc.SessionDescription
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return d, err
	}
	err = json.Unmarshal(b, &d)
	return d, err
}

func (p *Peer) addTrack(kind, mime string) (*SentTrack, error) {
	return p.addTrackAs(kind, mime, kind, "stream")
}

func (p *Peer) addTrackAs(kind, mime, id, stream string) (*SentTrack, error) {
	t := &SentTrack{Kind: kind, peer: p, hist: map[uint16]*sentPkt{}, held: map[uint16]bool{}}
	var err error
	ch := uint16(0)
	rate := uint32(90000)
	if kind == "audio" {
		ch, rate = 2, 48000
	}
	if t.local, err = webrtc.NewTrackLocalStaticRTP(webrtc.RTPCodecCapability{MimeType: mime, ClockRate: rate, Channels: ch}, id, stream); err != nil {
		return nil, err
	}
	tr, err := p.pc.AddTransceiverFromTrack(t.local, webrtc.RTPTransceiverInit{Direction: webrtc.RTPTransceiverDirectionSendonly})
	if err != nil {
		return nil, err
	}
	t.sender = tr.Sender()
	go t.readRTCP()
	return t, nil
}

// Answer applies the recorder's answer
func (p *Peer) Answer(s string) error {
	d, err := DecodeSDP(s)
	if err != nil {
		return fmt.Errorf("the answer cannot be decoded: %w", err)
	}
	if d.Type != webrtc.SDPTypeAnswer {
		return fmt.Errorf("the answer is a %v", d.Type)
	}
	return p.pc.SetRemoteDescription(d)
}

// watch tells when the peer is connected. The state of the connection itself is not
// reliable: it may miss the last change if two happen at once
func (p *Peer) watch() {
	for t := p.pc.SCTP().Transport(); p.pc.ConnectionState() != webrtc.PeerConnectionStateClosed; time.Sleep(5 * time.Millisecond) {
		if t.State() == webrtc.DTLSTransportStateConnected {
			close(p.connected)
			return
		}
	}
}

func (p *Peer) Connected(timeout time.Duration) bool {
	select {
	case <-p.connected:
		return true
	case <-time.After(timeout):
		return false
	}
}

// Mute cuts the connection off without closing it
func (p *Peer) Mute() { p.mux.mute.Store(true) }

func (p *Peer) Close() {
	if p.closed.CompareAndSwap(false, true) {
		p.pc.Close()
		p.mux.Close()
	}
}

func (t *SentTrack) readRTCP() {
	for {
		ps, _, err := t.sender.ReadRTCP()
		if err != nil {
			return
		}
		now := time.Now()
		for _, p := range ps {
			switch p := p.(type) {
			case *rtcp.PictureLossIndication:
				t.m.Lock()
				t.PLIs = append(t.PLIs, now)
				t.m.Unlock()
			case *rtcp.TransportLayerNack:
				t.nack(p, now)
			}
		}
	}
}

func (t *SentTrack) nack(n *rtcp.TransportLayerNack, now time.Time) {
	var again []*rtp.Packet
	t.m.Lock()
	t.NACKs++
	for _, pair := range n.Nacks {
		for _, seq := range pair.PacketList() {
			t.NACKed++
			s := t.hist[seq]
			if s == nil && t.held[seq] {
				// It is late
				t.heldAsked++
				continue
			}
			if s == nil {
				if len(t.Spurious) < 10 {
					t.Spurious = append(t.Spurious, fmt.Sprintf("%s packet %d was asked for, the newest sent is %d", t.Kind, seq, t.highest))
				}
				continue
			}
			if s.perRequest == nil {
				s.perRequest = map[uint32]int{}
			}
			s.perRequest[n.SenderSSRC]++
			if k := s.perRequest[n.SenderSSRC]; k > t.MaxReq {
				t.MaxReq = k
			}
			s.requests++
			if s.sentTimes > 0 && now.Sub(s.sent) > 300*time.Millisecond && len(t.Spurious) < 10 {
				t.Spurious = append(t.Spurious, fmt.Sprintf("%s packet %d was asked for %v after it was sent", t.Kind, seq, now.Sub(s.sent).Round(time.Millisecond)))
			}
			if s.answerAt >= 0 && s.requests >= s.answerAt {
				again = append(again, s.pkt)
				if s.answerAt > 0 && s.sentTimes == 0 {
					s.answered = now
				}
				if s.sentTimes == 0 || now.Sub(s.sent) > 20*time.Millisecond {
					s.sent = now
				}
				s.sentTimes++
				t.Resent++
			}
		}
	}
	t.m.Unlock()
	for _, p := range again {
		t.local.WriteRTP(p)
	}
}

// Send sends a packet. answerAt 0: now; n > 0: not before the n-th request for
// it; < 0: never
func (t *SentTrack) Send(p *rtp.Packet, answerAt int) error {
	now := time.Now()
	s := &sentPkt{pkt: p, answerAt: answerAt, first: now}
	t.m.Lock()
	t.hist[p.SequenceNumber] = s
	if !t.any || int16(p.SequenceNumber-t.highest) > 0 {
		t.highest = p.SequenceNumber
		t.any = true
	}
	if answerAt == 0 {
		s.sent = now
		s.sentTimes = 1
		t.Sent++
	} else {
		t.Dropped++
	}
	t.m.Unlock()
	if answerAt != 0 {
		return nil
	}
	return t.local.WriteRTP(p)
}

// Late announces a packet which will be sent late
func (t *SentTrack) Late(seq uint16) { t.m.Lock(); t.held[seq] = true; t.m.Unlock() }

// Answered tells when a packet which was not sent at first was
func (t *SentTrack) Answered(p *rtp.Packet) (time.Time, bool) {
	t.m.Lock()
	defer t.m.Unlock()
	s := t.hist[p.SequenceNumber]
	if s == nil || s.answered.IsZero() {
		return time.Time{}, false
	}
	return s.answered, true
}

// Again sends a packet a second time
func (t *SentTrack) Again(p *rtp.Packet) { t.local.WriteRTP(p) }

// Requests returns the keyframe requests which arrived
func (t *SentTrack) Requests() []time.Time {
	t.m.Lock()
	defer t.m.Unlock()
	return append([]time.Time(nil), t.PLIs...)
}

// NackStats returns how often each lost packet was asked for
func (t *SentTrack) NackStats() (asked, never int, max int, spurious []string) {
	t.m.Lock()
	defer t.m.Unlock()
	for _, s := range t.hist {
		if s.answerAt != 0 {
			if s.requests > 0 {
				asked++
			} else {
				never++
			}
		}
	}
	return asked, never, t.MaxReq, append([]string(nil), t.Spurious...)
}
