From 12284a76cca32bc5a9e0b3fcf9717f7561df1fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 01/43] fix: WebRTC setters must have an effect on the session

All WebRTC methods had value receivers, so the callbacks and the SDP offer
stored by the setters were lost and Init refused every mediasoup recording
with 'connStateCallbackFn is not set'. Use pointer receivers.
---
 internal/webrtc/webrtc.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 3643769..38c00f5 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -51,19 +51,19 @@ func NewWebRTC(ctx context.Context, cfg config.WebRTC) *WebRTC {
 	}
 }
 
-func (w WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
+func (w *WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
 	w.connStateCallbackFn = fn
 }
 
-func (w WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
+func (w *WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
 	w.flowCallback = fn
 }
 
-func (w WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
+func (w *WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
 	w.sdpOffer = offer
 }
 
-func (w WebRTC) validateInitParams() error {
+func (w *WebRTC) validateInitParams() error {
 	if w.connStateCallbackFn == nil {
 		return errors.New("connStateCallbackFn is not set")
 	}
@@ -79,7 +79,7 @@ func (w WebRTC) validateInitParams() error {
 	return nil
 }
 
-func (w WebRTC) Init(
+func (w *WebRTC) Init(
 	rec recorder.Recorder,
 ) (webrtc.SessionDescription, error) {
 	if err := w.validateInitParams(); err != nil {
@@ -480,13 +480,13 @@ func (w WebRTC) Init(
 	return *peerConnection.LocalDescription(), nil
 }
 
-func (w WebRTC) RequestKeyframe() {
+func (w *WebRTC) RequestKeyframe() {
 	for _, ssrc := range w.videoTrackSSRCs {
 		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
 
-func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	err := w.pc.WriteRTCP([]rtcp.Packet{&rtcp.PictureLossIndication{MediaSSRC: ssrc}})
 
 	if err != nil {
@@ -506,7 +506,7 @@ func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	w.pliStats[ssrc] = PLITracker{count: w.pliStats[ssrc].count + 1, timestamp: time.Now()}
 }
 
-func (w WebRTC) Close() error {
+func (w *WebRTC) Close() error {
 	return w.pc.Close()
 }
 
-- 
2.43.0


From 298b0f22630ba083d47140ed499a928f91185c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 02/43] fix: guard WebRTC keyframe request state against
 concurrent access

videoTrackSSRCs and pliStats are touched by every track's PLI ticker, by
OnTrack and by the recorder asking for keyframes; the concurrent map writes
can take the whole process down.
---
 internal/webrtc/webrtc.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 38c00f5..67e8f06 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"math/rand"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -28,6 +29,9 @@ type PLITracker struct {
 }
 
 type WebRTC struct {
+	// Guards videoTrackSSRCs and pliStats, which every track's goroutines and
+	// the recorder (keyframe requests) access concurrently
+	m   sync.Mutex
 	ctx context.Context
 	cfg config.WebRTC
 	pc  *webrtc.PeerConnection
@@ -172,8 +176,10 @@ func (w *WebRTC) Init(
 				track.SSRC(), track.RID())
 
 		if isVideo {
+			w.m.Lock()
 			w.videoTrackSSRCs = append(w.videoTrackSSRCs, uint32(track.SSRC()))
 			w.pliStats[uint32(track.SSRC())] = PLITracker{count: 0, timestamp: time.Now()}
+			w.m.Unlock()
 
 			if kfr, ok := rec.(interface {
 				SetKeyframeRequester(recorder.KeyframeRequester)
@@ -481,7 +487,11 @@ func (w *WebRTC) Init(
 }
 
 func (w *WebRTC) RequestKeyframe() {
-	for _, ssrc := range w.videoTrackSSRCs {
+	w.m.Lock()
+	ssrcs := append([]uint32(nil), w.videoTrackSSRCs...)
+	w.m.Unlock()
+
+	for _, ssrc := range ssrcs {
 		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
@@ -494,6 +504,9 @@ func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 			Error(err)
 	}
 
+	w.m.Lock()
+	defer w.m.Unlock()
+
 	if _, exists := w.pliStats[ssrc]; !exists {
 		w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
 	}
-- 
2.43.0


From 203792a4173048436afce64608821e3a1bcedb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 03/43] fix: synchronise the state shared by a track's reader,
 NACK and status goroutines

The jitter buffer and the receive log are used by the RTP reader and by the
NACK goroutine, the flow status goroutine reads the reader's last sequence
number and timestamp, and the recorder's flags and timestamps are read by
other tracks. None of it was synchronised.
---
 internal/webrtc/recorder/webm.go       | 38 ++++++++++++++------------
 internal/webrtc/utils/jitter_buffer.go | 35 ++++++++++++++++++++++--
 internal/webrtc/utils/receive_log.go   | 18 ++++++++++++
 internal/webrtc/webrtc.go              | 22 +++++++++------
 4 files changed, 85 insertions(+), 28 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index dbffd08..039b632 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -140,18 +140,26 @@ func (r *WebmRecorder) WithContext(ctx context.Context) {
 }
 
 func (r *WebmRecorder) SetHasAudio(hasAudio bool) {
+	r.m.Lock()
+	defer r.m.Unlock()
 	r.hasAudio = hasAudio
 }
 
 func (r *WebmRecorder) GetHasAudio() bool {
+	r.m.Lock()
+	defer r.m.Unlock()
 	return r.hasAudio
 }
 
 func (r *WebmRecorder) SetHasVideo(hasVideo bool) {
+	r.m.Lock()
+	defer r.m.Unlock()
 	r.hasVideo = hasVideo
 }
 
 func (r *WebmRecorder) GetHasVideo() bool {
+	r.m.Lock()
+	defer r.m.Unlock()
 	return r.hasVideo
 }
 
@@ -163,18 +171,18 @@ func (r *WebmRecorder) SetKeyframeRequester(requester KeyframeRequester) {
 }
 
 func (r *WebmRecorder) VideoTimestamp() time.Duration {
+	r.m.Lock()
+	defer r.m.Unlock()
 	return r.videoTimestamp
 }
 
 func (r *WebmRecorder) AudioTimestamp() time.Duration {
+	r.m.Lock()
+	defer r.m.Unlock()
 	return r.audioTimestamp
 }
 
 func (r *WebmRecorder) PushVideo(p *rtp.Packet) {
-	if !r.hasVideo {
-		return
-	}
-
 	if !r.useCustomSampler {
 		r.pushVP8Builtin(p)
 	} else {
@@ -183,10 +191,6 @@ func (r *WebmRecorder) PushVideo(p *rtp.Packet) {
 }
 
 func (r *WebmRecorder) PushAudio(p *rtp.Packet) {
-	if !r.hasAudio {
-		return
-	}
-
 	r.pushOpus(p)
 }
 
@@ -281,13 +285,13 @@ func (r *WebmRecorder) Close() time.Duration {
 }
 
 func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	if !r.hasVideo {
 		return
 	}
 
-	r.m.Lock()
-	defer r.m.Unlock()
-
 	if len(packet.Payload) == 0 || r.closed {
 		return
 	}
@@ -347,13 +351,13 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 }
 
 func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	if !r.hasAudio {
 		return
 	}
 
-	r.m.Lock()
-	defer r.m.Unlock()
-
 	if len(p.Payload) == 0 || r.closed {
 		return
 	}
@@ -483,13 +487,13 @@ func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
 }
 
 func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	if !r.hasVideo {
 		return
 	}
 
-	r.m.Lock()
-	defer r.m.Unlock()
-
 	if len(p.Payload) == 0 || r.closed {
 		return
 	}
diff --git a/internal/webrtc/utils/jitter_buffer.go b/internal/webrtc/utils/jitter_buffer.go
index 93d670f..c9c223e 100644
--- a/internal/webrtc/utils/jitter_buffer.go
+++ b/internal/webrtc/utils/jitter_buffer.go
@@ -3,11 +3,14 @@ package utils
 import (
 	"context"
 	"github.com/pion/rtp"
+	"sync"
 	"time"
 	log "github.com/sirupsen/logrus"
 )
 
 type JitterBuffer struct {
+	// The track reader and the NACK goroutine share the buffer
+	m                    sync.Mutex
 	nextStart            int64
 	end                  int64
 	packets              []*rtp.Packet
@@ -37,6 +40,9 @@ func NewJitterBuffer(
 }
 
 func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	if s.end-seq >= s.size {
 		log.WithField("session", s.ctx.Value("session")).
 			Warnf("Jitter buffer overflow: seq=%d, end=%d, size=%d", seq, s.end, s.size)
@@ -87,6 +93,14 @@ func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
 }
 
 func (s *JitterBuffer) NextPackets() ([]*rtp.Packet, bool) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	return s.nextPackets()
+}
+
+// Locked
+func (s *JitterBuffer) nextPackets() ([]*rtp.Packet, bool) {
 	skippedPacket := false
 
 	if s.nextStart > s.end {
@@ -116,7 +130,7 @@ func (s *JitterBuffer) NextPackets() ([]*rtp.Packet, bool) {
 		s.nextStart++
 		skippedPacket = true
 
-		pkts, moreSkips := s.NextPackets()
+		pkts, moreSkips := s.nextPackets()
 
 		if pkts == nil {
 			return nil, skippedPacket
@@ -151,15 +165,26 @@ func (s *JitterBuffer) NextPackets() ([]*rtp.Packet, bool) {
 
 // SkipPacket forces the jitter buffer to skip waiting for a specific sequence number
 func (s *JitterBuffer) SkipPacket(seq int64) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	if seq == s.nextStart {
 		log.WithField("session", s.ctx.Value("session")).
 			Debugf("Skipping missing packet in jitter buffer: seq=%d", seq)
 				s.lastSkippedSeq = seq
-				s.SetNextPacketsStart(seq + 1)
+				s.setNextPacketsStart(seq + 1)
 	}
 }
 
 func (s *JitterBuffer) SetNextPacketsStart(nextPacketsStart int64) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	s.setNextPacketsStart(nextPacketsStart)
+}
+
+// Locked
+func (s *JitterBuffer) setNextPacketsStart(nextPacketsStart int64) {
 	if s.nextStart < nextPacketsStart {
 		log.WithField("session", s.ctx.Value("session")).
 			Debugf("Setting next packet start in jitter buffer: old=%d, new=%d", s.nextStart, nextPacketsStart)
@@ -173,10 +198,16 @@ func (s *JitterBuffer) SetNextPacketsStart(nextPacketsStart int64) {
 }
 
 func (s *JitterBuffer) GetNextStart() int64 {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	return s.nextStart
 }
 
 func (s *JitterBuffer) GetAndClearLastSkipped() (int64, bool) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	if s.lastSkippedSeq == 0 {
 		return 0, false
 	}
diff --git a/internal/webrtc/utils/receive_log.go b/internal/webrtc/utils/receive_log.go
index bef0e7a..4bbe33b 100644
--- a/internal/webrtc/utils/receive_log.go
+++ b/internal/webrtc/utils/receive_log.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"errors"
 	"strconv"
+	"sync"
 )
 
 var allowedReceiveLogSizes map[uint16]bool
@@ -19,6 +20,8 @@ func init() {
 }
 
 type ReceiveLog struct {
+	// The track reader and the NACK goroutine share the log
+	m               sync.Mutex
 	packets         []uint64
 	size            uint16
 	end             uint16
@@ -38,6 +41,9 @@ func NewReceiveLog(size uint16) (*ReceiveLog, error) {
 }
 
 func (s *ReceiveLog) Add(seq uint16) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	if !s.started {
 		s.set(seq)
 		s.end = seq
@@ -75,6 +81,9 @@ func (s *ReceiveLog) Add(seq uint16) {
 }
 
 func (s *ReceiveLog) Get(seq uint16) bool {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	diff := s.end - seq
 	if diff >= uint16SizeHalf {
 		return false
@@ -88,6 +97,9 @@ func (s *ReceiveLog) Get(seq uint16) bool {
 }
 
 func (s *ReceiveLog) MissingSeqNumbers(skipLastN uint16) []uint16 {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	until := s.end - skipLastN
 	if until-s.lastConsecutive >= uint16SizeHalf {
 		// until < s.lastConsecutive (counting for rollover)
@@ -105,6 +117,9 @@ func (s *ReceiveLog) MissingSeqNumbers(skipLastN uint16) []uint16 {
 }
 
 func (s *ReceiveLog) IgnoreSeqNum(seq uint16) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	// Forcefully mark this packet as received - used in scenarios where we
 	// we give up on NACKing a packet
 	s.set(seq)
@@ -117,6 +132,9 @@ func (s *ReceiveLog) IgnoreSeqNum(seq uint16) {
 }
 
 func (s *ReceiveLog) GetLastConsecutive() uint16 {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	return s.lastConsecutive
 }
 
diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 67e8f06..070f923 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"math/rand"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -298,8 +299,10 @@ func (w *WebRTC) Init(
 			}()
 		}
 
-		var s1, s2 uint16
-		var lastTimestamp time.Duration
+		// Shared between this track's reader and its flow status goroutine
+		var s2 atomic.Uint32
+		var lastTs atomic.Int64
+		var s1 uint32
 
 		if true {
 			done := make(chan bool)
@@ -314,7 +317,7 @@ func (w *WebRTC) Init(
 					case <-done:
 						ticker.Stop()
 
-						ts := lastTimestamp
+						ts := time.Duration(lastTs.Load())
 
 						// Use the most recent timestamp from video or audio since
 						// we can't differentiate them in status events right now.
@@ -330,14 +333,15 @@ func (w *WebRTC) Init(
 						w.flowCallback(false, ts, true)
 						return
 					case <-ticker.C:
-						if s1 == s2 {
+						curSeq := s2.Load()
+						if s1 == curSeq {
 							isFlowing = false
 						} else {
 							isFlowing = true
 						}
-						s1 = s2
+						s1 = curSeq
 						if isFlowing != wasFlowing {
-							ts := lastTimestamp
+							ts := time.Duration(lastTs.Load())
 
 							// FIXME see comment above
 							if ts == 0 {
@@ -425,14 +429,14 @@ func (w *WebRTC) Init(
 			}
 
 			for _, p := range packets {
-				s2 = p.SequenceNumber
+				s2.Store(uint32(p.SequenceNumber))
 				switch {
 				case isAudio:
 					rec.PushAudio(p)
-					lastTimestamp = rec.AudioTimestamp()
+					lastTs.Store(int64(rec.AudioTimestamp()))
 				case isVideo:
 					rec.PushVideo(p)
-					lastTimestamp = rec.VideoTimestamp()
+					lastTs.Store(int64(rec.VideoTimestamp()))
 				}
 			}
 		}
-- 
2.43.0


From 6ecfb30a220cebc4d683670084c4496e3d3a60db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 04/43] fix: answer a start request once and end a session
 exactly once

A failed mediasoup start was answered with 'ok' and then 'failed'; failed
starts stayed registered under their session ID, kept their peer connection
and never left the sessions gauge. A session could announce its end several
times (every track's flow status, the ICE state and stopRecording raced for
it), media ending by itself never finalised the file, a late callback of an
old session could unregister a newer one with the same ID, and stopRecording
left the transport open. Funnel every end through Session.StopRecording,
which runs once, finalises the file, releases the transport and only then
lets the caller announce it; status events cannot follow it.
---
 internal/server/server.go  |  27 ++++++---
 internal/server/session.go | 121 +++++++++++++++++++++++++++----------
 internal/webrtc/webrtc.go  |   4 ++
 3 files changed, 111 insertions(+), 41 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index e5864fc..e7de352 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -80,8 +80,11 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			sess := NewSession(e.SessionId, s, nil, wrtc, rec)
 			s.sessions.Store(e.SessionId, sess)
 
+			defer sess.Answered()
+
 			if _, err := sess.StartRecording(e); err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
+				sess.StopRecording()
 				s.PublishPubSub(e.Fail(err))
 				return
 			}
@@ -97,6 +100,11 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 				return
 			}
 
+			wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
+			sess := NewSession(e.SessionId, s, wrtc, nil, rec)
+			s.sessions.Store(e.SessionId, sess)
+			defer sess.Answered()
+
 			var sdp string
 			func() {
 				defer func() {
@@ -105,18 +113,18 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 					}
 				}()
 
-				wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
-				sess := NewSession(e.SessionId, s, wrtc, nil, rec)
-				s.sessions.Store(e.SessionId, sess)
 				sdp, err = sess.StartRecording(e)
-				s.PublishPubSub(e.Success(sdp, rec.GetFilePath()))
 			}()
 
 			if err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
+				sess.StopRecording()
 				s.PublishPubSub(e.Fail(err))
+				return
 			}
 
+			s.PublishPubSub(e.Success(sdp, rec.GetFilePath()))
+
 		default:
 			err := fmt.Errorf("unknown adapter type: %s", e.Adapter)
 			log.WithField("session", ctx.Value("session")).Error(err)
@@ -132,9 +140,9 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		}
 
 		if sess, ok := s.sessions.Load(e.SessionId); ok {
-			ts := sess.(*Session).StopRecording() / time.Millisecond
-			s.PublishPubSub(e.Stopped("stopped", ts))
-			s.CloseSession(e.SessionId)
+			if ts, ended := sess.(*Session).StopRecording(); ended {
+				s.PublishPubSub(e.Stopped("stopped", ts/time.Millisecond))
+			}
 		}
 
 	case "getRecorderStatus":
@@ -153,6 +161,7 @@ func (s *Server) OnStart() error {
 	return nil
 }
 
-func (s *Server) CloseSession(id string) {
-	s.sessions.Delete(id)
+func (s *Server) CloseSession(sess *Session) {
+	// The ID may belong to a newer session already
+	s.sessions.CompareAndDelete(sess.id, sess)
 }
diff --git a/internal/server/session.go b/internal/server/session.go
index ce47407..ba30a6f 100644
--- a/internal/server/session.go
+++ b/internal/server/session.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"fmt"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus"
@@ -10,6 +12,7 @@ import (
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/signal"
 	pwebrtc "github.com/pion/webrtc/v3"
+	log "github.com/sirupsen/logrus"
 )
 
 type Session struct {
@@ -18,7 +21,15 @@ type Session struct {
 	webrtc   *webrtc.WebRTC
 	livekit  *livekit.LiveKitWebRTC
 	recorder recorder.Recorder
-	stopped  bool
+
+	// Closed once the outcome of the start request was published (or the start
+	// was abandoned): nothing about the session is published before that
+	answered chan struct{}
+
+	// Guards stopped, and is held while publishing status events so that none
+	// of them can follow the session's recordingStopped
+	m       sync.Mutex
+	stopped bool
 }
 
 func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWebRTC, recorder recorder.Recorder) *Session {
@@ -28,6 +39,7 @@ func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWe
 		webrtc:   wrtc,
 		livekit:  lk,
 		recorder: recorder,
+		answered: make(chan struct{}),
 	}
 }
 
@@ -39,23 +51,10 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 		signal.Decode(e.GetSDP(), &offer)
 		s.webrtc.SetConnectionStateCallback(func(state pwebrtc.ICEConnectionState) {
 			if state > pwebrtc.ICEConnectionStateConnected {
-				if !s.stopped {
-					ts := s.StopRecording() / time.Millisecond
-					s.server.PublishPubSub(events.NewRecordingStopped(s.id, state.String(), ts))
-					s.server.CloseSession(s.id)
-				}
+				s.onTransportClosed(state.String())
 			}
 		})
-		s.webrtc.SetFlowCallback(func(isFlowing bool, timestamp time.Duration, closed bool) {
-			var message interface{}
-			if !closed {
-				message = events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond)
-			} else {
-				s.server.CloseSession(s.id)
-				message = events.NewRecordingStopped(s.id, "closed", timestamp/time.Millisecond)
-			}
-			s.server.PublishPubSub(message)
-		})
+		s.webrtc.SetFlowCallback(s.onFlow)
 		s.webrtc.SetSDPOffer(offer)
 		answer, err := s.webrtc.Init(s.recorder)
 
@@ -68,16 +67,7 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 
 	// For LiveKit, we don't need to return an SDP answer
 	if s.livekit != nil {
-		s.livekit.SetFlowCallback(func(isFlowing bool, timestamp time.Duration, closed bool) {
-			var message interface{}
-			if !closed {
-				message = events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond)
-			} else {
-				s.server.CloseSession(s.id)
-				message = events.NewRecordingStopped(s.id, "closed", timestamp/time.Millisecond)
-			}
-			s.server.PublishPubSub(message)
-		})
+		s.livekit.SetFlowCallback(s.onFlow)
 
 		if err := s.livekit.Init(s.recorder); err != nil {
 			return "", err
@@ -87,11 +77,78 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 	return "", nil
 }
 
-func (s *Session) StopRecording() time.Duration {
-	if !s.stopped {
-		s.stopped = true
-		prometheus.Sessions.Dec()
-		return s.recorder.Close()
+// onFlow handles the media status of the session's tracks
+func (s *Session) onFlow(isFlowing bool, timestamp time.Duration, closed bool) {
+	if closed {
+		s.onTransportClosed("closed")
+		return
+	}
+
+	<-s.answered
+
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	if s.stopped {
+		return
+	}
+
+	s.server.PublishPubSub(events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond))
+}
+
+// onTransportClosed handles the end of a session which nobody asked to stop
+func (s *Session) onTransportClosed(reason string) {
+	<-s.answered
+
+	if ts, ok := s.StopRecording(); ok {
+		s.server.PublishPubSub(events.NewRecordingStopped(s.id, reason, ts/time.Millisecond))
+	}
+}
+
+// Answered must be called when the outcome of the start request was published
+func (s *Session) Answered() {
+	close(s.answered)
+}
+
+// StopRecording ends the session: it finalises the recording, releases the
+// transport and makes the session ID available again. It returns the timestamp
+// of the last written frame, and whether this call is the one that ended the
+// session.
+func (s *Session) StopRecording() (time.Duration, bool) {
+	s.m.Lock()
+
+	if s.stopped {
+		s.m.Unlock()
+		return 0, false
+	}
+
+	s.stopped = true
+	s.m.Unlock()
+
+	ts := s.recorder.Close()
+	s.closeTransport()
+	s.server.CloseSession(s)
+	prometheus.Sessions.Dec()
+
+	return ts, true
+}
+
+func (s *Session) closeTransport() {
+	defer func() {
+		if r := recover(); r != nil {
+			log.WithField("session", s.id).Error(fmt.Errorf("%v", r))
+		}
+	}()
+
+	if s.webrtc != nil {
+		if err := s.webrtc.Close(); err != nil {
+			log.WithField("session", s.id).Error(err)
+		}
+	}
+
+	if s.livekit != nil {
+		if err := s.livekit.Close(); err != nil {
+			log.WithField("session", s.id).Error(err)
+		}
 	}
-	return 0
 }
diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 070f923..aae6e45 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -524,6 +524,10 @@ func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 }
 
 func (w *WebRTC) Close() error {
+	if w.pc == nil {
+		return nil
+	}
+
 	return w.pc.Close()
 }
 
-- 
2.43.0


From ca46babf24d8e8495f88aeea1fbd1edefd9ffc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 05/43] fix: a message which cannot be decoded must not take
 the service down

Decode returns nil for those and IsValid dereferenced it.
---
 internal/pubsub/events/events.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pubsub/events/events.go b/internal/pubsub/events/events.go
index eff67b3..4f77f20 100644
--- a/internal/pubsub/events/events.go
+++ b/internal/pubsub/events/events.go
@@ -44,7 +44,7 @@ type LiveKitConfig struct {
 }
 
 func (e *Event) IsValid() bool {
-	return e.Id != ""
+	return e != nil && e.Id != ""
 }
 
 func (e *Event) StartRecording() *StartRecording {
-- 
2.43.0


From 6de573aaea05d8bafbeed2f737f0e1450d305f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 06/43] fix: a huge nested message must not overflow the
 decoder's stack

---
 internal/pubsub/events/decode.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/pubsub/events/decode.go b/internal/pubsub/events/decode.go
index d8afbd5..24da637 100644
--- a/internal/pubsub/events/decode.go
+++ b/internal/pubsub/events/decode.go
@@ -5,7 +5,16 @@ import (
 	"github.com/titanous/json5"
 )
 
+// Messages are a few KB (an SDP at most). The decoder is recursive, so a huge
+// deeply nested message would overflow the stack, which is not recoverable.
+const maxMessageSize = 1 << 20
+
 func Decode(message []byte) *Event {
+	if len(message) > maxMessageSize {
+		log.Errorf("message too large: %d bytes", len(message))
+		return nil
+	}
+
 	e := &Event{}
 	m := make(map[string]interface{})
 	if err := json5.Unmarshal(message, &m); err != nil {
-- 
2.43.0


From 47c89cc5a1e32c772cce016b8b9f19d2674a10ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 07/43] fix: startRecording without an adapter defaults to
 mediasoup, as documented

adapterOptions.mediasoup.sdp without an adapter was refused as an unsupported
adapter.
---
 internal/pubsub/events/events.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/pubsub/events/events.go b/internal/pubsub/events/events.go
index 4f77f20..75bd5a6 100644
--- a/internal/pubsub/events/events.go
+++ b/internal/pubsub/events/events.go
@@ -108,7 +108,8 @@ func (e *StartRecording) Validate() error {
 		if len(e.AdapterOptions.LiveKit.TrackIDs) == 0 {
 			return fmt.Errorf("livekit adapter requires at least one track ID")
 		}
-	case AdapterMediasoup:
+	case AdapterMediasoup, "":
+		// Defaults to mediasoup if not specified
 		// TODO remove legacy SDP field later on - prlanzarin
 		if e.AdapterOptions != nil && e.AdapterOptions.Mediasoup != nil && e.AdapterOptions.Mediasoup.SDP != "" {
 			return nil
-- 
2.43.0


From 8930af222d1dbb10ace9d13640db7a39ea39058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 08/43] fix: report the last written frame of audio recordings
 when they stop

recordingStopped carried the video timestamp only, i.e. always 0 for
audio-only recordings.
---
 internal/webrtc/recorder/webm.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 039b632..cb7aa1e 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -239,7 +239,7 @@ func isSequenceInRange(seq, start, end uint16) bool {
 // Locked
 func (r *WebmRecorder) close() time.Duration {
 	if r.closed {
-		return r.videoTimestamp
+		return r.lastTimestamp()
 	}
 	r.closed = true
 
@@ -273,6 +273,15 @@ func (r *WebmRecorder) close() time.Duration {
 		r.ivfWriter = nil
 	}
 
+	return r.lastTimestamp()
+}
+
+// lastTimestamp is the timestamp of the last written frame of any track. Locked
+func (r *WebmRecorder) lastTimestamp() time.Duration {
+	if r.audioTimestamp > r.videoTimestamp {
+		return r.audioTimestamp
+	}
+
 	return r.videoTimestamp
 }
 
-- 
2.43.0


From 3c705ee326a99b2514cb529fa3bd703c48d8c270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 09/43] fix: malformed VP8 payloads must not take the service
 down

Truncated payload descriptors make the depacketizer panic, a descriptor
without payload and short keyframes were indexed out of range. A packet which
cannot be parsed also spoils the frame it belongs to. The dimensions were
looked for in packets which do not start a frame, and in whichever packet
completed the keyframe instead of the one starting it.
---
 internal/webrtc/recorder/webm.go | 41 +++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index cb7aa1e..66355cd 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -305,6 +305,12 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		return
 	}
 
+	if _, err := unmarshalVP8(packet.Payload); err != nil {
+		log.WithField("session", r.ctx.Value("session")).
+			Debugf("Failed to unmarshal VP8 packet: seq=%d, err=%v", packet.SequenceNumber, err)
+		return
+	}
+
 	isKeyFrame := IsVP8KeyFrame(packet)
 
 	if isKeyFrame {
@@ -334,7 +340,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		if isKf && ((r.videoWriter == nil && r.hasVideo) ||
 			(r.audioWriter == nil && r.hasAudio) ||
 			(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio))) {
-			width, height := GetVP8KFDimension(packet)
+			width, height := GetVP8KFDimension(r.currKeyFrame)
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
 			r.initWriter(width, height)
@@ -459,14 +465,31 @@ func validateVP8Frame(frame []byte, frameInfo *VP8FrameInfo) (bool, string) {
 	return true, ""
 }
 
+// unmarshalVP8 parses the payload of a VP8 packet. The depacketizer panics with
+// some truncated payload descriptors, and what comes after a valid one may be
+// empty: neither is usable.
+func unmarshalVP8(payload []byte) (vp8Packet codecs.VP8Packet, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid VP8 payload descriptor: %v", r)
+		}
+	}()
+
+	if _, err = vp8Packet.Unmarshal(payload); err == nil && len(vp8Packet.Payload) == 0 {
+		err = fmt.Errorf("no VP8 payload")
+	}
+
+	return vp8Packet, err
+}
+
 func IsVP8KeyFrame(packet *rtp.Packet) bool {
 	if len(packet.Payload) == 0 {
 		return false
 	}
 
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet, err := unmarshalVP8(packet.Payload)
 
-	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil {
+	if err != nil {
 		return false
 	}
 
@@ -478,13 +501,13 @@ func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
 		return 0, 0
 	}
 
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet, err := unmarshalVP8(packet.Payload)
 
-	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil {
+	if err != nil {
 		return 0, 0
 	}
 
-	if vp8Packet.S != 0 || vp8Packet.PID != 0 {
+	if vp8Packet.S == 0 || vp8Packet.PID != 0 || len(vp8Packet.Payload) < 10 {
 		return 0, 0
 	}
 
@@ -540,11 +563,13 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	r.expectedNextSeq = p.SequenceNumber + 1
 	r.lastProcessedSeq = p.SequenceNumber
 
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet, err := unmarshalVP8(p.Payload)
 
-	if _, err := vp8Packet.Unmarshal(p.Payload); err != nil {
+	if err != nil {
 		log.WithField("session", r.ctx.Value("session")).
 			Debugf("Failed to unmarshal VP8 packet: seq=%d, err=%v", p.SequenceNumber, err)
+		r.currentFrame = nil
+		r.currentFrameInfo = nil
 		r.hasKeyFrame = false
 		r.RequestKeyframe()
 		return
-- 
2.43.0


From 5e109a1b4eb497cb096d9809285084faf90a18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 10/43] fix: a frame which lost packets must never be recorded

The partial frame was only discarded when the gap had been signaled and ended
exactly at the current packet, not when sequence number 0 was the lost one,
and padding packets made a gap out of nothing.
---
 internal/webrtc/recorder/webm.go | 34 +++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 66355cd..897e6f7 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -87,6 +87,7 @@ type WebmRecorder struct {
 	skipSignaled     bool
 	lastProcessedSeq uint16
 	expectedNextSeq  uint16
+	hasExpectedSeq   bool
 
 	corruptedFrameCount int
 	lastFrameSize       int
@@ -526,11 +527,11 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		return
 	}
 
-	if len(p.Payload) == 0 || r.closed {
+	if r.closed {
 		return
 	}
 
-	if r.expectedNextSeq > 0 && p.SequenceNumber != r.expectedNextSeq {
+	if r.hasExpectedSeq && p.SequenceNumber != r.expectedNextSeq {
 		if !r.skipSignaled {
 			log.WithField("session", r.ctx.Value("session")).
 				Debugf("Sequence discontinuity detected: expected=%d, got=%d",
@@ -542,27 +543,36 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 				Debugf("Processing first packet after skip: seq=%d, last_skipped=%d",
 					p.SequenceNumber, r.lastSkippedSeq)
 
-			// Force treating this as a new frame start for safety
-			if r.currentFrame != nil {
-				var logMsgPkts = 0
+		}
 
-				if r.currentFrameInfo != nil {
-					logMsgPkts = len(r.currentFrameInfo.packets)
-				}
+		// Whatever is missing may belong to the frame in progress, signaled or not
+		if r.currentFrame != nil {
+			var logMsgPkts = 0
 
-				log.WithField("session", r.ctx.Value("session")).
-					Warnf("Discarding partial frame after skip boundary: pkts=%v", logMsgPkts)
-				r.currentFrame = nil
-				r.currentFrameInfo = nil
+			if r.currentFrameInfo != nil {
+				logMsgPkts = len(r.currentFrameInfo.packets)
 			}
+
+			log.WithField("session", r.ctx.Value("session")).
+				Warnf("Discarding partial frame after skip boundary: pkts=%v", logMsgPkts)
+			r.currentFrame = nil
+			r.currentFrameInfo = nil
+			r.hasKeyFrame = false
+			r.RequestKeyframe()
 		}
 
 		r.skipSignaled = false
 	}
 
 	r.expectedNextSeq = p.SequenceNumber + 1
+	r.hasExpectedSeq = true
 	r.lastProcessedSeq = p.SequenceNumber
 
+	// Padding
+	if len(p.Payload) == 0 {
+		return
+	}
+
 	vp8Packet, err := unmarshalVP8(p.Payload)
 
 	if err != nil {
-- 
2.43.0


From 2d4c41b6f31104b6b8ca658f0c905903407b37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 11/43] fix: a packet which starts a later VP8 partition
 continues its frame

The frame was never completed when such a packet was its last one, and a
frame was made up from it when its first packets were missing.
---
 internal/webrtc/recorder/webm.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 897e6f7..ec9db8c 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -600,15 +600,13 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	if vp8Packet.S == 1 && vp8Packet.PID > 0 {
 		log.WithField("session", r.ctx.Value("session")).
 			Warnf("Mid-frame partition detected: seq=%d, PID=%d", p.SequenceNumber, vp8Packet.PID)
-		if r.currentFrameInfo != nil {
-			r.currentFrameInfo.packets = append(r.currentFrameInfo.packets, p.SequenceNumber)
-			r.currentFrame = append(r.currentFrame, vp8Packet.Payload[0:]...)
-			return
-		}
 	}
 
+	// S flags the start of a partition. Only the first one starts a frame
+	isFrameStart := vp8Packet.S == 1 && vp8Packet.PID == 0
+
 	// NEW FRAME!
-	if vp8Packet.S == 1 {
+	if isFrameStart {
 		// OLD FRAME, but not complete. Discard it.
 		if r.currentFrame != nil && len(r.currentFrame) > 0 {
 			var logMsgPkts = "none"
@@ -670,7 +668,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 					r.currentFrameInfo = nil
 				}
 
-				if isKeyFrame && vp8Packet.S == 1 {
+				if isKeyFrame {
 					// This is a new keyframe after discontinuity - ACCEPT IT
 					log.WithField("session", r.ctx.Value("session")).
 						Debugf("Accepting keyframe despite PictureID discontinuity: new picID=%d, seq=%d",
@@ -743,7 +741,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		r.currentFrame = nil
 		r.currentFrameInfo = nil
 		return
-	case r.currentFrame == nil && vp8Packet.S != 1:
+	case r.currentFrame == nil && !isFrameStart:
 		log.WithField("session", r.ctx.Value("session")).
 			Debugf("Dropping continuation packet without start bit: seq=%d", p.SequenceNumber)
 		r.currentFrameInfo = nil
-- 
2.43.0


From 5964d3b1b2cdaae6c43de1499c4789e5e3257663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 12/43] fix: resume at a keyframe after losing whole frames in
 every case

A gap following picture ID 0 was not looked at, nor any in streams without
picture IDs or with 7 bit ones wrapping around, so frames which refer to the
missing ones were recorded.
---
 internal/webrtc/recorder/webm.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index ec9db8c..279fb50 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -83,11 +83,14 @@ type WebmRecorder struct {
 
 	// Last PictureID received in any VP8 packet, not necessarily written
 	lastPictureID    uint16
+	hasLastPictureID bool
 	lastSkippedSeq   uint16
 	skipSignaled     bool
 	lastProcessedSeq uint16
 	expectedNextSeq  uint16
 	hasExpectedSeq   bool
+	// Packets were lost since the last frame start
+	lossPending bool
 
 	corruptedFrameCount int
 	lastFrameSize       int
@@ -237,6 +240,16 @@ func isSequenceInRange(seq, start, end uint16) bool {
 	return seq >= start || seq <= end
 }
 
+// isNextPictureID tells whether a packet belongs to the picture which follows
+// last. Picture IDs have 15 or 7 bits.
+func isNextPictureID(last uint16, vp8Packet *codecs.VP8Packet) bool {
+	if vp8Packet.I != 1 {
+		return false
+	}
+
+	return vp8Packet.PictureID == (last+1)&0x7FFF || (last == 0x7F && vp8Packet.PictureID == 0)
+}
+
 // Locked
 func (r *WebmRecorder) close() time.Duration {
 	if r.closed {
@@ -562,6 +575,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 
 		r.skipSignaled = false
+		r.lossPending = true
 	}
 
 	r.expectedNextSeq = p.SequenceNumber + 1
@@ -644,7 +658,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 
 		// Check for PictureID discontinuity
-		if r.lastPictureID > 0 {
+		if r.hasLastPictureID && vp8Packet.I == 1 {
 			// Picture ID should ++ and wrap around at 15 bits
 			expectedID := (r.lastPictureID + 1) & 0x7FFF
 			pidDiff := (pictureID - r.lastPictureID) & 0x7FFF
@@ -690,6 +704,18 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 				}
 			}
 		}
+
+		// Whole frames may be missing. Unless the PictureID says otherwise, only a
+		// keyframe is decodable
+		if r.lossPending {
+			r.lossPending = false
+
+			if !isKeyFrame && !(r.hasLastPictureID && isNextPictureID(r.lastPictureID, &vp8Packet)) {
+				r.hasKeyFrame = false
+				r.RequestKeyframe()
+				return
+			}
+		}
 	} else if r.currentFrameInfo != nil {
 		// Frame in progress, add packet to it
 		r.currentFrameInfo.packets = append(r.currentFrameInfo.packets, p.SequenceNumber)
@@ -804,6 +830,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 			r.currentFrameInfo.endSequence = p.SequenceNumber
 			r.currentFrameInfo.size = len(r.currentFrame)
 			r.lastPictureID = r.currentFrameInfo.pictureID
+			r.hasLastPictureID = vp8Packet.I == 1
 
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("VP8 frame complete: seq=[%d-%d], ts=%d, packets=%d, size=%d, elapsed=%v, keyframe=%v",
-- 
2.43.0


From aa533a8c5f1cf1c9ed9fa3bfad7da89fea809c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 13/43] fix: flag keyframes of several packets as such in the
 recording

The flag was taken from the packet which completes the frame, which starts
it in single packet frames only.
---
 internal/webrtc/recorder/webm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 279fb50..354b433 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -879,6 +879,9 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 	}
 
+	// From here on it is about the frame, not the packet which completed it
+	isKeyFrame = r.currentFrame[0]&0x1 == 0
+
 	r.lastFrameSize = len(r.currentFrame)
 	r.corruptedFrameCount = 0 // Reset corruption counter on valid frame
 
-- 
2.43.0


From ff8f4eb0cbd8978c057d803addd3d73eb67279e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 14/43] fix: start the file over only when a track is missing,
 and at a keyframe

In sessions with audio and video the file was truncated and started over at
every frame (delta frames too, with their payload as the dimensions) until
audio was written, and at every keyframe for good with the builtin sampler.
The previous file's writers were abandoned: they kept writing to it and their
goroutines and descriptor leaked. Timestamps continued from the previous
file's, so the tracks were apart by its duration; an audio track which starts
later than the file is now placed where it belongs.
---
 internal/webrtc/recorder/webm.go | 74 +++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 354b433..fbc1d37 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -56,7 +56,8 @@ type WebmRecorder struct {
 	hasAudio      bool
 	hasVideo      bool
 	hasValidAudio bool
-	hasValidVideo bool
+	// When the first frame of the file was about to be written
+	fileStartTime time.Time
 
 	audioWriter, videoWriter       webm.BlockWriteCloser
 	audioBuilder, videoBuilder     *samplebuilder.SampleBuilder
@@ -129,7 +130,6 @@ func NewWebmRecorder(
 		hasAudio:      false,
 		hasVideo:      false,
 		hasValidAudio: false,
-		hasValidVideo: false,
 	}
 
 	return r
@@ -257,16 +257,8 @@ func (r *WebmRecorder) close() time.Duration {
 	}
 	r.closed = true
 
-	if r.audioWriter != nil {
-		if err := r.audioWriter.Close(); err != nil {
-			panic(err)
-		}
-	}
-	if r.videoWriter != nil {
-		if err := r.videoWriter.Close(); err != nil {
-			panic(err)
-		}
-	}
+	r.closeWriters()
+
 	if r.started {
 		log.WithField("session", r.ctx.Value("session")).
 			Infof("webm writer closed: %s", r.file)
@@ -351,13 +343,12 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			isKf = ts == r.currKeyFrame.Timestamp
 		}
 
-		if isKf && ((r.videoWriter == nil && r.hasVideo) ||
-			(r.audioWriter == nil && r.hasAudio) ||
-			(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio))) {
+		if isKf && r.needsWriter() {
 			width, height := GetVP8KFDimension(r.currKeyFrame)
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
 			r.initWriter(width, height)
+			sample.Duration = 0
 		}
 
 		if r.videoWriter != nil {
@@ -406,7 +397,13 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 		}
 
 		if r.audioWriter != nil {
-			r.audioTimestamp += sample.Duration
+			if r.hasVideo && !r.hasValidAudio {
+				// Line it up with the video, which starts the file
+				r.audioTimestamp = time.Since(r.fileStartTime)
+			} else {
+				r.audioTimestamp += sample.Duration
+			}
+
 			if _, err := r.audioWriter.Write(true, int64(r.audioTimestamp/time.Millisecond), sample.Data); err != nil {
 				panic(err)
 			}
@@ -901,10 +898,10 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	// Initialize writer if either:
 	// 1. We don't have a video writer yet and we have video
 	// 2. We don't have an audio writer yet and we have audio
-	// 3. We have both tracks but haven't received valid samples from both yet
-	if (r.videoWriter == nil && r.hasVideo) ||
-		(r.audioWriter == nil && r.hasAudio) ||
-		(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio)) {
+	// The file starts over, which only a keyframe can do
+	if r.needsWriter() && !isKeyFrame {
+		r.RequestKeyframe()
+	} else if r.needsWriter() {
 
 		raw := uint(r.currentFrame[6]) | uint(r.currentFrame[7])<<8 | uint(r.currentFrame[8])<<16 | uint(r.currentFrame[9])<<24
 		width := int(raw & 0x3FFF)
@@ -914,6 +911,8 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 			Tracef("Frame dimensions: %dx%d", width, height)
 
 		r.initWriter(width, height)
+		newVideoTs = 0
+		newPts = 0
 	}
 
 	if r.videoWriter != nil {
@@ -964,7 +963,6 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 			r.pushToIVFWriter(r.currentFrame, p)
 		}
 
-		r.hasValidVideo = true
 	}
 
 	r.currentFrame = nil
@@ -1015,6 +1013,31 @@ func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
 	}
 }
 
+// needsWriter tells whether a track has no writer yet. Locked
+func (r *WebmRecorder) needsWriter() bool {
+	return (r.videoWriter == nil && r.hasVideo) ||
+		(r.audioWriter == nil && r.hasAudio)
+}
+
+// closeWriters finalizes the file, if any. Locked
+func (r *WebmRecorder) closeWriters() {
+	if r.audioWriter != nil {
+		if err := r.audioWriter.Close(); err != nil {
+			log.WithField("session", r.ctx.Value("session")).
+				Errorf("Error closing audio writer: %v", err)
+		}
+	}
+	if r.videoWriter != nil {
+		if err := r.videoWriter.Close(); err != nil {
+			log.WithField("session", r.ctx.Value("session")).
+				Errorf("Error closing video writer: %v", err)
+		}
+	}
+
+	r.audioWriter = nil
+	r.videoWriter = nil
+}
+
 func (r *WebmRecorder) initWriter(width, height int) {
 	if !r.hasAudio && !r.hasVideo {
 		log.WithField("session", r.ctx.Value("session")).
@@ -1022,6 +1045,15 @@ func (r *WebmRecorder) initWriter(width, height int) {
 		return
 	}
 
+	// The track which was missing in the previous file (if any) started: start
+	// over, with everything which belongs to it out of the way
+	r.closeWriters()
+	r.videoTimestamp = 0
+	r.audioTimestamp = 0
+	r.pts = 0
+	r.hasValidAudio = false
+	r.fileStartTime = time.Now()
+
 	log.WithField("file", r.file).WithField("fileMode", r.fileMode).Debug("Opening file for writing")
 	w, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
 	if err != nil {
-- 
2.43.0


From 14e4824bce84a3e017bc56b38fa443b0d1d6cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 15/43] fix: builtin sampler keyframe detection and IVF copy

A keyframe released after a newer one was received was not taken as one, its
dimensions were looked for in another packet, and the IVF copy was never
written (it looked at the custom sampler's frame) and had another frame's
timestamp.
---
 internal/webrtc/recorder/webm.go | 37 ++++++++++++++------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index fbc1d37..cffd3e9 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -70,7 +70,6 @@ type WebmRecorder struct {
 	seenKeyFrame bool
 	// Has a valid keyframe to keep recording
 	hasKeyFrame             bool
-	currKeyFrame            *rtp.Packet
 	lastKeyFrameTime        time.Time
 	keyframeRequester       KeyframeRequester
 	lastKeyframeRequestTime time.Time
@@ -320,7 +319,6 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 	isKeyFrame := IsVP8KeyFrame(packet)
 
 	if isKeyFrame {
-		r.currKeyFrame = packet
 		r.lastKeyFrameTime = time.Now()
 	}
 
@@ -337,14 +335,19 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			return
 		}
 
-		isKf := false
-
-		if r.currKeyFrame != nil {
-			isKf = ts == r.currKeyFrame.Timestamp
-		}
+		// Several frames may have been waiting for a missing packet, so this is not
+		// necessarily the last keyframe received
+		isKf := len(sample.Data) > 0 && sample.Data[0]&0x1 == 0
 
 		if isKf && r.needsWriter() {
-			width, height := GetVP8KFDimension(r.currKeyFrame)
+			width, height := 0, 0
+
+			if len(sample.Data) >= 10 {
+				raw := uint(sample.Data[6]) | uint(sample.Data[7])<<8 | uint(sample.Data[8])<<16 | uint(sample.Data[9])<<24
+				width = int(raw & 0x3FFF)
+				height = int((raw >> 16) & 0x3FFF)
+			}
+
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
 			r.initWriter(width, height)
@@ -365,7 +368,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		}
 
 		if r.writeIVFCopy {
-			r.pushToIVFWriter(sample.Data, packet)
+			r.pushToIVFWriter(sample.Data, ts, isKf)
 		}
 	}
 }
@@ -960,7 +963,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 
 		if r.writeIVFCopy {
-			r.pushToIVFWriter(r.currentFrame, p)
+			r.pushToIVFWriter(r.currentFrame, p.Timestamp, isKeyFrame)
 		}
 
 	}
@@ -986,16 +989,8 @@ func (r *WebmRecorder) startIVFWriter() error {
 	return nil
 }
 
-func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
-	if r.ivfWriter != nil && len(r.currentFrame) > 0 {
-		isKeyFrame := false
-
-		if r.currentFrameInfo != nil {
-			isKeyFrame = r.currentFrameInfo.isKeyFrame
-		} else {
-			isKeyFrame = IsVP8KeyFrame(p)
-		}
-
+func (r *WebmRecorder) pushToIVFWriter(frame []byte, timestamp uint32, isKeyFrame bool) {
+	if r.ivfWriter != nil && len(frame) > 0 {
 		if isKeyFrame && len(frame) >= 10 {
 			raw := uint(frame[6]) | uint(frame[7])<<8 | uint(frame[8])<<16 | uint(frame[9])<<24
 			width := uint16(raw & 0x3FFF)
@@ -1004,7 +999,7 @@ func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
 			r.ivfWriter.UpdateDimensions(width, height)
 		}
 
-		err := r.ivfWriter.WriteFrame(frame, p.Timestamp, isKeyFrame)
+		err := r.ivfWriter.WriteFrame(frame, timestamp, isKeyFrame)
 
 		if err != nil {
 			log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From 6f784c2cb8e0d5a6ca114c91ce18817723f3de0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 16/43] fix: IVF copies must not expose, overwrite or mix up
 anything

They were created with the default permissions instead of the configured
ones, truncated whatever had their name, kept the frames from before the
recording started over, and with writeToDevNull were created in /dev.
---
 internal/webrtc/recorder/ivfwriter.go | 26 ++++++++++++++++++++++----
 internal/webrtc/recorder/webm.go      | 10 ++++++++--
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/internal/webrtc/recorder/ivfwriter.go b/internal/webrtc/recorder/ivfwriter.go
index a1d1108..62eb75d 100644
--- a/internal/webrtc/recorder/ivfwriter.go
+++ b/internal/webrtc/recorder/ivfwriter.go
@@ -26,7 +26,7 @@ type RTPPacketWithMeta struct {
 }
 
 // VP8 only for now
-func NewIVFWriter(basePath string) (*IVFWriter, error) {
+func NewIVFWriter(basePath string, fileMode os.FileMode) (*IVFWriter, error) {
 	if basePath == "" {
 		return &IVFWriter{enabled: false}, nil
 	}
@@ -34,7 +34,7 @@ func NewIVFWriter(basePath string) (*IVFWriter, error) {
 	ext := filepath.Ext(basePath)
 	ivfPath := basePath[:len(basePath)-len(ext)] + ".ivf"
 
-	file, err := os.Create(ivfPath)
+	file, err := os.OpenFile(ivfPath, os.O_RDWR|os.O_CREATE|os.O_EXCL, fileMode)
 	if err != nil {
 		return nil, err
 	}
@@ -90,12 +90,30 @@ func (writer *IVFWriter) writeIVFHeader(width, height uint16) error {
 
 	_, err := writer.file.Write(header)
 
+	return err
+}
+
+// Restart drops everything written so far
+func (writer *IVFWriter) Restart() error {
+	if !writer.enabled || writer.closed {
+		return nil
+	}
+
+	writer.mu.Lock()
+	writer.frameCount = 0
+	err := writer.file.Truncate(0)
+
+	if err == nil {
+		_, err = writer.file.Seek(0, io.SeekStart)
+	}
+
+	writer.mu.Unlock()
+
 	if err != nil {
 		return err
 	}
 
-	_, err = writer.file.Seek(0, io.SeekStart)
-	return err
+	return writer.writeIVFHeader(640, 480)
 }
 
 func (writer *IVFWriter) UpdateDimensions(width, height uint16) error {
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index cffd3e9..dd242d0 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -973,8 +973,14 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 }
 
 func (r *WebmRecorder) startIVFWriter() error {
-	if r.ivfWriter == nil {
-		ivf, err := NewIVFWriter(r.file)
+	// The recording started over
+	if r.ivfWriter != nil {
+		return r.ivfWriter.Restart()
+	}
+
+	// There is no place for a copy of a recording which is not kept
+	if r.file != os.DevNull {
+		ivf, err := NewIVFWriter(r.file, r.fileMode)
 
 		if err != nil {
 			return fmt.Errorf("failed to create RTP ivf: %w", err)
-- 
2.43.0


From 49d0aaf8b58c9d19e9950ed325d28030bcb87ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 17/43] fix: an I/O error of a recording must not take the
 service down

Failing to create, write or close a file panicked, partly in the muxer's
goroutines where nothing can recover it, ending every other session too.
---
 internal/webrtc/recorder/webm.go | 41 ++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index dd242d0..5c52735 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -360,7 +360,8 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			r.videoTimestamp += sample.Duration
 
 			if _, err := r.videoWriter.Write(isKf, int64(r.videoTimestamp/time.Millisecond), sample.Data); err != nil {
-				panic(err)
+				log.WithField("session", r.ctx.Value("session")).
+					Errorf("Error writing video frame: %v", err)
 			}
 
 			log.WithField("session", r.ctx.Value("session")).
@@ -408,7 +409,8 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 			}
 
 			if _, err := r.audioWriter.Write(true, int64(r.audioTimestamp/time.Millisecond), sample.Data); err != nil {
-				panic(err)
+				log.WithField("session", r.ctx.Value("session")).
+					Errorf("Error writing audio frame: %v", err)
 			}
 
 			log.WithField("session", r.ctx.Value("session")).
@@ -1039,6 +1041,35 @@ func (r *WebmRecorder) closeWriters() {
 	r.videoWriter = nil
 }
 
+// recordingFile is the muxer's output. The muxer cannot do anything about an
+// I/O error but panic in its own goroutine, or stop reading frames. The first
+// error ends the file instead, with what was written so far being readable.
+type recordingFile struct {
+	file    *os.File
+	session interface{}
+	failed  bool
+}
+
+func (f *recordingFile) Write(b []byte) (int, error) {
+	if !f.failed {
+		if _, err := f.file.Write(b); err != nil {
+			f.failed = true
+			log.WithField("session", f.session).
+				Errorf("Error writing file, nothing else will be recorded: %v", err)
+		}
+	}
+
+	return len(b), nil
+}
+
+func (f *recordingFile) Close() error {
+	if err := f.file.Close(); err != nil {
+		log.WithField("session", f.session).Errorf("Error closing file: %v", err)
+	}
+
+	return nil
+}
+
 func (r *WebmRecorder) initWriter(width, height int) {
 	if !r.hasAudio && !r.hasVideo {
 		log.WithField("session", r.ctx.Value("session")).
@@ -1058,7 +1089,9 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	log.WithField("file", r.file).WithField("fileMode", r.fileMode).Debug("Opening file for writing")
 	w, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
 	if err != nil {
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Error opening file: %v", err)
+		return
 	}
 
 	info := &webm.Info{
@@ -1118,7 +1151,7 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	}
 
 	writers, err := webm.NewSimpleBlockWriter(
-		w,
+		&recordingFile{file: w, session: r.ctx.Value("session")},
 		tracks,
 		mkvcore.WithSegmentInfo(info),
 		mkvcore.WithBlockInterceptor(interceptor),
-- 
2.43.0


From 13f217d601c0c72f13c6c93f0db87c9f92074dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 18/43] fix: recordings must stay in the directory and never
 overwrite a file

A file name with '..' was written anywhere, directories were created for
names which are refused anyway, and since files are created when their first
frame arrives, two sessions could be given the same name, or a file created in
the meantime was truncated.
---
 internal/webrtc/recorder/recorder.go | 45 ++++++++++++++++++++++++++++
 internal/webrtc/recorder/webm.go     | 12 +++++++-
 2 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index 5f1f2b5..6a17c39 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -7,6 +7,8 @@ import (
 	"path"
 	"path/filepath"
 	"strconv"
+	"strings"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -41,6 +43,11 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 	}
 
 	if !cfg.WriteToDevNull {
+		// The name comes from the requester and must stay in the directory
+		if !filepath.IsLocal(strings.TrimLeft(file, string(os.PathSeparator))) {
+			return "", 0, fmt.Errorf("invalid file name %s", file)
+		}
+
 		file = path.Clean(dir + string(os.PathSeparator) + file)
 		fileDir := path.Dir(file)
 
@@ -82,14 +89,52 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 	return file, fileMode, nil
 }
 
+// Files are created when their first frame is written. Until then, these are
+// the ones which belong to the recorders that were not closed yet.
+var (
+	reservedFilesM sync.Mutex
+	reservedFiles  = make(map[string]struct{})
+)
+
+func reserveFile(file string) bool {
+	reservedFilesM.Lock()
+	defer reservedFilesM.Unlock()
+
+	if _, exists := reservedFiles[file]; exists {
+		return false
+	}
+
+	if file != os.DevNull {
+		reservedFiles[file] = struct{}{}
+	}
+
+	return true
+}
+
+func releaseFile(file string) {
+	reservedFilesM.Lock()
+	defer reservedFilesM.Unlock()
+
+	delete(reservedFiles, file)
+}
+
 func NewRecorder(ctx context.Context, cfg config.Recorder, file string) (Recorder, error) {
 	ext := filepath.Ext(file)
+
+	if ext != ".webm" {
+		return nil, fmt.Errorf("unsupported file extension %s", ext)
+	}
+
 	file, fileMode, err := ValidateAndPrepareFile(ctx, cfg, file)
 
 	if err != nil {
 		return nil, err
 	}
 
+	if !reserveFile(file) {
+		return nil, fmt.Errorf("file already exists %s", file)
+	}
+
 	var r Recorder
 	switch ext {
 	case ".webm":
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 5c52735..70318fb 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -255,6 +255,7 @@ func (r *WebmRecorder) close() time.Duration {
 		return r.lastTimestamp()
 	}
 	r.closed = true
+	defer releaseFile(r.file)
 
 	r.closeWriters()
 
@@ -1087,7 +1088,16 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	r.fileStartTime = time.Now()
 
 	log.WithField("file", r.file).WithField("fileMode", r.fileMode).Debug("Opening file for writing")
-	w, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
+	flags := os.O_WRONLY | os.O_CREATE
+
+	if r.started || r.file == os.DevNull {
+		flags |= os.O_TRUNC
+	} else {
+		// Whatever has this name by now is not ours
+		flags |= os.O_EXCL
+	}
+
+	w, err := os.OpenFile(r.file, flags, r.fileMode)
 	if err != nil {
 		log.WithField("session", r.ctx.Value("session")).
 			Errorf("Error opening file: %v", err)
-- 
2.43.0


From 7bd510b6d2ca38c89ae67564143c6f84ea59920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 19/43] fix: the jitter buffer must not lose a first packet
 numbered 0

0 stood for 'no packet yet', so the second packet was taken as the first one
if it arrived before the first one was read.
---
 internal/webrtc/utils/jitter_buffer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/utils/jitter_buffer.go b/internal/webrtc/utils/jitter_buffer.go
index c9c223e..0085461 100644
--- a/internal/webrtc/utils/jitter_buffer.go
+++ b/internal/webrtc/utils/jitter_buffer.go
@@ -11,6 +11,7 @@ import (
 type JitterBuffer struct {
 	// The track reader and the NACK goroutine share the buffer
 	m                    sync.Mutex
+	started              bool
 	nextStart            int64
 	end                  int64
 	packets              []*rtp.Packet
@@ -55,9 +56,10 @@ func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
 		return false
 	}
 
-	if s.nextStart == 0 {
+	if !s.started {
 		log.WithField("session", s.ctx.Value("session")).
 			Tracef("First packet in jitter buffer: seq=%d", seq)
+		s.started = true
 		s.nextStart = seq
 	}
 
-- 
2.43.0


From bb4627579dc3d137b380380d883265b77126bd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 20/43] fix: a late packet must not pass for a newer one in the
 receive log

Packets from before the log's window set the bit of the packet which has their
place by now, so if that one was lost it was never requested again.
---
 internal/webrtc/utils/receive_log.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/webrtc/utils/receive_log.go b/internal/webrtc/utils/receive_log.go
index 4bbe33b..aa58b9c 100644
--- a/internal/webrtc/utils/receive_log.go
+++ b/internal/webrtc/utils/receive_log.go
@@ -71,6 +71,11 @@ func (s *ReceiveLog) Add(seq uint16) {
 		}
 	} else {
 		// negative diff, seq < end (with counting for rollovers)
+		if s.end-seq >= s.size {
+			// too old, its place belongs to a newer packet
+			return
+		}
+
 		if s.lastConsecutive+1 == seq {
 			s.lastConsecutive = seq
 			s.fixLastConsecutive() // there might be other valid packets after seq
@@ -122,6 +127,11 @@ func (s *ReceiveLog) IgnoreSeqNum(seq uint16) {
 
 	// Forcefully mark this packet as received - used in scenarios where we
 	// we give up on NACKing a packet
+	if s.end-seq >= s.size {
+		// too old, its place belongs to a newer packet
+		return
+	}
+
 	s.set(seq)
 
 	// If this seqnum was blocking, ffw it
-- 
2.43.0


From b61eb636b08e559f6bf2d5493914f7caab8bb807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 21/43] fix: give the jitter buffer unwrapped sequence numbers
 only

Giving up on a packet was ignored after the first wrap around (it passed the
16 bit number), and a packet from before the first one made the numbering jump
a whole cycle if that one was close to 0, which stalls the track until the
buffer has been filled and makes old packets look new.
---
 internal/webrtc/webrtc.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index aae6e45..835470b 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -218,6 +218,9 @@ func (w *WebRTC) Init(
 			w.ctx,
 		)
 
+		// Last sequence number received, unwrapped
+		var lastSeq atomic.Int64
+
 		if true {
 			senderSSRC := rand.Uint32()
 			sentNACKs := 0
@@ -262,7 +265,9 @@ func (w *WebRTC) Init(
 									Debugf("Giving up on packet: seq=%d, attempts=%d", seq, maxNackAttempts)
 
 								rl.IgnoreSeqNum(seq)
-								jb.SkipPacket(int64(seq))
+								// The jitter buffer goes by unwrapped sequence numbers
+								last := lastSeq.Load()
+								jb.SkipPacket(last + int64(int16(seq-uint16(last))))
 								nackedPackets[seq] = NACKTracker{count: tracker.count + 1, timestamp: now}
 							}
 						}
@@ -393,7 +398,16 @@ func (w *WebRTC) Init(
 			}
 			prevSeq = rtp.SequenceNumber
 
+			if packetCounter == 1 {
+				// Go around once, so that packets which precede the first one have
+				// lower numbers (they are not negative) even if it is close to 0
+				for i := uint16(0); i < 4; i++ {
+					su.Unwrap(uint64(rtp.SequenceNumber + i*0x4000))
+				}
+			}
+
 			seq = su.Unwrap(uint64(rtp.SequenceNumber))
+			lastSeq.Store(seq)
 
 			if !jb.Add(seq, rtp) {
 				log.WithField("session", w.ctx.Value("session")).
-- 
2.43.0


From 67a838da9afa13730ab358e5d9b90b428fb6ecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 22/43] fix: LiveKit keyframe requests and closing must not
 deadlock nor stop early

---
 internal/webrtc/livekit/livekit.go | 42 +++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 33e6130..9bec3ad 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -45,6 +45,8 @@ type TrackFlowState struct {
 }
 
 type LiveKitWebRTC struct {
+	// Guards room, remoteParticipants and pliStats. Not held while calling the
+	// handler, which requests keyframes under a lock of its own
 	m                  sync.Mutex
 	ctx                context.Context
 	cfg                config.LiveKit
@@ -124,7 +126,9 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 		return fmt.Errorf("failed to connect to LiveKit room: %w", err)
 	}
 
+	w.m.Lock()
 	w.room = roomClient
+	w.m.Unlock()
 
 	log.WithField("session", w.ctx.Value("session")).
 		Infof("Connected to LiveKit room %s", w.roomId)
@@ -140,10 +144,11 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 
 func (w *LiveKitWebRTC) Close() error {
 	w.m.Lock()
-	defer w.m.Unlock()
+	room := w.room
+	w.m.Unlock()
 
-	if w.room != nil {
-		w.room.Disconnect()
+	if room != nil {
+		room.Disconnect()
 	}
 
 	return nil
@@ -178,7 +183,10 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 		}
 	}
 
+	w.m.Lock()
 	w.remoteParticipants = remoteParticipants
+	w.m.Unlock()
+
 	return subscribedTracks, nil
 }
 
@@ -199,23 +207,29 @@ func (w *LiveKitWebRTC) subscribe(track lksdk.TrackPublication) error {
 
 func (w *LiveKitWebRTC) RequestKeyframe() {
 	w.m.Lock()
-	defer w.m.Unlock()
 
+	ids := make([]uint32, 0, len(w.pliStats))
 	ssrcs := make([]string, 0, len(w.pliStats))
 
 	for ssrc := range w.pliStats {
+		ids = append(ids, ssrc)
 		ssrcs = append(ssrcs, fmt.Sprintf("%d", ssrc))
 	}
 
+	w.m.Unlock()
+
 	log.WithField("session", w.ctx.Value("session")).
 		Tracef("Requesting keyframe for SSRCs %s", strings.Join(ssrcs, ", "))
 
-	for ssrc := range w.pliStats {
-		w.RequestKeyframeForSSRC(uint32(ssrc))
+	for _, ssrc := range ids {
+		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
 
 func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+	w.m.Lock()
+	defer w.m.Unlock()
+
 	if w.room == nil {
 		return
 	}
@@ -318,12 +332,19 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 		// TODO: plug logger
 	)
 
+	// Closed when the track ends
+	done := make(chan struct{})
+
 	w.m.Lock()
 	w.jitterBuffers[trackID] = buffer
+	w.m.Unlock()
 
 	if isVideo {
 		ssrc := uint32(track.SSRC())
+
+		w.m.Lock()
 		w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
+		w.m.Unlock()
 
 		if kfr, ok := w.handler.(interface {
 			SetKeyframeRequester(interfaces.KeyframeRequester)
@@ -333,16 +354,12 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 
 		// Start periodic PLI requests - 3s to be similar to the other adapter,
 		// but LK is smarter than this. TODO remove later
-		done := make(chan bool)
-		defer func() {
-			done <- true
-		}()
 		go func() {
 			ticker := time.NewTicker(time.Second * 3)
+			defer ticker.Stop()
 			for {
 				select {
 				case <-done:
-					ticker.Stop()
 					return
 				case <-ticker.C:
 					w.RequestKeyframeForSSRC(ssrc)
@@ -350,7 +367,6 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 			}
 		}()
 	}
-	w.m.Unlock()
 
 	flowCheckDone := make(chan bool)
 	defer func() {
@@ -386,6 +402,8 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 	}()
 
 	go func() {
+		defer close(done)
+
 		for {
 			packet, _, err := track.ReadRTP()
 
-- 
2.43.0


From a5ae9ac75bee7a909351d0b10ee2ca62e2a57fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 23/43] fix: LiveKit flow status must not deadlock, stop early
 or use RTP time

---
 internal/webrtc/livekit/livekit.go | 119 +++++++++++++++++------------
 1 file changed, 70 insertions(+), 49 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 9bec3ad..3fa24ba 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -39,7 +39,7 @@ type PLITracker struct {
 }
 
 type TrackFlowState struct {
-	lastSeqNum    uint16
+	packets       uint64
 	lastTimestamp time.Duration
 	isFlowing     bool
 }
@@ -60,7 +60,10 @@ type LiveKitWebRTC struct {
 	jitterBuffers      map[string]*jitter.Buffer
 	hasAudio           bool
 	hasVideo           bool
-	flowState          map[string]*TrackFlowState
+	// Guards flowState, and is held while calling flowCallback so that status
+	// changes are reported in order
+	flowM        sync.Mutex
+	flowState    map[string]*TrackFlowState
 	flowCallback       func(bool, time.Duration, bool)
 }
 
@@ -254,42 +257,74 @@ func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	}
 }
 
-func (w *LiveKitWebRTC) updateFlowState(trackID string, seqNum uint16, timestamp time.Duration) {
-	w.m.Lock()
-	defer w.m.Unlock()
+// updateFlowState accounts for a packet of the track
+func (w *LiveKitWebRTC) updateFlowState(trackID string, timestamp time.Duration) {
+	w.flowM.Lock()
+	defer w.flowM.Unlock()
 
 	state, exists := w.flowState[trackID]
 
 	if !exists {
-		state = &TrackFlowState{
-			lastSeqNum:    seqNum,
-			lastTimestamp: timestamp,
-			isFlowing:     false,
-		}
+		state = &TrackFlowState{}
 		w.flowState[trackID] = state
+	}
+
+	state.packets++
+	state.lastTimestamp = timestamp
+
+	w.setFlowing(trackID, state, true)
+}
+
+// checkFlowState tells that the track is not flowing if it had no packets since
+// the last check, whose packet count is the argument. It returns the current
+// packet count and whether the track is flowing.
+func (w *LiveKitWebRTC) checkFlowState(trackID string, lastPackets uint64) (uint64, bool) {
+	w.flowM.Lock()
+	defer w.flowM.Unlock()
+
+	state, exists := w.flowState[trackID]
+
+	if !exists {
+		return 0, false
+	}
+
+	if state.packets == lastPackets {
+		w.setFlowing(trackID, state, false)
+	}
+
+	return state.packets, state.isFlowing
+}
+
+// endFlow tells that the track is not flowing because it ended
+func (w *LiveKitWebRTC) endFlow(trackID string) {
+	w.flowM.Lock()
+	defer w.flowM.Unlock()
+
+	if state, exists := w.flowState[trackID]; exists {
+		w.setFlowing(trackID, state, false)
+	}
+}
 
+// Locked
+func (w *LiveKitWebRTC) setFlowing(trackID string, state *TrackFlowState, isFlowing bool) {
+	if state.isFlowing == isFlowing {
 		return
 	}
 
-	wasFlowing := state.isFlowing
-	state.isFlowing = state.lastSeqNum != seqNum
-	state.lastSeqNum = seqNum
-	state.lastTimestamp = timestamp
+	state.isFlowing = isFlowing
 
-	if state.isFlowing != wasFlowing && w.flowCallback != nil {
-		var latestTimestamp time.Duration
+	var latestTimestamp time.Duration
 
-		for _, s := range w.flowState {
-			if s.lastTimestamp > latestTimestamp {
-				latestTimestamp = s.lastTimestamp
-			}
+	for _, s := range w.flowState {
+		if s.lastTimestamp > latestTimestamp {
+			latestTimestamp = s.lastTimestamp
 		}
-
-		w.flowCallback(state.isFlowing, latestTimestamp, false)
-		log.WithField("session", w.ctx.Value("session")).
-			Tracef("Flow state changed for track %s: flowing=%v latestTimestamp=%s",
-				trackID, state.isFlowing, latestTimestamp)
 	}
+
+	w.flowCallback(isFlowing, latestTimestamp, false)
+	log.WithField("session", w.ctx.Value("session")).
+		Tracef("Flow state changed for track %s: flowing=%v latestTimestamp=%s",
+			trackID, isFlowing, latestTimestamp)
 }
 
 func (w *LiveKitWebRTC) onTrackSubscribed(
@@ -368,35 +403,25 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 		}()
 	}
 
-	flowCheckDone := make(chan bool)
-	defer func() {
-		flowCheckDone <- true
-	}()
 	go func() {
 		ticker := time.NewTicker(time.Millisecond * 100)
-		var lastSeqNum uint16
+		defer ticker.Stop()
+
+		var packets uint64
+		var isFlowing bool
 		for {
 			select {
-			case <-flowCheckDone:
-				ticker.Stop()
+			case <-done:
+				w.endFlow(trackID)
 				return
 			case <-ticker.C:
-				w.m.Lock()
-				state, exists := w.flowState[trackID]
+				packets, isFlowing = w.checkFlowState(trackID, packets)
 
-				if exists && state.lastSeqNum == lastSeqNum {
-					// No new packets received == not flowing
-					w.updateFlowState(trackID, state.lastSeqNum, state.lastTimestamp)
-				}
-
-				if state.isFlowing {
+				if isFlowing {
 					ticker.Reset(time.Millisecond * 1000)
 				} else {
 					ticker.Reset(time.Millisecond * 100)
 				}
-
-				lastSeqNum = state.lastSeqNum
-				w.m.Unlock()
 			}
 		}
 	}()
@@ -421,17 +446,13 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 			}
 
 			for _, p := range packets {
-				w.updateFlowState(
-					trackID,
-					p.SequenceNumber,
-					time.Duration(p.Timestamp)*time.Millisecond/time.Duration(clockRate),
-				)
-
 				switch trackKind {
 				case TrackKindVideo:
 					w.handler.PushVideo(p)
+					w.updateFlowState(trackID, w.handler.VideoTimestamp())
 				case TrackKindAudio:
 					w.handler.PushAudio(p)
+					w.updateFlowState(trackID, w.handler.AudioTimestamp())
 				}
 			}
 		}
-- 
2.43.0


From 918811bc4e9a44f03ae1ec49a40290b128258e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 24/43] fix: end LiveKit sessions when the room is disconnected

---
 internal/webrtc/livekit/livekit.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 3fa24ba..326dfb6 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -487,6 +487,10 @@ func (w *LiveKitWebRTC) onTrackMuted(
 func (w *LiveKitWebRTC) onDisconnected() {
 	log.WithField("session", w.ctx.Value("session")).
 		Infof("Disconnected from LiveKit room %s", w.roomId)
+
+	// Nothing else will be recorded. The end of the session closes the room, and
+	// it may be the one that is closing it
+	go w.flowCallback(false, 0, true)
 }
 
 func (w *LiveKitWebRTC) validateInitParams() error {
-- 
2.43.0


From a6fbd72a23e6ad1f76f4cbf1f1f855831fa1d2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 25/43] fix: know about every LiveKit track before subscribing
 to the first

---
 internal/webrtc/livekit/livekit.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 326dfb6..550af2d 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -161,6 +161,8 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 	subscribedTracks = make([]lksdk.TrackPublication, 0)
 	remoteParticipants := make(map[string]*lksdk.RemoteParticipant)
 
+	tracks := make([]lksdk.TrackPublication, 0)
+
 	for _, remoteParticipant := range w.room.GetRemoteParticipants() {
 		for _, trackPublication := range remoteParticipant.TrackPublications() {
 			if slices.Contains(w.trackIds, trackPublication.SID()) {
@@ -174,13 +176,7 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 					w.handler.SetHasAudio(true)
 				}
 
-				if err := w.subscribe(trackPublication); err != nil {
-					log.WithField("session", w.ctx.Value("session")).
-						Errorf("Failed to subscribe to track %s: %v", trackPublication.SID(), err)
-					return nil, err
-				}
-
-				subscribedTracks = append(subscribedTracks, trackPublication)
+				tracks = append(tracks, trackPublication)
 				remoteParticipants[remoteParticipant.Identity()] = remoteParticipant
 			}
 		}
@@ -190,6 +186,18 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 	w.remoteParticipants = remoteParticipants
 	w.m.Unlock()
 
+	// A track may start as soon as it is subscribed to. The recorder has to know
+	// about all of them by then
+	for _, trackPublication := range tracks {
+		if err := w.subscribe(trackPublication); err != nil {
+			log.WithField("session", w.ctx.Value("session")).
+				Errorf("Failed to subscribe to track %s: %v", trackPublication.SID(), err)
+			return nil, err
+		}
+
+		subscribedTracks = append(subscribedTracks, trackPublication)
+	}
+
 	return subscribedTracks, nil
 }
 
-- 
2.43.0


From de70074c61b79b8b58cc90d6d1d41f3353d1c6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 26/43] fix: release LiveKit transports when joining the room
 fails

---
 internal/webrtc/livekit/livekit.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 550af2d..f0a4279 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -64,7 +64,7 @@ type LiveKitWebRTC struct {
 	// changes are reported in order
 	flowM        sync.Mutex
 	flowState    map[string]*TrackFlowState
-	flowCallback       func(bool, time.Duration, bool)
+	flowCallback func(bool, time.Duration, bool)
 }
 
 func NewLiveKitWebRTC(
@@ -107,13 +107,7 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 	log.WithField("session", w.ctx.Value("session")).
 		Debugf("Connecting to LiveKit room %s with identity %s", w.roomId, identity)
 
-	roomClient, err := lksdk.ConnectToRoom(w.cfg.Host, lksdk.ConnectInfo{
-		APIKey:              w.cfg.APIKey,
-		APISecret:           w.cfg.APISecret,
-		RoomName:            w.roomId,
-		ParticipantIdentity: identity,
-		ParticipantKind:     lksdk.ParticipantEgress,
-	}, &lksdk.RoomCallback{
+	roomClient := lksdk.NewRoom(&lksdk.RoomCallback{
 		ParticipantCallback: lksdk.ParticipantCallback{
 			OnTrackSubscribed:   w.onTrackSubscribed,
 			OnTrackUnsubscribed: w.onTrackUnsubscribed,
@@ -121,11 +115,21 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 			OnTrackMuted:        w.onTrackMuted,
 		},
 		OnDisconnected: w.onDisconnected,
+	})
+
+	err := roomClient.Join(w.cfg.Host, lksdk.ConnectInfo{
+		APIKey:              w.cfg.APIKey,
+		APISecret:           w.cfg.APISecret,
+		RoomName:            w.roomId,
+		ParticipantIdentity: identity,
+		ParticipantKind:     lksdk.ParticipantEgress,
 	},
 		lksdk.WithAutoSubscribe(false),
 	)
 
 	if err != nil {
+		// Joining may have failed halfway
+		roomClient.Disconnect()
 		return fmt.Errorf("failed to connect to LiveKit room: %w", err)
 	}
 
-- 
2.43.0


From 872876943f5c857e085a160d33215e8447705aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 27/43] fix: HTTP page requests must not mix up, hang nor crash
 on other clients' messages

---
 internal/server/http.go | 66 +++++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 15 deletions(-)

diff --git a/internal/server/http.go b/internal/server/http.go
index 666d7f8..748e148 100644
--- a/internal/server/http.go
+++ b/internal/server/http.go
@@ -3,12 +3,14 @@ package server
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"io/fs"
 	"net/http"
 	"path"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -37,13 +39,26 @@ func NewHTTPServer(cfg *config.Config, ps pubsub.PubSub) *HTTPServer {
 }
 
 func (s *HTTPServer) Serve() {
-	answerChannels := make(map[string]*chan string)
+	var m sync.Mutex
+	// Requests whose response is pending, by session ID
+	pending := make(map[string]chan *events.StartRecordingResponse)
+	requests := 0
+
 	go s.pubsub.Subscribe(s.cfg.PubSub.Channels.Publish,
 		func(ctx context.Context, msg []byte) {
 			event := events.Decode(msg)
+			if !event.IsValid() {
+				return
+			}
 			if e := event.StartRecordingResponse(); e != nil {
-				if e.SDP != nil {
-					*answerChannels[e.SessionId] <- *e.SDP
+				m.Lock()
+				response, ok := pending[e.SessionId]
+				delete(pending, e.SessionId)
+				m.Unlock()
+
+				// Sessions of other clients are none of our business
+				if ok {
+					response <- e
 				}
 			}
 		},
@@ -51,15 +66,19 @@ func (s *HTTPServer) Serve() {
 			return nil
 		},
 	)
-	go s.serve(func(sdp string) string {
-		t := time.Now()
-		sessId := t.Format("20060102150405")
-		answerChan := make(chan string)
-		answerChannels[sessId] = &answerChan
+	go s.serve(func(ctx context.Context, sdp string) (string, error) {
+		response := make(chan *events.StartRecordingResponse, 1)
+
+		m.Lock()
+		requests++
+		sessId := fmt.Sprintf("%s-%d", time.Now().Format("20060102150405"), requests)
+		pending[sessId] = response
+		m.Unlock()
+
 		e := events.StartRecording{
 			Id:        "startRecording",
 			SessionId: sessId,
-			FileName:  fmt.Sprintf("%s.webm", t.Format("20060102150405")),
+			FileName:  fmt.Sprintf("%s.webm", sessId),
 			Adapter:   "mediasoup",
 			AdapterOptions: &events.AdapterOptions{
 				Mediasoup: &events.MediasoupConfig{
@@ -69,13 +88,26 @@ func (s *HTTPServer) Serve() {
 		}
 		j, _ := json.Marshal(e)
 		s.pubsub.Publish(s.cfg.PubSub.Channels.Subscribe, j)
-		answer := <-answerChan
-		delete(answerChannels, sessId)
-		return answer
+
+		select {
+		case e := <-response:
+			if e.SDP == nil {
+				if e.Error != nil {
+					return "", errors.New(*e.Error)
+				}
+				return "", errors.New("no SDP answer")
+			}
+			return *e.SDP, nil
+		case <-ctx.Done():
+			m.Lock()
+			delete(pending, sessId)
+			m.Unlock()
+			return "", ctx.Err()
+		}
 	})
 }
 
-func (s *HTTPServer) serve(handler func(string) string) {
+func (s *HTTPServer) serve(handler func(context.Context, string) (string, error)) {
 
 	http.HandleFunc("/sdp", func(w http.ResponseWriter, r *http.Request) {
 		body, _ := io.ReadAll(r.Body)
@@ -84,8 +116,12 @@ func (s *HTTPServer) serve(handler func(string) string) {
 			fmt.Fprintf(w, "Post SDP offer in body")
 			return
 		}
-		response := handler(string(body))
-		fmt.Fprintf(w, response)
+		response, err := handler(r.Context(), string(body))
+		if err != nil {
+			http.Error(w, err.Error(), http.StatusInternalServerError)
+			return
+		}
+		io.WriteString(w, response)
 	})
 
 	http.Handle("/media/", http.StripPrefix("/media", http.FileServer(http.Dir(s.mediaRoot))))
-- 
2.43.0


From 8c84495d240ef847a7a44e9ac0def234d69aa022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 28/43] fix: reconnect to redis instead of exiting with
 recordings in progress

---
 internal/pubsub/redis.go       | 38 +++++++++++++++++++++++++---------
 internal/pubsub/redis/redis.go | 13 +++++-------
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/internal/pubsub/redis.go b/internal/pubsub/redis.go
index b90fdf4..edffed0 100644
--- a/internal/pubsub/redis.go
+++ b/internal/pubsub/redis.go
@@ -2,6 +2,7 @@ package pubsub
 
 import (
 	"context"
+	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/redis"
@@ -10,6 +11,8 @@ import (
 
 var _ PubSub = (*Redis)(nil)
 
+const reconnectInterval = time.Second
+
 type Redis struct {
 	config config.Redis
 	pubsub *redis.PubSub
@@ -19,16 +22,31 @@ type Redis struct {
 
 func (r *Redis) Subscribe(channel string, handler PubSubHandler, onStart func() error) {
 	log.Printf("subscribing to pubsub %s on redis %s", channel, r.config.Address)
-	r.pubsub.ListenChannels(r.ctx,
-		func() error {
-			onStart()
-			return nil
-		},
-		func(channel string, message []byte) error {
-			handler(r.ctx, message)
-			return nil
-		},
-		channel)
+	for {
+		err := r.pubsub.ListenChannels(r.ctx,
+			func() error {
+				onStart()
+				return nil
+			},
+			func(channel string, message []byte) error {
+				handler(r.ctx, message)
+				return nil
+			},
+			channel)
+
+		if r.ctx.Err() != nil {
+			return
+		}
+
+		// Recordings go on meanwhile
+		log.Errorf("pubsub %s: connection to redis %s lost, reconnecting: %v", channel, r.config.Address, err)
+
+		select {
+		case <-r.ctx.Done():
+			return
+		case <-time.After(reconnectInterval):
+		}
+	}
 }
 
 func (r *Redis) Unsubscribe() {
diff --git a/internal/pubsub/redis/redis.go b/internal/pubsub/redis/redis.go
index fd9eda0..f0e9ca6 100644
--- a/internal/pubsub/redis/redis.go
+++ b/internal/pubsub/redis/redis.go
@@ -15,8 +15,6 @@ type PubSub struct {
 	network  string
 	address  string
 	password string
-	conn     redis.Conn
-	psc      redis.PubSubConn
 }
 
 func NewPubSub(network, address string, password string) (*PubSub, error) {
@@ -28,7 +26,6 @@ func NewPubSub(network, address string, password string) (*PubSub, error) {
 	if conn, err := p.dial(); err != nil {
 		return nil, err
 	} else {
-		//p.conn = conn
 		defer conn.Close()
 	}
 	return p, nil
@@ -53,9 +50,9 @@ func (p *PubSub) ListenChannels(ctx context.Context,
 	}
 	defer c.Close()
 
-	p.psc = redis.PubSubConn{Conn: c}
+	psc := redis.PubSubConn{Conn: c}
 
-	if err := p.psc.Subscribe(redis.Args{}.AddFlat(channels)...); err != nil {
+	if err := psc.Subscribe(redis.Args{}.AddFlat(channels)...); err != nil {
 		return err
 	}
 
@@ -64,7 +61,7 @@ func (p *PubSub) ListenChannels(ctx context.Context,
 	// Start a goroutine to receive notifications from the server.
 	go func() {
 		for {
-			switch n := p.psc.Receive().(type) {
+			switch n := psc.Receive().(type) {
 			case error:
 				done <- n
 				return
@@ -99,7 +96,7 @@ loop:
 			// Send ping to test health of connection and server. If
 			// corresponding pong is not received, then receive on the
 			// connection will timeout and the receive goroutine will exit.
-			if err = p.psc.Ping(""); err != nil {
+			if err = psc.Ping(""); err != nil {
 				break loop
 			}
 		case <-ctx.Done():
@@ -111,7 +108,7 @@ loop:
 	}
 
 	// Signal the receiving goroutine to exit by unsubscribing from all channels.
-	if err := p.psc.Unsubscribe(); err != nil {
+	if err := psc.Unsubscribe(); err != nil {
 		return err
 	}
 
-- 
2.43.0


From d183e91fdcdcfc5e2941fe3fa14ea90a6f80ec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 29/43] fix: a configuration which cannot be reloaded must not
 take the service down

---
 internal/app/app.go       | 28 +++++++++++++++++++---------
 internal/app/config.go    | 12 +++++++++---
 internal/config/config.go | 20 ++++++++++++++++++++
 internal/config/loader.go |  8 +++++---
 internal/server/http.go   |  4 ++--
 internal/server/server.go | 19 +++++++++++--------
 6 files changed, 66 insertions(+), 25 deletions(-)

diff --git a/internal/app/app.go b/internal/app/app.go
index 78c5e09..ee358a5 100644
--- a/internal/app/app.go
+++ b/internal/app/app.go
@@ -12,6 +12,7 @@ import (
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/server"
 	"github.com/google/uuid"
+	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
 	flag "github.com/spf13/pflag"
 )
@@ -55,7 +56,9 @@ func init() {
 	if flags.dump != "" {
 		log.SetLevel(log.FatalLevel)
 		cfg = initConfig()
-		loadConfig()
+		if err := loadConfig(); err != nil {
+			log.Fatal(err)
+		}
 		dumpConfig()
 	}
 
@@ -66,26 +69,30 @@ func init() {
 func Init() {
 	cfg = initConfig()
 	log.Infof("Starting %s PID: %d", app.Name, os.Getpid())
-	loadConfig()
+	if err := loadConfig(); err != nil {
+		log.Fatal(err)
+	}
 	configureLog()
 	sigintHandler()
 	sighupHandler()
 }
 
 func Run() {
-	if cfg.Prometheus.Enable {
+	current := cfg.Snapshot()
+
+	if current.Prometheus.Enable {
 		prometheus.Init()
-		prometheus.ServePromMetrics(cfg.Prometheus)
+		prometheus.ServePromMetrics(current.Prometheus)
 	}
 
-	if cfg.HTTP.Enable {
-		ps := pubsub.NewPubSub(cfg.PubSub)
+	if current.HTTP.Enable {
+		ps := pubsub.NewPubSub(current.PubSub)
 		h := server.NewHTTPServer(cfg, ps)
 		h.Serve()
 	}
-	ps := pubsub.NewPubSub(cfg.PubSub)
+	ps := pubsub.NewPubSub(current.PubSub)
 	s := server.NewServer(cfg, ps)
-	ps.Subscribe(cfg.PubSub.Channels.Subscribe, s.HandlePubSub, s.OnStart)
+	ps.Subscribe(current.PubSub.Channels.Subscribe, s.HandlePubSub, s.OnStart)
 }
 
 func sighupHandler() {
@@ -96,7 +103,10 @@ func sighupHandler() {
 			select {
 			case <-sighup:
 				log.Debug("reloading config...")
-				loadConfig()
+				if err := loadConfig(); err != nil {
+					log.Error(errors.Wrap(err, "keeping the current configuration"))
+					continue
+				}
 				configureLog()
 			}
 		}
diff --git a/internal/app/config.go b/internal/app/config.go
index 3234eaa..51fbc8b 100644
--- a/internal/app/config.go
+++ b/internal/app/config.go
@@ -14,10 +14,16 @@ func initConfig() *config.Config {
 	return (&config.Config{App: app}).GetDefaults()
 }
 
-func loadConfig() {
+func loadConfig() error {
 	newCfg := initConfig()
-	newCfg.Load(app, flags.config)
-	*cfg = *newCfg
+
+	if err := newCfg.Load(app, flags.config); err != nil {
+		return err
+	}
+
+	cfg.Replace(newCfg)
+
+	return nil
 }
 
 func dumpConfig() {
diff --git a/internal/config/config.go b/internal/config/config.go
index 75f8b43..eb95e8f 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -2,6 +2,7 @@ package config
 
 import (
 	"os"
+	"sync"
 
 	"github.com/pion/webrtc/v3"
 	log "github.com/sirupsen/logrus"
@@ -26,6 +27,25 @@ type Config struct {
 	Log        LogConfig  `yaml:"log"`
 }
 
+// The configuration may be reloaded while it is in use
+var reloadM sync.RWMutex
+
+// Replace replaces the configuration with another
+func (cfg *Config) Replace(newCfg *Config) {
+	reloadM.Lock()
+	defer reloadM.Unlock()
+
+	*cfg = *newCfg
+}
+
+// Snapshot returns the current configuration
+func (cfg *Config) Snapshot() Config {
+	reloadM.RLock()
+	defer reloadM.RUnlock()
+
+	return *cfg
+}
+
 func (cfg *Config) GetDefaults() *Config {
 	cfg.SetDefaults()
 	return cfg
diff --git a/internal/config/loader.go b/internal/config/loader.go
index 5b345e0..d0be103 100644
--- a/internal/config/loader.go
+++ b/internal/config/loader.go
@@ -8,7 +8,7 @@ import (
 	"path"
 )
 
-func (cfg *Config) Load(app App, configFile string) {
+func (cfg *Config) Load(app App, configFile string) error {
 	// Load from file(s)
 	if configFile == "" {
 		configFile = app.Name + ".yml"
@@ -28,7 +28,7 @@ func (cfg *Config) Load(app App, configFile string) {
 		},
 	})
 	if found, err := fileLoader.Load(cfg); err != nil {
-		log.Fatal(errors.Wrap(err, fmt.Sprintf("failed to decode configuration from file: %s", fileLoader.GetFilename())))
+		return errors.Wrap(err, fmt.Sprintf("failed to decode configuration from file: %s", fileLoader.GetFilename()))
 	} else if !found {
 		log.Debugf("no configuration file found: %s", fileLoader.GetFilename())
 	} else {
@@ -42,7 +42,7 @@ func (cfg *Config) Load(app App, configFile string) {
 	})
 
 	if found, err := envLoader.Load(cfg); err != nil {
-		log.Fatal(errors.Wrap(err, "failed to decode configuration from environment variables"))
+		return errors.Wrap(err, "failed to decode configuration from environment variables")
 	} else if !found {
 		log.Debugf("no %s* environment variables defined", envPrefix)
 	} else {
@@ -50,4 +50,6 @@ func (cfg *Config) Load(app App, configFile string) {
 	}
 
 	cfg.App = app
+
+	return nil
 }
diff --git a/internal/server/http.go b/internal/server/http.go
index 748e148..6125625 100644
--- a/internal/server/http.go
+++ b/internal/server/http.go
@@ -44,7 +44,7 @@ func (s *HTTPServer) Serve() {
 	pending := make(map[string]chan *events.StartRecordingResponse)
 	requests := 0
 
-	go s.pubsub.Subscribe(s.cfg.PubSub.Channels.Publish,
+	go s.pubsub.Subscribe(s.cfg.Snapshot().PubSub.Channels.Publish,
 		func(ctx context.Context, msg []byte) {
 			event := events.Decode(msg)
 			if !event.IsValid() {
@@ -87,7 +87,7 @@ func (s *HTTPServer) Serve() {
 			},
 		}
 		j, _ := json.Marshal(e)
-		s.pubsub.Publish(s.cfg.PubSub.Channels.Subscribe, j)
+		s.pubsub.Publish(s.cfg.Snapshot().PubSub.Channels.Subscribe, j)
 
 		select {
 		case e := <-response:
diff --git a/internal/server/server.go b/internal/server/server.go
index e7de352..526518b 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -34,6 +34,8 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		return
 	}
 
+	cfg := s.cfg.Snapshot()
+
 	switch event.Id {
 	case "startRecording":
 		e := event.StartRecording()
@@ -63,7 +65,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 		switch e.Adapter {
 		case "livekit":
-			rec, err = recorder.NewRecorder(ctx, s.cfg.Recorder, e.FileName)
+			rec, err = recorder.NewRecorder(ctx, cfg.Recorder, e.FileName)
 
 			if err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
@@ -73,7 +75,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 			wrtc := livekit.NewLiveKitWebRTC(
 				ctx,
-				s.cfg.LiveKit,
+				cfg.LiveKit,
 				e.AdapterOptions.LiveKit.Room,
 				e.AdapterOptions.LiveKit.TrackIDs,
 			)
@@ -92,7 +94,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			s.PublishPubSub(e.Success("", rec.GetFilePath()))
 
 		case "mediasoup", "":
-			rec, err = recorder.NewRecorder(ctx, s.cfg.Recorder, e.FileName)
+			rec, err = recorder.NewRecorder(ctx, cfg.Recorder, e.FileName)
 
 			if err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
@@ -100,7 +102,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 				return
 			}
 
-			wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
+			wrtc := webrtc.NewWebRTC(ctx, cfg.WebRTC)
 			sess := NewSession(e.SessionId, s, wrtc, nil, rec)
 			s.sessions.Store(e.SessionId, sess)
 			defer sess.Answered()
@@ -146,18 +148,19 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		}
 
 	case "getRecorderStatus":
-		s.PublishPubSub(events.NewRecorderStatus(s.cfg.App.Version, s.cfg.App.InstanceId))
+		s.PublishPubSub(events.NewRecorderStatus(cfg.App.Version, cfg.App.InstanceId))
 	}
 }
 
 func (s *Server) PublishPubSub(msg interface{}) {
 	j, _ := json.Marshal(msg)
-	s.pubsub.Publish(s.cfg.PubSub.Channels.Publish, j)
+	s.pubsub.Publish(s.cfg.Snapshot().PubSub.Channels.Publish, j)
 }
 
 func (s *Server) OnStart() error {
-	log.Info("Application started. Version=", s.cfg.App.Version, " InstanceId=", s.cfg.App.InstanceId)
-	s.PublishPubSub(events.NewRecorderStatus(s.cfg.App.Version, s.cfg.App.InstanceId))
+	cfg := s.cfg.Snapshot()
+	log.Info("Application started. Version=", cfg.App.Version, " InstanceId=", cfg.App.InstanceId)
+	s.PublishPubSub(events.NewRecorderStatus(cfg.App.Version, cfg.App.InstanceId))
 	return nil
 }
 
-- 
2.43.0


From 0160224ea71b34cef4454289120ada276f06c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 30/43] fix: redis settings must not reset each other

---
 internal/config/config.go | 9 ++++++---
 internal/pubsub/pubsub.go | 8 +-------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index eb95e8f..d7076dc 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -73,8 +73,7 @@ func (cfg *Config) SetDefaults() {
 		Publish:   "from-" + cfg.App.Name,
 	}
 	cfg.PubSub.Adapter = "redis"
-	cfg.PubSub.Adapters = make(map[string]interface{})
-	cfg.PubSub.Adapters["redis"] = &Redis{
+	cfg.PubSub.Adapters.Redis = Redis{
 		Address:  ":6379",
 		Network:  "tcp",
 		Password: "",
@@ -118,7 +117,11 @@ type Redis struct {
 type PubSub struct {
 	Channels Channels `yaml:"channels,omitempty"`
 	Adapter  string   `yaml:"adapter,omitempty"`
-	Adapters map[string]interface{}
+	Adapters Adapters `yaml:"adapters,omitempty"`
+}
+
+type Adapters struct {
+	Redis Redis `yaml:"redis,omitempty"`
 }
 
 type Channels struct {
diff --git a/internal/pubsub/pubsub.go b/internal/pubsub/pubsub.go
index 0e15258..b523856 100644
--- a/internal/pubsub/pubsub.go
+++ b/internal/pubsub/pubsub.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
-	"github.com/mitchellh/mapstructure"
 	log "github.com/sirupsen/logrus"
 )
 
@@ -21,12 +20,7 @@ func NewPubSub(cfg config.PubSub) PubSub {
 	var ps PubSub
 	switch cfg.Adapter {
 	case "redis":
-		c := config.Redis{}
-		if err = mapstructure.Decode(cfg.Adapters[cfg.Adapter], &c); err != nil {
-			break
-		}
-
-		ps = NewRedis(c)
+		ps = NewRedis(cfg.Adapters.Redis)
 	default:
 		err = fmt.Errorf("unknown pubsub adapter '%s'", cfg.Adapter)
 	}
-- 
2.43.0


From 38450d0b847e35fb461743707552eb59882b5f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 31/43] fix: credentials of ICE servers must be loaded

---
 internal/config/config.go | 35 ++++++++++++++++++++++++++++++-----
 internal/webrtc/webrtc.go |  2 +-
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index d7076dc..3050374 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -130,11 +130,36 @@ type Channels struct {
 }
 
 type WebRTC struct {
-	ICEServers             []webrtc.ICEServer `yaml:"iceServers,omitempty"`
-	RTCMinPort             uint16             `yaml:"rtcMinPort,omitempty"`
-	RTCMaxPort             uint16             `yaml:"rtcMaxPort,omitempty"`
-	JitterBuffer           uint16             `yaml:"jitterBuffer,omitempty"`
-	JitterBufferPktTimeout uint16             `yaml:"jitterBufferPktTimeout,omitempty"`
+	ICEServers             []ICEServer `yaml:"iceServers,omitempty"`
+	RTCMinPort             uint16      `yaml:"rtcMinPort,omitempty"`
+	RTCMaxPort             uint16      `yaml:"rtcMaxPort,omitempty"`
+	JitterBuffer           uint16      `yaml:"jitterBuffer,omitempty"`
+	JitterBufferPktTimeout uint16      `yaml:"jitterBufferPktTimeout,omitempty"`
+}
+
+// ICEServer is a webrtc.ICEServer that can be loaded: the type of its credential
+// is known
+type ICEServer struct {
+	URLs       []string `yaml:"urls"`
+	Username   string   `yaml:"username,omitempty"`
+	Credential string   `yaml:"credential,omitempty"`
+}
+
+// GetICEServers returns the servers in the format WebRTC needs
+func (cfg WebRTC) GetICEServers() []webrtc.ICEServer {
+	servers := make([]webrtc.ICEServer, 0, len(cfg.ICEServers))
+
+	for _, s := range cfg.ICEServers {
+		server := webrtc.ICEServer{URLs: s.URLs, Username: s.Username}
+
+		if s.Credential != "" {
+			server.Credential = s.Credential
+		}
+
+		servers = append(servers, server)
+	}
+
+	return servers
 }
 
 type HTTP struct {
diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 835470b..4138187 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -92,7 +92,7 @@ func (w *WebRTC) Init(
 	}
 
 	cfg := webrtc.Configuration{
-		ICEServers:   w.cfg.ICEServers,
+		ICEServers:   w.cfg.GetICEServers(),
 		SDPSemantics: webrtc.SDPSemanticsUnifiedPlanWithFallback,
 	}
 
-- 
2.43.0


From e891273ec9b406366ff48b231f01aa194b5a2e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 32/43] verif: hook to run WebRTC sessions over the loopback
 interface (build tag verif)

---
 internal/webrtc/hooks_off.go   |  7 +++++++
 internal/webrtc/hooks_verif.go | 10 ++++++++++
 internal/webrtc/webrtc.go      |  2 ++
 3 files changed, 19 insertions(+)
 create mode 100644 internal/webrtc/hooks_off.go
 create mode 100644 internal/webrtc/hooks_verif.go

diff --git a/internal/webrtc/hooks_off.go b/internal/webrtc/hooks_off.go
new file mode 100644
index 0000000..efde943
--- /dev/null
+++ b/internal/webrtc/hooks_off.go
@@ -0,0 +1,7 @@
+//go:build !verif
+
+package webrtc
+
+import "github.com/pion/webrtc/v3"
+
+func applyHooks(se *webrtc.SettingEngine) {}
diff --git a/internal/webrtc/hooks_verif.go b/internal/webrtc/hooks_verif.go
new file mode 100644
index 0000000..c641ccf
--- /dev/null
+++ b/internal/webrtc/hooks_verif.go
@@ -0,0 +1,10 @@
+//go:build verif
+
+package webrtc
+
+import "github.com/pion/webrtc/v3"
+
+// applyHooks lets verification run where the loopback interface is the only one
+func applyHooks(se *webrtc.SettingEngine) {
+	se.SetIncludeLoopbackCandidate(true)
+}
diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 4138187..3e686d6 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -126,6 +126,8 @@ func (w *WebRTC) Init(
 		panic(err)
 	}
 
+	applyHooks(se)
+
 	i := &interceptor.Registry{}
 	// Use the default set of Interceptors
 	if err := webrtc.RegisterDefaultInterceptors(m, i); err != nil {
-- 
2.43.0


From 0f3eeb3a416fca6f8d7f6a33a74453b6d1582952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 33/43] fix: audio which waited for lost packets must be lined
 up with the video

---
 internal/webrtc/recorder/webm.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 70318fb..dd859c7 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -58,6 +58,9 @@ type WebmRecorder struct {
 	hasValidAudio bool
 	// When the first frame of the file was about to be written
 	fileStartTime time.Time
+	// Timestamp of the newest audio packet, and when it was received
+	newestAudioTimestamp uint32
+	newestAudioTime      time.Time
 
 	audioWriter, videoWriter       webm.BlockWriteCloser
 	audioBuilder, videoBuilder     *samplebuilder.SampleBuilder
@@ -387,10 +390,16 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 		return
 	}
 
+	// A timestamp which is far behind is a new timeline
+	if diff := int32(p.Timestamp - r.newestAudioTimestamp); r.newestAudioTime.IsZero() || diff > 0 || diff < -10*opusSampleRate {
+		r.newestAudioTimestamp = p.Timestamp
+		r.newestAudioTime = time.Now()
+	}
+
 	r.audioBuilder.Push(p)
 
 	for {
-		sample := r.audioBuilder.Pop()
+		sample, ts := r.audioBuilder.PopWithTimestamp()
 		if sample == nil {
 			return
 		}
@@ -403,8 +412,16 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 
 		if r.audioWriter != nil {
 			if r.hasVideo && !r.hasValidAudio {
-				// Line it up with the video, which starts the file
-				r.audioTimestamp = time.Since(r.fileStartTime)
+				// Line it up with the video, which starts the file. It may have been
+				// waiting for earlier packets meanwhile
+				age := time.Duration(int32(r.newestAudioTimestamp-ts)) * time.Second / opusSampleRate
+				offset := r.newestAudioTime.Add(-age).Sub(r.fileStartTime)
+
+				if offset < 0 {
+					continue
+				}
+
+				r.audioTimestamp = offset
 			} else {
 				r.audioTimestamp += sample.Duration
 			}
-- 
2.43.0


From 7df4361dd71efd43a6edd950e9fc311a0333b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 34/43] fix: keep requesting keyframes while waiting for one
 after a loss

---
 internal/webrtc/recorder/webm.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index dd859c7..bc6fbbd 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -780,9 +780,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	case !r.hasKeyFrame && !isKeyFrame:
 		log.WithField("session", r.ctx.Value("session")).
 			Tracef("Waiting for keyframe, dropping non-keyframe: seq=%d", p.SequenceNumber)
-		if !r.seenKeyFrame {
-			r.RequestKeyframe()
-		}
+		r.RequestKeyframe()
 
 		r.currentFrame = nil
 		r.currentFrameInfo = nil
-- 
2.43.0


From 65fc1428b4838c1cac0fad5203d4396af1470851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 35/43] fix: use the sample builder so that it neither crashes,
 stalls nor cuts frames short

A gap in the sequence numbers which makes the builder drop everything it holds
breaks it: the next Pop panics, and takes the service down with it. Where its
buffer wraps around, it leaves the last packet of a frame out. Padding, and
partitions of a frame other than the first, were taken for packet loss and for
frames of their own.
---
 internal/webrtc/recorder/webm.go | 220 +++++++++++++++++++++++--------
 1 file changed, 163 insertions(+), 57 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index bc6fbbd..094abd2 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -13,6 +13,7 @@ import (
 	"github.com/jech/samplebuilder"
 	"github.com/pion/rtp"
 	"github.com/pion/rtp/codecs"
+	"github.com/pion/webrtc/v3/pkg/media"
 	log "github.com/sirupsen/logrus"
 )
 
@@ -63,9 +64,14 @@ type WebmRecorder struct {
 	newestAudioTime      time.Time
 
 	audioWriter, videoWriter       webm.BlockWriteCloser
-	audioBuilder, videoBuilder     *samplebuilder.SampleBuilder
+	audioBuilder, videoBuilder     *sampleBuilder
 	audioTimestamp, videoTimestamp time.Duration
 
+	// Last packet which left the videoBuilder, and timestamp of the last frame
+	// recorded from it
+	lastBuiltPacket     *rtp.Packet
+	lastSampleTimestamp uint32
+
 	started bool
 	closed  bool
 
@@ -121,8 +127,7 @@ func NewWebmRecorder(
 		audioPacketQueueSize:  audioPacketQueueSize,
 		useCustomSampler:      useCustomSampler,
 		writeIVFCopy:          writeIVFCopy,
-		audioBuilder:          samplebuilder.New(audioPacketQueueSize, &codecs.OpusPacket{}, opusSampleRate),
-		videoBuilder:          samplebuilder.New(videoPacketQueueSize, &codecs.VP8Packet{}, vp8SampleRate),
+		audioBuilder:          newSampleBuilder(audioPacketQueueSize, &codecs.OpusPacket{}, opusSampleRate),
 		lastKeyFrameTime:      time.Now(),
 		// TODO Make this configurable or remove the timeout altogether - prlanzarin
 		frameTimeout: time.Millisecond * 2000,
@@ -133,10 +138,71 @@ func NewWebmRecorder(
 		hasVideo:      false,
 		hasValidAudio: false,
 	}
+	r.videoBuilder = r.newVideoBuilder()
 
 	return r
 }
 
+func (r *WebmRecorder) newVideoBuilder() *sampleBuilder {
+	return newSampleBuilder(r.videoPacketQueueSize, &vp8Depacketizer{}, vp8SampleRate,
+		samplebuilder.WithPacketReleaseHandler(func(p *rtp.Packet) { r.lastBuiltPacket = p }))
+}
+
+// sampleBuilder is a SampleBuilder which has room for whatever is pushed: when a
+// packet is too far ahead to keep the packets which are still in there, their
+// samples have to be taken out first (a builder which gets rid of all of them
+// by itself is broken from then on).
+type sampleBuilder struct {
+	*samplebuilder.SampleBuilder
+	size   int
+	newest uint16
+}
+
+func newSampleBuilder(maxLate uint16, depacketizer rtp.Depacketizer, sampleRate uint32, opts ...samplebuilder.Option) *sampleBuilder {
+	return &sampleBuilder{
+		SampleBuilder: samplebuilder.New(maxLate, depacketizer, sampleRate, opts...),
+		size:          2 * min(max(int(maxLate), 2), 0x7FFF),
+	}
+}
+
+// HasRoom tells whether a packet can be pushed
+func (b *sampleBuilder) HasRoom(p *rtp.Packet) bool {
+	return b.Len() == 0 || b.Len()+int(int16(p.SequenceNumber-b.newest)) < b.size
+}
+
+// Push adds a packet
+func (b *sampleBuilder) Push(p *rtp.Packet) {
+	if b.Len() == 0 || int16(p.SequenceNumber-b.newest) > 0 {
+		b.newest = p.SequenceNumber
+	}
+
+	b.SampleBuilder.Push(p)
+}
+
+// vp8Depacketizer is what the builtin sampler needs to know about VP8. Padding is
+// nothing to record, but no loss either: it makes empty samples.
+type vp8Depacketizer struct {
+	codecs.VP8Packet
+}
+
+// IsPartitionHead tells whether a packet starts a frame, as opposed to one of
+// its other partitions
+func (d *vp8Depacketizer) IsPartitionHead(payload []byte) bool {
+	return len(payload) == 0 || (d.VP8Packet.IsPartitionHead(payload) && payload[0]&0x07 == 0)
+}
+
+func (d *vp8Depacketizer) IsPartitionTail(marker bool, payload []byte) bool {
+	return len(payload) == 0 || d.VP8Packet.IsPartitionTail(marker, payload)
+}
+
+func (d *vp8Depacketizer) Unmarshal(payload []byte) ([]byte, error) {
+	if len(payload) == 0 {
+		return nil, nil
+	}
+
+	return d.VP8Packet.Unmarshal(payload)
+}
+
 func (r *WebmRecorder) GetFilePath() string {
 	return r.file
 }
@@ -310,14 +376,16 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		return
 	}
 
-	if len(packet.Payload) == 0 || r.closed {
+	if r.closed {
 		return
 	}
 
-	if _, err := unmarshalVP8(packet.Payload); err != nil {
-		log.WithField("session", r.ctx.Value("session")).
-			Debugf("Failed to unmarshal VP8 packet: seq=%d, err=%v", packet.SequenceNumber, err)
-		return
+	if len(packet.Payload) > 0 {
+		if _, err := unmarshalVP8(packet.Payload); err != nil {
+			log.WithField("session", r.ctx.Value("session")).
+				Debugf("Failed to unmarshal VP8 packet: seq=%d, err=%v", packet.SequenceNumber, err)
+			return
+		}
 	}
 
 	isKeyFrame := IsVP8KeyFrame(packet)
@@ -326,6 +394,18 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		r.lastKeyFrameTime = time.Now()
 	}
 
+	for !r.videoBuilder.HasRoom(packet) {
+		sample, ts := r.videoBuilder.ForcePopWithTimestamp()
+
+		if sample == nil {
+			// Nothing but the start of a frame which does not fit
+			r.videoBuilder = r.newVideoBuilder()
+			break
+		}
+
+		r.writeVP8Builtin(sample, ts)
+	}
+
 	r.videoBuilder.Push(packet)
 	log.WithField("session", r.ctx.Value("session")).
 		Tracef("BUILTIN: VP8 RTP-DEPAY: seq=%d, ts=%d, marker=%v, S=%v, PictureID=%d, KeyFrame=%v, size=%d, PartID=%d",
@@ -339,42 +419,54 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			return
 		}
 
-		// Several frames may have been waiting for a missing packet, so this is not
-		// necessarily the last keyframe received
-		isKf := len(sample.Data) > 0 && sample.Data[0]&0x1 == 0
+		r.writeVP8Builtin(sample, ts)
+	}
+}
+
+// writeVP8Builtin records a frame of the builtin sampler. Locked
+func (r *WebmRecorder) writeVP8Builtin(sample *media.Sample, ts uint32) {
+	// Padding, or a frame which was cut short: the builder leaves the last packet
+	// of a frame out where its buffer wraps around
+	if len(sample.Data) == 0 || !r.lastBuiltPacket.Marker {
+		return
+	}
 
-		if isKf && r.needsWriter() {
-			width, height := 0, 0
+	// Several frames may have been waiting for a missing packet, so this is not
+	// necessarily the last keyframe received
+	isKf := len(sample.Data) > 0 && sample.Data[0]&0x1 == 0
 
-			if len(sample.Data) >= 10 {
-				raw := uint(sample.Data[6]) | uint(sample.Data[7])<<8 | uint(sample.Data[8])<<16 | uint(sample.Data[9])<<24
-				width = int(raw & 0x3FFF)
-				height = int((raw >> 16) & 0x3FFF)
-			}
+	if isKf && r.needsWriter() {
+		width, height := 0, 0
 
-			log.WithField("session", r.ctx.Value("session")).
-				Tracef("Frame dimensions: %dx%d", width, height)
-			r.initWriter(width, height)
-			sample.Duration = 0
+		if len(sample.Data) >= 10 {
+			raw := uint(sample.Data[6]) | uint(sample.Data[7])<<8 | uint(sample.Data[8])<<16 | uint(sample.Data[9])<<24
+			width = int(raw & 0x3FFF)
+			height = int((raw >> 16) & 0x3FFF)
 		}
 
-		if r.videoWriter != nil {
-			log.WithField("session", r.ctx.Value("session")).
-				Tracef("Writing VP8 frame: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
-			r.videoTimestamp += sample.Duration
+		log.WithField("session", r.ctx.Value("session")).
+			Tracef("Frame dimensions: %dx%d", width, height)
+		r.initWriter(width, height)
+		r.lastSampleTimestamp = ts
+	}
 
-			if _, err := r.videoWriter.Write(isKf, int64(r.videoTimestamp/time.Millisecond), sample.Data); err != nil {
-				log.WithField("session", r.ctx.Value("session")).
-					Errorf("Error writing video frame: %v", err)
-			}
+	if r.videoWriter != nil {
+		log.WithField("session", r.ctx.Value("session")).
+			Tracef("Writing VP8 frame: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
+		r.videoTimestamp += time.Duration(ts-r.lastSampleTimestamp) * time.Second / vp8SampleRate
+		r.lastSampleTimestamp = ts
 
+		if _, err := r.videoWriter.Write(isKf, int64(r.videoTimestamp/time.Millisecond), sample.Data); err != nil {
 			log.WithField("session", r.ctx.Value("session")).
-				Tracef("VP8 frame written: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
+				Errorf("Error writing video frame: %v", err)
 		}
 
-		if r.writeIVFCopy {
-			r.pushToIVFWriter(sample.Data, ts, isKf)
-		}
+		log.WithField("session", r.ctx.Value("session")).
+			Tracef("VP8 frame written: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
+	}
+
+	if r.writeIVFCopy {
+		r.pushToIVFWriter(sample.Data, ts, isKf)
 	}
 }
 
@@ -396,6 +488,15 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 		r.newestAudioTime = time.Now()
 	}
 
+	for !r.audioBuilder.HasRoom(p) {
+		sample, ts := r.audioBuilder.ForcePopWithTimestamp()
+		if sample == nil {
+			break
+		}
+
+		r.writeOpus(sample, ts)
+	}
+
 	r.audioBuilder.Push(p)
 
 	for {
@@ -404,37 +505,42 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 			return
 		}
 
-		// Initialize writer here only if we have audio and no video
-		// Otherwise, we'll initialize it in pushVP8
-		if r.audioWriter == nil && r.hasAudio && !r.hasVideo {
-			r.initWriter(0, 0)
-		}
+		r.writeOpus(sample, ts)
+	}
+}
 
-		if r.audioWriter != nil {
-			if r.hasVideo && !r.hasValidAudio {
-				// Line it up with the video, which starts the file. It may have been
-				// waiting for earlier packets meanwhile
-				age := time.Duration(int32(r.newestAudioTimestamp-ts)) * time.Second / opusSampleRate
-				offset := r.newestAudioTime.Add(-age).Sub(r.fileStartTime)
+// writeOpus records an audio packet. Locked
+func (r *WebmRecorder) writeOpus(sample *media.Sample, ts uint32) {
+	// Initialize writer here only if we have audio and no video
+	// Otherwise, we'll initialize it in pushVP8
+	if r.audioWriter == nil && r.hasAudio && !r.hasVideo {
+		r.initWriter(0, 0)
+	}
 
-				if offset < 0 {
-					continue
-				}
+	if r.audioWriter != nil {
+		if r.hasVideo && !r.hasValidAudio {
+			// Line it up with the video, which starts the file. It may have been
+			// waiting for earlier packets meanwhile
+			age := time.Duration(int32(r.newestAudioTimestamp-ts)) * time.Second / opusSampleRate
+			offset := r.newestAudioTime.Add(-age).Sub(r.fileStartTime)
 
-				r.audioTimestamp = offset
-			} else {
-				r.audioTimestamp += sample.Duration
+			if offset < 0 {
+				return
 			}
 
-			if _, err := r.audioWriter.Write(true, int64(r.audioTimestamp/time.Millisecond), sample.Data); err != nil {
-				log.WithField("session", r.ctx.Value("session")).
-					Errorf("Error writing audio frame: %v", err)
-			}
+			r.audioTimestamp = offset
+		} else {
+			r.audioTimestamp += sample.Duration
+		}
 
+		if _, err := r.audioWriter.Write(true, int64(r.audioTimestamp/time.Millisecond), sample.Data); err != nil {
 			log.WithField("session", r.ctx.Value("session")).
-				Tracef("Audio frame written: ts=%d, size=%d", int64(r.audioTimestamp/time.Millisecond), len(sample.Data))
-			r.hasValidAudio = true
+				Errorf("Error writing audio frame: %v", err)
 		}
+
+		log.WithField("session", r.ctx.Value("session")).
+			Tracef("Audio frame written: ts=%d, size=%d", int64(r.audioTimestamp/time.Millisecond), len(sample.Data))
+		r.hasValidAudio = true
 	}
 }
 
-- 
2.43.0


From e6f4b0d86020e8c1998f32f86a560ff4d19834cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 36/43] fix: a packet which was given up on must not hold up
 the ones behind it

---
 internal/webrtc/utils/jitter_buffer.go | 32 +++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/internal/webrtc/utils/jitter_buffer.go b/internal/webrtc/utils/jitter_buffer.go
index 0085461..0bc18ad 100644
--- a/internal/webrtc/utils/jitter_buffer.go
+++ b/internal/webrtc/utils/jitter_buffer.go
@@ -18,6 +18,8 @@ type JitterBuffer struct {
 	size                 int64
 	missingPacketTimers  map[int64]time.Time
 	packetTimeout        time.Duration
+	// Packets to be skipped as soon as it is their turn
+	skippedPackets       map[int64]struct{}
 	lastSkippedSeq       int64
 	ctx                  context.Context
 }
@@ -35,6 +37,7 @@ func NewJitterBuffer(
 		size:    int64(size),
 		missingPacketTimers: make(map[int64]time.Time),
 		packetTimeout: 			time.Duration(packetTimeout) * time.Millisecond,
+		skippedPackets: make(map[int64]struct{}),
 		lastSkippedSeq:     0,
 		ctx: ctx,
 	}
@@ -113,6 +116,14 @@ func (s *JitterBuffer) nextPackets() ([]*rtp.Packet, bool) {
 		log.WithField("session", s.ctx.Value("session")).
 			Tracef("Missing packet at buffer start: seq=%d", s.nextStart)
 
+		if _, skip := s.skippedPackets[s.nextStart]; skip {
+			s.skipMissingPacket()
+
+			pkts, _ := s.nextPackets()
+
+			return pkts, true
+		}
+
 		if _, exists := s.missingPacketTimers[s.nextStart]; !exists {
 			s.missingPacketTimers[s.nextStart] = time.Now()
 			log.WithField("session", s.ctx.Value("session")).
@@ -127,9 +138,7 @@ func (s *JitterBuffer) nextPackets() ([]*rtp.Packet, bool) {
 
 		log.WithField("session", s.ctx.Value("session")).
 			Debugf("Skipping missing packet after timeout: seq=%d", s.nextStart)
-		delete(s.missingPacketTimers, s.nextStart)
-		s.lastSkippedSeq = s.nextStart
-		s.nextStart++
+		s.skipMissingPacket()
 		skippedPacket = true
 
 		pkts, moreSkips := s.nextPackets()
@@ -165,6 +174,14 @@ func (s *JitterBuffer) nextPackets() ([]*rtp.Packet, bool) {
 	return packets, skippedPacket
 }
 
+// Locked
+func (s *JitterBuffer) skipMissingPacket() {
+	delete(s.missingPacketTimers, s.nextStart)
+	delete(s.skippedPackets, s.nextStart)
+	s.lastSkippedSeq = s.nextStart
+	s.nextStart++
+}
+
 // SkipPacket forces the jitter buffer to skip waiting for a specific sequence number
 func (s *JitterBuffer) SkipPacket(seq int64) {
 	s.m.Lock()
@@ -175,6 +192,15 @@ func (s *JitterBuffer) SkipPacket(seq int64) {
 			Debugf("Skipping missing packet in jitter buffer: seq=%d", seq)
 				s.lastSkippedSeq = seq
 				s.setNextPacketsStart(seq + 1)
+	} else if seq > s.nextStart {
+		// Its turn comes after that of others which are missing, too
+		for skipped := range s.skippedPackets {
+			if skipped < s.nextStart {
+				delete(s.skippedPackets, skipped)
+			}
+		}
+
+		s.skippedPackets[seq] = struct{}{}
 	}
 }
 
-- 
2.43.0


From 8f205dfc648ca15c6c69f070078473f2cdfad24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 37/43] fix: a session which is ending must not report its end
 after its ID was reused

---
 internal/server/server.go  | 17 +++++++++--------
 internal/server/session.go | 36 +++++++++++++++++++++++++++---------
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index 526518b..a4ab70f 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -46,8 +46,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 		ctx = context.WithValue(ctx, "session", e.SessionId)
 
-		_, ok := s.sessions.Load(e.SessionId)
-		if ok {
+		if sess, ok := s.sessions.Load(e.SessionId); ok && !sess.(*Session).AwaitEnd() {
 			err := fmt.Errorf("session %s already exists", e.SessionId)
 			log.Error(err)
 			s.PublishPubSub(e.Fail(err))
@@ -86,8 +85,9 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 			if _, err := sess.StartRecording(e); err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
-				sess.StopRecording()
-				s.PublishPubSub(e.Fail(err))
+				sess.StopRecording(func(time.Duration) {
+					s.PublishPubSub(e.Fail(err))
+				})
 				return
 			}
 
@@ -120,8 +120,9 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 			if err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
-				sess.StopRecording()
-				s.PublishPubSub(e.Fail(err))
+				sess.StopRecording(func(time.Duration) {
+					s.PublishPubSub(e.Fail(err))
+				})
 				return
 			}
 
@@ -142,9 +143,9 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		}
 
 		if sess, ok := s.sessions.Load(e.SessionId); ok {
-			if ts, ended := sess.(*Session).StopRecording(); ended {
+			sess.(*Session).StopRecording(func(ts time.Duration) {
 				s.PublishPubSub(e.Stopped("stopped", ts/time.Millisecond))
-			}
+			})
 		}
 
 	case "getRecorderStatus":
diff --git a/internal/server/session.go b/internal/server/session.go
index ba30a6f..29fcf14 100644
--- a/internal/server/session.go
+++ b/internal/server/session.go
@@ -26,6 +26,9 @@ type Session struct {
 	// was abandoned): nothing about the session is published before that
 	answered chan struct{}
 
+	// Closed once the session's end was published and its ID is available again
+	ended chan struct{}
+
 	// Guards stopped, and is held while publishing status events so that none
 	// of them can follow the session's recordingStopped
 	m       sync.Mutex
@@ -40,6 +43,7 @@ func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWe
 		livekit:  lk,
 		recorder: recorder,
 		answered: make(chan struct{}),
+		ended:    make(chan struct{}),
 	}
 }
 
@@ -100,9 +104,9 @@ func (s *Session) onFlow(isFlowing bool, timestamp time.Duration, closed bool) {
 func (s *Session) onTransportClosed(reason string) {
 	<-s.answered
 
-	if ts, ok := s.StopRecording(); ok {
+	s.StopRecording(func(ts time.Duration) {
 		s.server.PublishPubSub(events.NewRecordingStopped(s.id, reason, ts/time.Millisecond))
-	}
+	})
 }
 
 // Answered must be called when the outcome of the start request was published
@@ -111,26 +115,40 @@ func (s *Session) Answered() {
 }
 
 // StopRecording ends the session: it finalises the recording, releases the
-// transport and makes the session ID available again. It returns the timestamp
-// of the last written frame, and whether this call is the one that ended the
-// session.
-func (s *Session) StopRecording() (time.Duration, bool) {
+// transport, publishes the end with the timestamp of the last written frame and
+// makes the session ID available again. Only the first call has an effect.
+func (s *Session) StopRecording(publish func(time.Duration)) {
 	s.m.Lock()
 
 	if s.stopped {
 		s.m.Unlock()
-		return 0, false
+		return
 	}
 
 	s.stopped = true
 	s.m.Unlock()
 
+	defer close(s.ended)
+
 	ts := s.recorder.Close()
 	s.closeTransport()
-	s.server.CloseSession(s)
 	prometheus.Sessions.Dec()
+	publish(ts)
+	s.server.CloseSession(s)
+}
+
+// AwaitEnd waits until the session's ID is available again if the session is
+// about to end, and returns false if it is not
+func (s *Session) AwaitEnd() bool {
+	s.m.Lock()
+	stopped := s.stopped
+	s.m.Unlock()
+
+	if stopped {
+		<-s.ended
+	}
 
-	return ts, true
+	return stopped
 }
 
 func (s *Session) closeTransport() {
-- 
2.43.0


From 5160aecce4731027a8a27bd17c252fa110cc80cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 38/43] fix: LiveKit settings must be dumped under the names
 they have in the file

---
 internal/config/config.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 3050374..d8eb9ae 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -173,9 +173,9 @@ type Prometheus struct {
 }
 
 type LiveKit struct {
-	Host      string `mapstructure:"host"`
-	APIKey    string `mapstructure:"api_key"`
-	APISecret string `mapstructure:"api_secret"`
+	Host      string `yaml:"host,omitempty"`
+	APIKey    string `yaml:"apiKey,omitempty"`
+	APISecret string `yaml:"apiSecret,omitempty"`
 }
 
 type LogConfig struct {
-- 
2.43.0


From 9f159924b85d4cd79f3ec6728621c6769fe191cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:03 +0000
Subject: [PATCH 39/43] fix: a bug of the LiveKit jitter buffer must not take
 the service down, nor keep a track from being recorded

---
 internal/webrtc/livekit/jitter_buffer.go | 90 ++++++++++++++++++++++++
 internal/webrtc/livekit/livekit.go       | 20 +++---
 2 files changed, 101 insertions(+), 9 deletions(-)
 create mode 100644 internal/webrtc/livekit/jitter_buffer.go

diff --git a/internal/webrtc/livekit/jitter_buffer.go b/internal/webrtc/livekit/jitter_buffer.go
new file mode 100644
index 0000000..b102707
--- /dev/null
+++ b/internal/webrtc/livekit/jitter_buffer.go
@@ -0,0 +1,90 @@
+package livekit
+
+import (
+	"fmt"
+	"time"
+
+	"github.com/livekit/server-sdk-go/v2/pkg/jitter"
+	"github.com/pion/rtp"
+)
+
+// jitterBuffer starts over with a new jitter.Buffer where that one would fail
+type jitterBuffer struct {
+	create       func() *jitter.Buffer
+	buffer       *jitter.Buffer
+	depacketizer rtp.Depacketizer
+	onDropped    func()
+	latency      int32 // RTP time
+	// jitter.Buffer starts with the head of a sample. If other packets come first
+	// and their head does not follow, it never starts (and keeps all packets).
+	started   bool
+	waiting   bool
+	timestamp uint32 // of the first packet while waiting
+	head      uint16 // lowest sequence number while waiting
+}
+
+func newJitterBuffer(depacketizer rtp.Depacketizer, clockRate uint32, latency time.Duration, onDropped func()) *jitterBuffer {
+	b := &jitterBuffer{
+		create: func() *jitter.Buffer {
+			return jitter.NewBuffer(
+				depacketizer,
+				clockRate,
+				latency,
+				jitter.WithPacketDroppedHandler(onDropped),
+				// TODO: plug logger
+			)
+		},
+		depacketizer: depacketizer,
+		onDropped:    onDropped,
+		latency:      int32(latency.Seconds() * float64(clockRate)),
+	}
+	b.reset()
+
+	return b
+}
+
+func (b *jitterBuffer) reset() {
+	b.buffer = b.create()
+	b.started = false
+	b.waiting = false
+}
+
+// push adds a packet and returns those which are due
+func (b *jitterBuffer) push(packet *rtp.Packet) (packets []*rtp.Packet, err error) {
+	// jitter.Buffer dereferences nil if it drops all it has to drop after a loss
+	defer func() {
+		if r := recover(); r != nil {
+			b.reset()
+			b.onDropped()
+			packets, err = nil, fmt.Errorf("packets dropped: %v", r)
+		}
+	}()
+
+	if !b.started && len(packet.Payload) > 0 {
+		b.wait(packet)
+	}
+
+	b.buffer.Push(packet)
+
+	return b.buffer.Pop(false), nil
+}
+
+// wait tells whether the buffer starts with the packet, and discards what came
+// before it if that took too long
+func (b *jitterBuffer) wait(packet *rtp.Packet) {
+	if b.waiting && int32(packet.Timestamp-b.timestamp) > b.latency {
+		b.reset()
+		b.onDropped()
+	}
+
+	if !b.waiting {
+		b.waiting = true
+		b.timestamp = packet.Timestamp
+		b.head = packet.SequenceNumber
+	} else if b.head-packet.SequenceNumber >= 1<<15 {
+		return
+	}
+
+	b.head = packet.SequenceNumber
+	b.started = b.depacketizer.IsPartitionHead(packet.Payload)
+}
diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index f0a4279..c613bd1 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -12,7 +12,6 @@ import (
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/interfaces"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
 	lksdk "github.com/livekit/server-sdk-go/v2"
-	"github.com/livekit/server-sdk-go/v2/pkg/jitter"
 	"github.com/pion/rtp"
 	"github.com/pion/rtp/codecs"
 	"github.com/pion/webrtc/v3"
@@ -57,7 +56,7 @@ type LiveKitWebRTC struct {
 	roomId             string
 	trackIds           []string
 	pliStats           map[uint32]PLITracker
-	jitterBuffers      map[string]*jitter.Buffer
+	jitterBuffers      map[string]*jitterBuffer
 	hasAudio           bool
 	hasVideo           bool
 	// Guards flowState, and is held while calling flowCallback so that status
@@ -80,7 +79,7 @@ func NewLiveKitWebRTC(
 		trackIds:      trackIds,
 		tracks:        make(map[string]*lksdk.Track),
 		pliStats:      make(map[uint32]PLITracker),
-		jitterBuffers: make(map[string]*jitter.Buffer),
+		jitterBuffers: make(map[string]*jitterBuffer),
 		flowState:     make(map[string]*TrackFlowState),
 	}
 }
@@ -367,16 +366,15 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 	}
 
 	latency := time.Duration(200) * time.Millisecond
-	buffer := jitter.NewBuffer(
+	buffer := newJitterBuffer(
 		depacketizer,
 		clockRate,
 		latency,
-		jitter.WithPacketDroppedHandler(func() {
+		func() {
 			if isVideo {
 				w.RequestKeyframe()
 			}
-		}),
-		// TODO: plug logger
+		},
 	)
 
 	// Closed when the track ends
@@ -450,8 +448,12 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 				return
 			}
 
-			buffer.Push(packet)
-			packets := buffer.Pop(false)
+			packets, err := buffer.push(packet)
+
+			if err != nil {
+				log.WithField("session", w.ctx.Value("session")).
+					Errorf("Jitter buffer of track %s failed: %v", trackID, err)
+			}
 
 			if len(packets) == 0 {
 				continue
-- 
2.43.0


From 6ecd009085304c587100aca420eab1b2b97ac26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:47 +0000
Subject: [PATCH 40/43] fix: requests for packets of an earlier cycle of
 sequence numbers must not count for later ones

---
 internal/webrtc/webrtc.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 3e686d6..9e7996f 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -241,10 +241,9 @@ func (w *WebRTC) Init(
 						ticker.Stop()
 						return
 					case <-ticker.C:
+						// Go on even if nothing is missing: packets which were asked for
+						// are forgotten below, before their sequence numbers come again
 						missing := rl.MissingSeqNumbers(10)
-						if missing == nil || len(missing) == 0 {
-							continue
-						}
 
 						filteredMissing := make([]uint16, 0)
 						now := time.Now()
-- 
2.43.0


From b39bc50201df8a4e6d17a3f028fd9ce4b1902fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:07 +0000
Subject: [PATCH 41/43] fix: tell requesters the full path of recordings also
 if the directory is relative

---
 internal/webrtc/recorder/recorder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index 6a17c39..07e759d 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -36,7 +36,12 @@ type Recorder interface {
 }
 
 func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file string) (string, os.FileMode, error) {
-	dir := path.Clean(cfg.Directory)
+	// Requesters are told the full path of the recording
+	dir, err := filepath.Abs(cfg.Directory)
+
+	if err != nil {
+		return "", 0, fmt.Errorf("invalid directory %s", cfg.Directory)
+	}
 
 	if _, err := os.Stat(dir); os.IsNotExist(err) {
 		return "", 0, fmt.Errorf("directory does not exist %s", cfg.Directory)
-- 
2.43.0


From fc882639b2c2386d1576795c67142d5392c091f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:03 +0000
Subject: [PATCH 42/43] fix: receiving media from LiveKit must not wait for the
 publication of its status

---
 internal/webrtc/livekit/livekit.go | 46 ++++++++++++++++++------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index c613bd1..73f574f 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -44,8 +44,8 @@ type TrackFlowState struct {
 }
 
 type LiveKitWebRTC struct {
-	// Guards room, remoteParticipants and pliStats. Not held while calling the
-	// handler, which requests keyframes under a lock of its own
+	// Guards room, remoteParticipants, pliStats and flowState. Not held while
+	// calling the handler, which requests keyframes under a lock of its own
 	m                  sync.Mutex
 	ctx                context.Context
 	cfg                config.LiveKit
@@ -59,9 +59,11 @@ type LiveKitWebRTC struct {
 	jitterBuffers      map[string]*jitterBuffer
 	hasAudio           bool
 	hasVideo           bool
-	// Guards flowState, and is held while calling flowCallback so that status
-	// changes are reported in order
-	flowM        sync.Mutex
+	// Held while calling flowCallback so that status changes are reported in
+	// order. Not held while receiving media, as reporting may take long. Taken
+	// before m
+	flowM sync.Mutex
+	// Guarded by m, except isFlowing, which is guarded by flowM
 	flowState    map[string]*TrackFlowState
 	flowCallback func(bool, time.Duration, bool)
 }
@@ -270,8 +272,8 @@ func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 
 // updateFlowState accounts for a packet of the track
 func (w *LiveKitWebRTC) updateFlowState(trackID string, timestamp time.Duration) {
-	w.flowM.Lock()
-	defer w.flowM.Unlock()
+	w.m.Lock()
+	defer w.m.Unlock()
 
 	state, exists := w.flowState[trackID]
 
@@ -282,28 +284,30 @@ func (w *LiveKitWebRTC) updateFlowState(trackID string, timestamp time.Duration)
 
 	state.packets++
 	state.lastTimestamp = timestamp
-
-	w.setFlowing(trackID, state, true)
 }
 
-// checkFlowState tells that the track is not flowing if it had no packets since
-// the last check, whose packet count is the argument. It returns the current
-// packet count and whether the track is flowing.
+// checkFlowState tells that the track is flowing if it had packets since the
+// last check, whose packet count is the argument, and that it is not flowing
+// otherwise. It returns the current packet count and whether the track is
+// flowing.
 func (w *LiveKitWebRTC) checkFlowState(trackID string, lastPackets uint64) (uint64, bool) {
 	w.flowM.Lock()
 	defer w.flowM.Unlock()
 
+	w.m.Lock()
 	state, exists := w.flowState[trackID]
 
 	if !exists {
+		w.m.Unlock()
 		return 0, false
 	}
 
-	if state.packets == lastPackets {
-		w.setFlowing(trackID, state, false)
-	}
+	packets := state.packets
+	w.m.Unlock()
+
+	w.setFlowing(trackID, state, packets != lastPackets)
 
-	return state.packets, state.isFlowing
+	return packets, state.isFlowing
 }
 
 // endFlow tells that the track is not flowing because it ended
@@ -311,12 +315,16 @@ func (w *LiveKitWebRTC) endFlow(trackID string) {
 	w.flowM.Lock()
 	defer w.flowM.Unlock()
 
-	if state, exists := w.flowState[trackID]; exists {
+	w.m.Lock()
+	state, exists := w.flowState[trackID]
+	w.m.Unlock()
+
+	if exists {
 		w.setFlowing(trackID, state, false)
 	}
 }
 
-// Locked
+// flowM is locked
 func (w *LiveKitWebRTC) setFlowing(trackID string, state *TrackFlowState, isFlowing bool) {
 	if state.isFlowing == isFlowing {
 		return
@@ -326,11 +334,13 @@ func (w *LiveKitWebRTC) setFlowing(trackID string, state *TrackFlowState, isFlow
 
 	var latestTimestamp time.Duration
 
+	w.m.Lock()
 	for _, s := range w.flowState {
 		if s.lastTimestamp > latestTimestamp {
 			latestTimestamp = s.lastTimestamp
 		}
 	}
+	w.m.Unlock()
 
 	w.flowCallback(isFlowing, latestTimestamp, false)
 	log.WithField("session", w.ctx.Value("session")).
-- 
2.43.0


From 13fe92168f912af5b9f8fd49bfa15867e8c6d687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:29 +0000
Subject: [PATCH 43/43] fix: LiveKit: other partitions of a frame do not start
 one

The jitter buffer takes the first packet which starts a frame for the first one
there is, and drops those before it. It was told that every VP8 partition starts
a frame, so that a keyframe of several partitions was lost if its first packet
came after one of these when a track began.
---
 internal/webrtc/livekit/jitter_buffer.go | 11 +++++++++++
 internal/webrtc/livekit/livekit.go       |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/livekit/jitter_buffer.go b/internal/webrtc/livekit/jitter_buffer.go
index b102707..b263bb2 100644
--- a/internal/webrtc/livekit/jitter_buffer.go
+++ b/internal/webrtc/livekit/jitter_buffer.go
@@ -6,8 +6,19 @@ import (
 
 	"github.com/livekit/server-sdk-go/v2/pkg/jitter"
 	"github.com/pion/rtp"
+	"github.com/pion/rtp/codecs"
 )
 
+// vp8Depacketizer tells the jitter buffer where frames start, as opposed to one of
+// their other partitions
+type vp8Depacketizer struct {
+	codecs.VP8Packet
+}
+
+func (d *vp8Depacketizer) IsPartitionHead(payload []byte) bool {
+	return d.VP8Packet.IsPartitionHead(payload) && payload[0]&0x07 == 0
+}
+
 // jitterBuffer starts over with a new jitter.Buffer where that one would fail
 type jitterBuffer struct {
 	create       func() *jitter.Buffer
diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 73f574f..3fc4287 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -366,7 +366,7 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 	var depacketizer rtp.Depacketizer
 	switch mimeType {
 	case MimeTypeVP8:
-		depacketizer = &codecs.VP8Packet{}
+		depacketizer = &vp8Depacketizer{}
 	case MimeTypeOpus:
 		depacketizer = &codecs.OpusPacket{}
 	default:
-- 
2.43.0

