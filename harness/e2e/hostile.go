package e2e

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

const (
	inert = iota // certainly no request: must not cause any publication
	maybe        // may be a request of a session nobody knows
)

var weirdValues = []string{
	"null", "true", "false", "0", "-0", "1e999", "-1e999", "NaN", "Infinity", "-Infinity", "+5", "0x1F", ".5", "5.",
	"123456789012345678901234567890", "[]", "{}", "[[]]", `[null]`, `{"a":{"b":[1,2,{"c":null}]}}`, `""`, `"\u0000"`, `"\ud800"`, `"\udc00\ud800"`,
	`'single'`, `"a\
b"`, "\"\xff\xfe\"", `"` + strings.Repeat("A", 70000) + `"`, `[` + strings.Repeat("1,", 5000) + `1]`, strings.Repeat("[", 300) + strings.Repeat("]", 300),
}

var requestFields = []string{"id", "recordingSessionId", "fileName", "adapter", "adapterOptions", "sdp", "status", "error", "timestampHR", "timestampUTC", "appVersion", "__proto__", "Id", "ID"}

// hostileMessage makes a message up. active are ids of active sessions.
func hostileMessage(rng *rand.Rand, active []string, offer string) ([]byte, int, string) {
	aid := active[rng.Intn(len(active))]
	valid := func() string {
		b, _ := json.Marshal(map[string]interface{}{"id": "startRecording", "recordingSessionId": "h-" + fmt.Sprint(rng.Intn(1000)), "fileName": "h.webm", "sdp": "garbage"})
		return string(b)
	}
	q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	switch rng.Intn(15) {
	case 0: // binary
		b := make([]byte, rng.Intn(200))
		rng.Read(b)
		if len(b) > 0 && rng.Intn(2) == 0 {
			b[0] = '{'
		}
		return b, inert, "binary"
	case 1: // other JSON5 values
		return []byte(weirdValues[rng.Intn(len(weirdValues))]), inert, "value"
	case 2: // cut off
		s := valid()
		return []byte(s[:rng.Intn(len(s))]), inert, "cut off"
	case 3: // unknown or no id
		id := pick(rng, `"startrecording"`, `"START"`, `""`, `" startRecording"`, `"startRecording\u0000"`, "null", "5", "[]", "{}", "true", `["startRecording"]`, `{"startRecording":1}`, `"stopRecordin"`, `"getRecorderstatus"`, `"Unknown"`)
		return []byte(fmt.Sprintf(`{"id":%s,"recordingSessionId":%s,"fileName":"x.webm","sdp":%s}`, id, q(aid), q(offer))), inert, "unknown id"
	case 4: // what only the recorder sends
		b := pick(rng,
			`{"id":"startRecordingResponse","recordingSessionId":%s,"status":"ok","sdp":"x","fileName":"/x.webm"}`,
			`{"id":"startRecordingResponse","recordingSessionId":%s,"status":"failed","error":"x"}`,
			`{"id":"startRecordingResponse","recordingSessionId":%s,"status":5}`,
			`{"id":"startRecordingResponse","recordingSessionId":%s}`,
			`{"id":"recordingRtpStatusChanged","recordingSessionId":%s,"status":"flowing","timestampUTC":"2020-01-01T00:00:00Z","timestampHR":5}`,
			`{"id":"recordingRtpStatusChanged","recordingSessionId":%s,"status":"flowing","timestampUTC":7,"timestampHR":"x"}`,
			`{"id":"recordingStopped","recordingSessionId":%s,"reason":"stopped","timestampHR":5}`,
			`{"id":"recordingStopped","recordingSessionId":%s,"reason":{}}`,
			`{"id":"recorderStatus","recordingSessionId":%s,"appVersion":"x","instanceId":"y","timestamp":5}`,
			`{"id":"recorderStatus","recordingSessionId":%s,"appVersion":null,"timestamp":"z"}`)
		return []byte(fmt.Sprintf(b, q(aid))), inert, "recorder's event"
	case 5: // stop of the wrong type
		v := pick(rng, "5", "[]", "{}", "true", "1e999", `[`+q(aid)+`]`, `{"id":`+q(aid)+`}`, "null", `""`, `"nobody"`)
		return []byte(`{"id":"stopRecording","recordingSessionId":` + v + `}`), inert, "stop"
	case 6: // wrong types in a start request
		f := requestFields[rng.Intn(6)]
		o := map[string]json.RawMessage{"id": json.RawMessage(`"startRecording"`), "recordingSessionId": json.RawMessage(q(fmt.Sprintf("h-%d", rng.Intn(1000)))),
			"fileName": json.RawMessage(`"h.webm"`), "sdp": json.RawMessage(`"garbage"`)}
		var sb strings.Builder
		sb.WriteString("{")
		delete(o, f)
		for k, v := range o {
			fmt.Fprintf(&sb, "%q:%s,", k, v)
		}
		v := weirdValues[rng.Intn(len(weirdValues))]
		if f == "id" || rng.Intn(2) == 0 && (f == "recordingSessionId" || f == "fileName" || f == "sdp") {
			v = pick(rng, "5", "[]", "{}", "true", "1e999", "[null]")
			fmt.Fprintf(&sb, "%q:%s}", f, v)
			return []byte(sb.String()), inert, "wrong type of " + f
		}
		fmt.Fprintf(&sb, "%q:%s}", f, v)
		return []byte(sb.String()), maybe, "wrong type of " + f
	case 7: // options of odd shapes
		v := pick(rng, `null`, `5`, `[]`, `{"mediasoup":null}`, `{"mediasoup":5}`, `{"mediasoup":[]}`, `{"mediasoup":{"sdp":null}}`, `{"mediasoup":{"sdp":{}}}`, `{"livekit":null}`, `{"livekit":{"room":5}}`,
			`{"livekit":{"room":"r","trackIds":"x"}}`, `{"livekit":{"room":"r","trackIds":[5]}}`, `{"livekit":{"room":"r","trackIds":null}}`, `{"livekit":{"trackIds":[null]}}`, `{"mediasoup":{"sdp":"x"},"livekit":{"room":""}}`)
		return []byte(fmt.Sprintf(`{"id":"startRecording","recordingSessionId":"h-%d","fileName":"h.webm","adapter":%s,"adapterOptions":%s}`, rng.Intn(1000),
			pick(rng, `"mediasoup"`, `"livekit"`, `""`, `null`, `"x"`, `5`), v)), maybe, "options"
	case 8, 9: // flipped bytes
		b := []byte(valid())
		for k := 1 + rng.Intn(4); k > 0; k-- {
			switch rng.Intn(4) {
			case 0:
				b[rng.Intn(len(b))] = byte(rng.Intn(256))
			case 1:
				i := rng.Intn(len(b))
				b = append(b[:i], b[i+1:]...)
			case 2:
				i := rng.Intn(len(b))
				b = append(b[:i:i], append([]byte(pick(rng, "{", "}", "[", "]", ",", ":", `"`, "'", "\\", "//", "/*", "\u2028", "\x00", "\xff", "\\u")), b[i:]...)...)
			case 3:
				i := rng.Intn(len(b))
				j := i + rng.Intn(len(b)-i)
				b = append(b[:j:j], append(bytes.Clone(b[i:j]), b[j:]...)...)
			}
		}
		return b, maybe, "mutated"
	case 10: // fields at random
		var sb strings.Builder
		sb.WriteString("{")
		for k := rng.Intn(8); k >= 0; k-- {
			f := requestFields[1+rng.Intn(len(requestFields)-3)]
			fmt.Fprintf(&sb, "%s:%s,", f, weirdValues[rng.Intn(len(weirdValues))])
		}
		sb.WriteString("}")
		return []byte(sb.String()), inert, "fields"
	case 11: // comments and white space only, unterminated things
		return []byte(pick(rng, "", " ", "\n\n\n", "// x", "/* x", "/**/", "{", "{{", "{}", "{,}", `{"id"`, `{"id":`, `{"id":"startRecording"`, `{"id":'`, `{'id':"stopRecording'}`, "}", "]", "{id}", "\ufeff", "\x00\x00", "{\"id\":\"\\u", "null", "{id:getRecorderStatus}", "getRecorderStatus", `"getRecorderStatus"`, `["getRecorderStatus"]`)), inert, "syntax"
	case 12: // deep
		n := pick(rng, 100, 1000, 10000, 100000, 400000)
		return []byte(pick(rng, `{"id":"x","a":`, `[`, `{"id":"startRecordingResponse","sdp":`) + strings.Repeat(pick(rng, "[", `{"a":`, "[[{a:"), n)), inert, "deep"
	case 13: // deep and well-formed
		n := pick(rng, 10, 1000, 9000, 100000)
		return []byte(`{"id":"x","a":` + strings.Repeat("[", n) + strings.Repeat("]", n) + `}`), inert, "deep"
	default: // two messages in one
		return []byte(`{"id":"getRecorderStatus"}` + pick(rng, `{"id":"getRecorderStatus"}`, "x", "{", "]", `,{"id":"getRecorderStatus"}`)), inert, "trailing"
	}
}

// hugeMessages are sent a few times only
func hugeMessages() [][]byte {
	n := 12 << 20
	return [][]byte{
		[]byte(`{"id":"x","a":"` + strings.Repeat("a", n) + `"}`),
		[]byte(strings.Repeat("[", n)),
		[]byte(strings.Repeat(`{"a":`, n/5)),
		[]byte(`{"id":"x","a":` + strings.Repeat("[", n/2) + strings.Repeat("]", n/2) + `}`),
		bytes.Repeat([]byte{0}, n),
		[]byte(`{"id":"x",` + strings.Repeat(`"k":0,`, n/6) + `}`),
	}
}

// hostileSDP garbles an offer
func hostileSDP(rng *rand.Rand, offer string) string {
	b, _ := base64.StdEncoding.DecodeString(offer)
	var d map[string]interface{}
	json.Unmarshal(b, &d)
	sdp, _ := d["sdp"].(string)
	lines := strings.Split(strings.TrimRight(sdp, "\r\n"), "\r\n")
	for k := 1 + rng.Intn(3); k > 0; k-- {
		i := rng.Intn(len(lines))
		insert := func(l string) {
			lines = append(lines[:i:i], append([]string{l}, lines[i:]...)...)
		}
		switch rng.Intn(12) {
		case 0:
			lines = append(lines[:i:i], lines[i+1:]...)
			if len(lines) == 0 {
				lines = []string{""}
			}
		case 1:
			insert(lines[i])
		case 2:
			l := []byte(lines[i])
			if len(l) > 0 {
				l[rng.Intn(len(l))] = byte(rng.Intn(256))
			}
			lines[i] = string(l)
		case 3:
			// numbers
			var sb strings.Builder
			for _, r := range lines[i] {
				if r >= '0' && r <= '9' && rng.Intn(3) == 0 {
					sb.WriteString(pick(rng, "-1", "99999999999999999999", "65536", "", "0", "4294967296"))
				} else {
					sb.WriteRune(r)
				}
			}
			lines[i] = sb.String()
		case 4:
			lines[i] = strings.Repeat(lines[i], 50)
		case 5:
			l := lines[i]
			if len(l) > 2 {
				lines[i] = l[:2+rng.Intn(len(l)-2)]
			}
		case 6:
			insert(pick(rng, "a=candidate:1 1 udp 2130706431 127.0.0.1 99999 typ host", "a=candidate:1 1 udp 1 127.0.0.1 -5 typ host", "a=candidate:", "a=candidate:1 1 tcp 1 127.0.0.1 9 typ host tcptype active",
				"a=candidate:1 1 udp 1 300.1.1.1 9 typ host", "a=candidate:1 1 udp 1 ::1 9 typ relay raddr x rport y", "a=ice-lite", "a=ice-options:trickle renomination", "a=ice-ufrag:x", "a=ice-pwd:"))
		case 7:
			insert(pick(rng, "a=fingerprint:sha-256 00", "a=fingerprint:md5 00:11", "a=fingerprint:", "a=setup:nonsense", "a=setup:passive", "a=setup:holdconn", "a=group:BUNDLE", "a=group:BUNDLE 0 0 0 7", "a=mid:", "a=mid:0", "a=mid:\x00"))
		case 8:
			insert(pick(rng, "a=rtpmap:96 VP8", "a=rtpmap:96 VP8/0", "a=rtpmap:96 VP8/-1", "a=rtpmap:300 VP8/90000", "a=rtpmap:", "a=rtpmap:96 H264/90000", "a=fmtp:96", "a=fmtp:96 apt=96", "a=rtpmap:97 rtx/90000", "a=rtcp-fb:* nack", "a=rtcp-fb:96", "a=extmap:0 x", "a=extmap:15 urn:ietf:params:rtp-hdrext:sdes:mid", "a=extmap:999 y", "a=ssrc:", "a=ssrc:1", "a=ssrc:x cname:y", "a=ssrc-group:FID 1 2 3", "a=ssrc-group:", "a=msid:", "a=rid:q send", "a=rid:", "a=simulcast:send q;h;f", "a=simulcast:"))
		case 9:
			insert(pick(rng, "m=video 9 UDP/TLS/RTP/SAVPF 96", "m=audio 0 UDP/TLS/RTP/SAVPF 111", "m=application 9 UDP/DTLS/SCTP webrtc-datachannel", "m=", "m=video", "m=text 9 RTP/AVP 0", "m=video 9 UDP/TLS/RTP/SAVPF", "v=0", "v=1", "t=", "o=", "s=", "c=IN IP6 ::", "b=AS:-1", "a=inactive", "a=recvonly", "a=sctp-port:5000", "a=sctpmap:x", "\x00", "", "=", "a", "zz=1"))
		case 10:
			for j := range lines {
				lines[j] = strings.Replace(lines[j], pick(rng, "VP8", "opus", "sendonly", "sha-256", "BUNDLE", "UDP/TLS", "actpass"), pick(rng, "", "x", "active", "passive", "sendrecv", "RTP"), 1)
			}
		case 11:
			j := rng.Intn(len(lines))
			lines[i], lines[j] = lines[j], lines[i]
		}
	}
	if rng.Intn(40) == 0 {
		for j := 0; j < 60; j++ {
			lines = append(lines, fmt.Sprintf("m=video 9 UDP/TLS/RTP/SAVPF 96\r\nc=IN IP4 0.0.0.0\r\na=mid:%d\r\na=sendonly\r\na=rtpmap:96 VP8/90000", j+7))
		}
	}
	sep := pick(rng, "\r\n", "\r\n", "\r\n", "\n", "\r")
	d["sdp"] = strings.Join(lines, sep) + pick(rng, sep, "", sep+sep)
	if rng.Intn(15) == 0 {
		d["type"] = pick(rng, "answer", "pranswer", "rollback", "", "x", "OFFER")
	}
	b, _ = json.Marshal(d)
	s := base64.StdEncoding.EncodeToString(b)
	if rng.Intn(30) == 0 {
		s = s[:rng.Intn(len(s))]
	}
	return s
}

// HostileSuite sends hostile messages while sessions are recorded
func HostileSuite(p Params) {
	e := p.env(EnvOpts{Name: "hostile", Conf: Conf{PktTimeout: 60000, HTTPPort: FreePort(), LogLevel: "fatal"}})
	if e == nil {
		return
	}
	defer e.Close()
	rng := p.rng(1)
	spare, err := NewPeer(PeerOpts{Video: true, Audio: true})
	if err != nil {
		p.R.Unsure("no peer: %v", err)
		return
	}
	defer spare.Close()
	var active []string
	known := map[string]bool{}
	for i := 0; i < 3; i++ {
		id := fmt.Sprintf("keep-%d", i)
		active = append(active, id)
		known[id] = true
	}
	var fm sync.Mutex
	started := map[string]bool{}
	quiet := 0
	e.Mon.Foreign(func(id string) bool {
		fm.Lock()
		defer fm.Unlock()
		if known[id] || strings.HasPrefix(id, "x-") {
			return false
		}
		quiet++
		started[id] = true
		return true
	})
	for round := 0; round < p.N && !e.Dead(); round++ {
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for i, id := range active {
			wg.Add(1)
			go func(i int, id string) {
				defer wg.Done()
				r := p.rng(int64(100*round + i + 10))
				sp := SessionPlan{ID: id, File: fmt.Sprintf("keep-%d-%d.webm", round, i), Form: "legacy", End: "stop", Tag: "C04",
					Media: NewPlan(r, PlanOpts{Dur: 7 * time.Second, Loss: pick(r, "none", "reorder"), Order: pick(r, "v", "a", "av"), Tag: uint32(round*10 + i + 1)})}
				sp.OnMedia = func(*Session) {
					select {
					case <-stop:
					case <-time.After(60 * time.Second):
					}
				}
				s := e.RunSession(r, sp)
				if s.OK {
					p.R.Case(fmt.Sprint("kept session ", round, i), nil)
				}
			}(i, id)
		}
		// So that these are active
		time.Sleep(1200 * time.Millisecond)
		until := time.Now().Add(6 * time.Second)
		n := 0
		var recent []string
		for time.Now().Before(until) && !e.Dead() {
			for k := 0; k < 25; k++ {
				msg, class, what := hostileMessage(rng, active, spare.Offer)
				e.Inject(msg)
				n++
				p.R.Count("messages_"+what, 1)
				if len(msg) > 300 {
					msg = msg[:300]
				}
				p.R.Case(fmt.Sprintf("%x", msg), nil)
				recent = append(recent, fmt.Sprintf("%d %q", class, msg))
				if len(recent) > 50 {
					recent = recent[1:]
				}
			}
			if !e.Status() {
				e.RepCase("C04", recent, "the last messages before were: %.3000s", strings.Join(recent, "\n"))
				return
			}
			p.R.Count("status_requests", 1)
			// A hostile offer
			id := fmt.Sprintf("x-%d-%d", round, n)
			sdp := hostileSDP(rng, spare.Offer)
			s := &Start{ID: id, File: id + ".webm", Tracks: 100, Why: "hostile offer"}
			sp := SessionPlan{ID: id, File: s.File, Form: pick(rng, "legacy", "options"), Adapter: pick(rng, "", "mediasoup")}
			e.Start(s, sp.Message(rng, sdp))
			if _, ok := e.Response(s); !ok {
				raw, _ := base64.StdEncoding.DecodeString(sdp)
				e.RepCase("C04,C01", string(raw), "no response to the offer %.3000s", raw)
				return
			}
			p.R.Case("offer "+sdp, nil)
			if s.Rec != nil {
				p.R.Count("hostile_offers_accepted", 1)
				e.Stop(id)
				if !e.Stopped(s.Rec, Patience, "stop of a session with a hostile offer") {
					return
				}
			} else {
				p.R.Count("hostile_offers_refused", 1)
			}
		}
		for _, m := range hugeMessages() {
			if e.Dead() {
				break
			}
			e.Inject(m)
			p.R.Count("messages_huge", 1)
			if !e.Status() {
				e.RepCase("C04", nil, "the message before was %.60q... (%d bytes)", m, len(m))
				return
			}
		}
		close(stop)
		wg.Wait()
	}
	// Sessions which hostile requests may have started
	fm.Lock()
	for id := range started {
		e.Stop(id)
	}
	p.R.Count("publications_of_unknown_sessions", int64(quiet))
	fm.Unlock()
	if !e.Status() {
		return
	}
	time.Sleep(200 * time.Millisecond)
	e.CheckGauge("after the hostile messages")
	filepath.Walk(e.Work, func(path string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.Contains(path, "h.webm") {
			e.Rep("C04", "a hostile request left the file %s", path)
		}
		return nil
	})
}
