//go:build go1.25

//go:debug asynctimerchan=0

// Package vrec drives the recorder of a session with generated media, in
// virtual time, and compares the files it leaves with what a reference model
// expects.
package vrec

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vmedia"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vresult"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/pion/rtp"
	log "github.com/sirupsen/logrus"
)

var (
	res  = result.New()
	prop = os.Getenv("VH_PROP")
	dir  = os.Getenv("VH_DIR")
)

func envInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

func TestMain(m *testing.M) {
	log.SetLevel(log.PanicLevel)
	os.Exit(m.Run())
}

func TestVerif(t *testing.T) {
	seed := int64(envInt("VH_SEED", 1))
	n := envInt("VH_N", 100)
	only := envInt("VH_ONLY", -1)
	for i := 0; i < n; i++ {
		if only >= 0 && i != only {
			continue
		}
		cur, _ := json.Marshal(map[string]interface{}{"harness": "vrec", "property": prop, "seed": seed, "case": i})
		os.WriteFile(os.Getenv("VH_OUT")+".cur", cur, 0644)
		rng := rand.New(rand.NewSource(seed*1000003 + int64(i)*7919 + int64(prop[1])*131 + int64(prop[2])))
		run := func(t *testing.T) {
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintf(os.Stderr, "panic: %v\n%s\n", r, debug.Stack())
					res.Violate(prop, map[string]interface{}{"harness": "vrec", "seed": seed, "case": i}, "case %d: panic: %v\n%s", i, r, debug.Stack())
				}
			}()
			if prop == "C20" || (prop == "C19" && i%5 == 0) {
				files(rng, seed, i)
				return
			}
			if prop == "C07" && i%2 == 0 {
				faults(rng, seed, i)
				return
			}
			mediaCase(rng, seed, i)
		}
		synctest.Test(t, run)
		if res.NViolations > 20 {
			break
		}
	}
	if err := res.Save(os.Getenv("VH_OUT")); err != nil {
		t.Fatal(err)
	}
}

// pick returns one of the values
func pick[T any](rng *rand.Rand, v ...T) T { return v[rng.Intn(len(v))] }

type kind struct {
	video, audio bool
	custom       bool
	lossV, lossA string // "", "light", "heavy", "burst", "frames", "head", "tail", "pad"
	notify       bool
	ivf          bool
	late         string // which track starts later: "", "video", "audio"
	gap          time.Duration
	hostile      string // "", "truncated", "garbage"
	long         bool
	early        bool // tracks are announced before their first packet
	slow         bool // some frames take long to arrive
	huge         bool // one frame is huge
	wraps        bool // losses where sequence numbers, timestamps or picture ids start over
}

func chooseKind(rng *rand.Rand) kind {
	k := kind{video: true, custom: rng.Intn(5) > 0}
	losses := []string{"light", "heavy", "burst", "frames", "head", "tail", "pad", "key"}
	if !k.custom {
		losses = append(losses, "gap", "gap")
	}
	switch prop {
	case "C12":
		switch rng.Intn(5) {
		case 0, 1, 2:
			k.lossV = pick(rng, losses...)
		case 3:
			k.custom = false
			k.lossV = pick(rng, append(losses, "gap", "gap")...)
		case 4:
			k.hostile = "truncated"
			k.custom = true
			k.lossV = pick(rng, "", "light")
		}
		k.audio = rng.Intn(3) == 0
		if k.audio {
			k.lossA = pick(rng, "", "light", "heavy", "burst", "gap")
		}
	case "C13":
		switch rng.Intn(4) {
		case 0:
			k.audio = true
		case 1:
			k.audio = true
			k.late = pick(rng, "video", "audio")
		case 2:
			k.video, k.audio = rng.Intn(2) == 0, true
			k.lossA = pick(rng, "", "light", "burst")
		}
	case "C14":
		k.custom = true
		k.lossV = pick(rng, append(losses, "key", "")...)
		k.audio = rng.Intn(6) == 0
		if rng.Intn(8) == 0 {
			k.audio, k.late = true, "audio"
		}
	case "C15":
		k.long = rng.Intn(2) == 0
		k.lossV = pick(rng, "", "light", "frames", "burst")
		switch rng.Intn(3) {
		case 0:
			k.video, k.audio = false, true
			k.lossV = ""
			k.lossA = pick(rng, "", "light", "heavy", "burst", "gap")
		case 1:
			k.audio = true
			k.lossA = pick(rng, "", "light")
		}
		if !k.custom {
			k.lossV = pick(rng, "", "light")
		}
	case "C16":
		k.audio = true
		k.late = pick(rng, "", "", "video", "audio")
		k.lossV = pick(rng, "", "", "light", "frames")
		k.lossA = pick(rng, "", "light", "burst", "heavy")
		k.long = rng.Intn(6) == 0
		if !k.custom {
			k.lossV = ""
		}
	case "C19":
		k.ivf = true
		k.lossV = pick(rng, "", "light", "frames", "tail")
		k.audio = rng.Intn(2) == 0
		if k.audio {
			k.late = pick(rng, "", "video", "audio")
		}
		if !k.custom {
			k.lossV = pick(rng, "", "light")
		}
	case "C07":
		if rng.Intn(3) == 0 {
			k.audio, k.lossA, k.lossV = true, "gap", pick(rng, "", "light", "heavy")
			k.video = rng.Intn(2) == 0
			if !k.custom {
				k.lossV = "gap"
			}
			break
		}
		k.hostile = pick(rng, "garbage", "truncated")
		k.audio = rng.Intn(2) == 0
		k.ivf = rng.Intn(3) == 0
	default: // C17, C03
		k.video = rng.Intn(6) > 0
		k.audio = !k.video || rng.Intn(2) == 0
		if k.video && k.audio {
			k.late = pick(rng, "", "", "video", "audio")
		}
		if k.video {
			k.lossV = pick(rng, append(losses, "", "")...)
		}
		if k.audio {
			k.lossA = pick(rng, "", "light", "heavy", "burst", "gap")
		}
		k.ivf = rng.Intn(4) == 0
	}
	k.notify = rng.Intn(2) == 0
	if k.video && k.hostile == "" && !k.long {
		switch prop {
		case "C14":
			k.slow = rng.Intn(4) == 0
		case "C12", "C13", "C17", "C03":
			k.slow = rng.Intn(10) == 0
		}
		k.huge = k.custom && !k.slow && rng.Intn(pick(rng, 12, 40)) == 0
	}
	if k.lossV != "" && !k.slow && !k.huge {
		k.wraps = rng.Intn(3) == 0
	}
	k.early = rng.Intn(4) == 0
	k.gap = time.Duration(rng.Intn(4000)) * time.Millisecond
	return k
}

type step struct {
	at    time.Duration
	order int
	what  string // video, audio, hostile, hasVideo, hasAudio
	frame *media.Frame
	n     int // packet of the frame, -1: padding
	pkt   *rtp.Packet
	raw   []byte
}

type keyframeRequests struct{ times []time.Time }

func (k *keyframeRequests) RequestKeyframe() { k.times = append(k.times, time.Now()) }

// RequestKeyframeForSSRC is there in case that the interface grows it
func (k *keyframeRequests) RequestKeyframeForSSRC(ssrc uint32) {
	k.times = append(k.times, time.Now())
}

type caseInfo struct {
	k              kind
	vcfg           media.VideoCfg
	acfg           media.AudioCfg
	rcfg           config.Recorder
	video, audio   []*media.Frame
	steps          []step
	lost           map[*rtp.Packet]bool
	hostileN       int
	seed           int64
	i              int
	hostileBetween map[*media.Frame]bool // hostile packets right before or in it
	slow           map[*media.Frame]time.Duration
}

func videoConfig(rng *rand.Rand, k kind, i int) media.VideoCfg {
	c := media.VideoCfg{
		Frames:   40 + rng.Intn(160),
		PIDBits:  pick(rng, 0, 7, 15, 15),
		StartPID: pick(rng, rng.Intn(32768), 32767-rng.Intn(60), 100+rng.Intn(28), 0),
		StartSeq: pick(rng, uint16(rng.Intn(65536)), uint16(65535-rng.Intn(300)), 0, uint16(32768-rng.Intn(200))),
		StartTS:  pick(rng, rng.Uint32(), 0xFFFFFFFF-uint32(rng.Intn(500000)), 0),
		MaxSize:  pick(rng, 40, 400, 3000, 20000),
		MaxPkt:   pick(rng, 1100, 1100, 200, 60),
		Parts:    rng.Intn(4) == 0,
		Extended: rng.Intn(3) == 0,
		KeyEvery: pick(rng, 0, 7, 20, 50),
		KeyProb:  pick(rng, 0, 0.02, 0.1),
		KeyScale: pick(rng, 1, 1, 4),
		VaryDims: rng.Intn(2) == 0,
		W:        16 + rng.Intn(8177),
		H:        16 + rng.Intn(8177),
		Tag:      uint32(i) + 1,
		TSSteps: pick(rng, []uint32{3000}, []uint32{1500, 3000, 6000}, []uint32{3003}, []uint32{90, 450, 9000, 89999},
			[]uint32{2970, 3060, 2880}, []uint32{1, 1000, 3000}, []uint32{45000, 90000}),
	}
	if rng.Intn(3) == 0 {
		c.MinPkt = 1 + rng.Intn(c.MaxPkt)
	}
	if rng.Intn(4) == 0 && k.custom {
		c.Tiny = pick(rng, 0.05, 0.5)
	}
	if rng.Intn(5) == 0 && k.custom && (prop == "C14" || prop == "C12") {
		c.SkipProb = pick(rng, 0.03, 0.2)
	}
	if rng.Intn(6) == 0 {
		c.W = pick(rng, 16, 8192)
	}
	if rng.Intn(6) == 0 {
		c.H = pick(rng, 16, 8192)
	}
	if rng.Intn(3) == 0 || k.lossV == "pad" {
		c.PadProb = 0.15
	}
	if k.huge {
		c.Frames = 40
		c.MaxPkt, c.MinPkt, c.MaxSize = 1200, 1100, 3000
		c.Huge = pick(rng, 80000, 300000, 600000, 1500000, 3000000, 6000000, 9000000)
	}
	if k.long {
		c.Frames = 60 + rng.Intn(100)
		c.TSSteps = pick(rng, []uint32{90 * 30000}, []uint32{90 * 5000, 90 * 60000}, []uint32{90 * 200, 90 * 1700000, 31}, []uint32{90 * 900000})
		if k.lossV != "" {
			// Less than a cycle of the timestamps until the next keyframe
			c.TSSteps = pick(rng, []uint32{90 * 30000}, []uint32{90 * 5000, 90 * 60000}, []uint32{90 * 200, 90 * 200000, 31})
		}
		c.MaxSize = 300
	}
	if !k.custom {
		// The other builder assembles frames of less than half its queue
		c.MaxPkt = 1100
		c.MinPkt = 500
		c.MaxSize = pick(rng, 40, 400, 3000, 10000)
		c.KeyScale = 1
	}
	return c
}

func build(rng *rand.Rand, k kind, seed int64, i int) *caseInfo {
	c := &caseInfo{k: k, seed: seed, i: i, lost: map[*rtp.Packet]bool{}, hostileBetween: map[*media.Frame]bool{}, slow: map[*media.Frame]time.Duration{}}
	c.rcfg = config.Recorder{
		DirFileMode: "0700", FileMode: "0600", WriteIVFCopy: k.ivf, UseCustomSampler: k.custom,
		VideoPacketQueueSize: pick(rng, uint16(256), 64, 1024, 128), AudioPacketQueueSize: pick(rng, uint16(32), 8, 64),
	}
	var vStart, aStart time.Duration
	switch k.late {
	case "video":
		vStart = k.gap
	case "audio":
		aStart = k.gap
	default:
		vStart = time.Duration(rng.Intn(100)) * time.Millisecond
		aStart = time.Duration(rng.Intn(100)) * time.Millisecond
		if k.early {
			// The first keyframe may be late
			vStart += time.Duration(rng.Intn(2000)) * time.Millisecond
		}
	}
	order := 0
	add := func(s step) {
		s.order = order
		order++
		c.steps = append(c.steps, s)
	}
	if k.early {
		if k.video && k.late != "video" {
			add(step{what: "hasVideo"})
		}
		if k.audio && k.late != "audio" {
			add(step{what: "hasAudio"})
		}
	}
	if k.video {
		c.vcfg = videoConfig(rng, k, i)
		c.video = media.GenVideo(rng, c.vcfg)
		if !k.early || k.late == "video" {
			add(step{at: vStart, what: "hasVideo"})
		}
		spread := pick(rng, time.Duration(0), 0, time.Millisecond, 20*time.Millisecond)
		last := time.Duration(0)
		for n := 1 + rng.Intn(3); k.slow && n > 0; n-- {
			if f := c.video[rng.Intn(len(c.video))]; !f.Key && len(f.Pkts) > 1 {
				// More than 2 s, and it may be given up on
				c.slow[f] = time.Duration(pick(rng, 200, 500, 1000, 1900, 2100, 2100, 2500, 4000)) * time.Millisecond
			}
		}
		for _, f := range c.video {
			cut := -1
			if c.slow[f] > 0 {
				cut = 1 + rng.Intn(len(f.Pkts)-1)
				if rng.Intn(2) == 0 {
					cut = len(f.Pkts) - 1
				}
			}
			at := vStart + time.Duration(f.Ticks)*time.Second/90000
			if at < last {
				at = last
			}
			for n, p := range f.Pads {
				_ = n
				add(step{at: at, what: "video", frame: f, n: -1, pkt: p})
			}
			for n, p := range f.Pkts {
				if n == cut {
					at += c.slow[f]
				}
				if len(f.Pkts) > 1 && len(f.Pkts) < 40 && c.slow[f] == 0 {
					at += time.Duration(rng.Int63n(int64(spread)/int64(len(f.Pkts)) + 1))
				}
				add(step{at: at, what: "video", frame: f, n: n, pkt: p})
			}
			last = at
		}
		c.lose(rng)
		if k.wraps {
			c.loseAtWraps(rng)
		}
	}
	if k.audio {
		span := 4 * time.Second
		if k.video {
			span = time.Duration(c.video[len(c.video)-1].Ticks) * time.Second / 90000
			if d := vStart - aStart; d > 0 {
				span += d
			}
		}
		steps := pick(rng, []uint32{960}, []uint32{480, 960}, []uint32{960}, []uint32{2880}, []uint32{120, 1920})
		n := int(span/(20*time.Millisecond)) + rng.Intn(50)
		if k.long {
			steps = []uint32{48 * 10000}
			n = int(span / (10 * time.Second))
		}
		if n > 1500 {
			n = 1500
		}
		if n < 5 {
			n = 5
		}
		c.acfg = media.AudioCfg{Packets: n, StartSeq: pick(rng, uint16(rng.Intn(65536)), uint16(65535-rng.Intn(100)), 0),
			StartTS: pick(rng, rng.Uint32(), 0xFFFFFFFF-uint32(rng.Intn(100000)), 0), TSSteps: steps, Tag: uint32(i) + 0x1000, MaxSize: pick(rng, 60, 1200)}
		c.audio = media.GenAudio(rng, c.acfg)
		if !k.early || k.late == "audio" {
			add(step{at: aStart, what: "hasAudio"})
		}
		burst := 0
		for n, f := range c.audio {
			lost := false
			switch k.lossA {
			case "light":
				lost = rng.Intn(40) == 0
			case "heavy":
				lost = rng.Intn(4) == 0
			case "burst":
				if burst > 0 {
					burst--
					lost = true
				} else if rng.Intn(60) == 0 {
					burst = rng.Intn(20)
				}
			case "gap":
				// As many as there is room for where they are put in order
				if burst > 0 {
					burst--
					lost = true
				} else if r := rng.Intn(40); r == 0 {
					lost = true
				} else if r == 1 {
					burst = 2*int(c.rcfg.AudioPacketQueueSize) - 4 + rng.Intn(8)
				}
			}
			if lost && n > 0 {
				c.lost[f.Pkts[0]] = true
			}
			add(step{at: aStart + time.Duration(f.Ticks)*time.Second/48000, what: "audio", frame: f, pkt: f.Pkts[0]})
		}
	}
	sort.SliceStable(c.steps, func(i, j int) bool {
		if c.steps[i].at != c.steps[j].at {
			return c.steps[i].at < c.steps[j].at
		}
		return c.steps[i].order < c.steps[j].order
	})
	return c
}

// lose decides which video packets are lost
func (c *caseInfo) lose(rng *rand.Rand) {
	burst := 0
	lose := func(p *rtp.Packet) { c.lost[p] = true }
	for n, f := range c.video {
		for _, p := range f.Pads {
			if burst > 0 || c.k.lossV == "pad" && rng.Intn(2) == 0 || c.k.lossV == "heavy" && rng.Intn(5) == 0 {
				lose(p)
			}
		}
		switch c.k.lossV {
		case "light":
			for _, p := range f.Pkts {
				if rng.Intn(100) == 0 {
					lose(p)
				}
			}
			if rng.Intn(25) == 0 {
				lose(f.Pkts[rng.Intn(len(f.Pkts))])
			}
		case "heavy":
			for _, p := range f.Pkts {
				if rng.Intn(6) == 0 {
					lose(p)
				}
			}
		case "burst":
			for _, p := range f.Pkts {
				if burst > 0 {
					burst--
					lose(p)
				} else if rng.Intn(60) == 0 {
					burst = rng.Intn(30)
				}
			}
		case "gap":
			for _, p := range f.Pkts {
				if burst > 0 {
					burst--
					lose(p)
				} else if r := rng.Intn(60); r == 0 {
					lose(p)
				} else if r == 1 {
					burst = 2*int(c.rcfg.VideoPacketQueueSize) - 4 + rng.Intn(8)
				}
			}
		case "frames":
			if burst > 0 || rng.Intn(12) == 0 {
				for _, p := range f.Pkts {
					lose(p)
				}
				for _, p := range f.Pads {
					if rng.Intn(2) == 0 {
						lose(p)
					}
				}
				if burst > 0 {
					burst--
				} else {
					burst = rng.Intn(5)
				}
			}
		case "head":
			if rng.Intn(12) == 0 {
				lose(f.Pkts[0])
			}
		case "tail":
			if rng.Intn(12) == 0 {
				lose(f.Pkts[len(f.Pkts)-1])
				if n+1 < len(c.video) && rng.Intn(2) == 0 {
					// And the head of the next one
					lose(c.video[n+1].Pkts[0])
				}
			}
		case "key":
			if f.Key && rng.Intn(2) == 0 {
				lose(f.Pkts[rng.Intn(len(f.Pkts))])
			}
			if rng.Intn(20) == 0 {
				lose(f.Pkts[0])
			}
		}
	}
}

// loseAtWraps loses packets close to where a counter starts over
func (c *caseInfo) loseAtWraps(rng *rand.Rand) {
	near := func(n int) bool {
		for d := -1; d <= 1; d++ {
			if m := n + d; m > 0 && m < len(c.video) {
				a, b := c.video[m-1], c.video[m]
				if b.TS < a.TS || b.PID < a.PID || b.Pkts[len(b.Pkts)-1].SequenceNumber < a.Pkts[0].SequenceNumber {
					return true
				}
			}
		}
		return false
	}
	for n, f := range c.video {
		if n == 0 || !near(n) {
			continue
		}
		for _, p := range f.Pkts {
			if rng.Intn(2) == 0 && len(f.Pkts) > 1 && (p.SequenceNumber < 3 || p.SequenceNumber > 65532) || rng.Intn(5) == 0 {
				c.lost[p] = true
			}
		}
	}
}

// hostileBytes makes a payload which is no VP8
func hostileBytes(rng *rand.Rand, how string) []byte {
	if how == "truncated" {
		// The descriptor says more than there is, or nothing follows it
		switch rng.Intn(7) {
		case 0:
			return []byte{0x90}
		case 1:
			return []byte{0x90, 0x80}
		case 2:
			return []byte{0x90, 0x80, 0x80 | byte(rng.Intn(128))}
		case 3:
			return []byte{0x90, 0xF0, 0x80, 1}
		case 4:
			return []byte{0x80, 0x70, 1}
		case 5:
			return []byte{0x10}
		default:
			return []byte{0x90, 0xE0, 5, 7}
		}
	}
	b := make([]byte, rng.Intn(pick(rng, 4, 12, 60)))
	rng.Read(b)
	if len(b) > 0 && rng.Intn(2) == 0 {
		b[0] = pick(rng, byte(0x10), 0x90, 0x80, 0x00, 0x11, 0x17)
	}
	return b
}

// badKeyframe makes a keyframe up which is too short, or has no dimensions
func badKeyframe(rng *rand.Rand) []byte {
	b := make([]byte, 1+rng.Intn(9))
	if rng.Intn(2) == 0 {
		b = make([]byte, 10+rng.Intn(100))
	}
	rng.Read(b)
	b[0] &^= 1
	if len(b) >= 10 {
		copy(b[3:], []byte{0x9d, 0x01, 0x2a})
		d := 6 + 2*rng.Intn(2)
		b[d], b[d+1] = 0, 0
	}
	return b
}

func mediaCase(rng *rand.Rand, seed int64, i int) {
	k := chooseKind(rng)
	c := build(rng, k, seed, i)
	runMedia(rng, c)
}

func runMedia(rng *rand.Rand, c *caseInfo) {
	k := c.k
	base, err := os.MkdirTemp(dir, "rec")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	c.rcfg.Directory = base
	desc := map[string]interface{}{"harness": "vrec", "seed": c.seed, "case": c.i, "kind": fmt.Sprintf("%+v", k),
		"video": fmt.Sprintf("%+v", c.vcfg), "audio": fmt.Sprintf("%+v", c.acfg), "config": fmt.Sprintf("%+v", c.rcfg)}
	rep := func(props, format string, a ...interface{}) {
		res.Violate(props, desc, "case %d (%s): %s", c.i, describe(k), fmt.Sprintf(format, a...))
	}
	rec, err := recorder.NewRecorder(context.WithValue(context.Background(), "session", fmt.Sprint("s", c.i)), c.rcfg, "a.webm")
	if err != nil {
		rep("C20,"+prop, "the recorder was refused: %v", err)
		return
	}
	path := filepath.Join(base, "a.webm")
	requests := &keyframeRequests{}
	t0 := time.Now()
	now := func() time.Duration { return time.Since(t0) }

	// The model
	var (
		hasV, hasA, vw, aw      bool
		fileStart               time.Duration
		fileFirst               *media.Frame
		expectV                 = map[*media.Frame]media.Class{}
		vm                      media.VideoModel
		lastDone                = -1
		arrived                 = map[*media.Frame]int{}
		prevLost                bool // the packet before (in sequence) was lost
		lastLost                uint16
		audioPushed             = map[*media.Frame]time.Duration{}
		audioOrder              []*media.Frame
		audioFileFrom           = -1 // index into audioOrder
		audioOnlyStart          = false
		pausedAt                time.Duration
		keyframeSeen, firstSeen time.Duration
		waiting                 bool
		hostileSince            = false
		unsure                  = false // after hostile packets, until the next keyframe
		padTo                   = map[int]int{}
		restarts                int
		slowFrame               *media.Frame // since the last keyframe
		slowSpans               = map[*media.Frame][]*media.Frame{}
		began                   = map[*media.Frame]time.Duration{}
	)
	keyframeSeen = -time.Hour
	firstSeen = -1
	_ = pausedAt
	for n, f := range c.video {
		for _, p := range f.Pads {
			if c.lost[p] {
				padTo[n]++
			}
		}
	}
	first := 0
	if len(c.video) > 0 {
		first = c.video[0].Idx
	}
	checkRequested := func(why string, f *media.Frame) {
		if !k.custom || k.hostile != "" || slowFrame != nil {
			return
		}
		t := now()
		// A keyframe on its way counts as an answer to come
		if t-keyframeSeen <= time.Second {
			return
		}
		for _, r := range requests.times {
			if d := t - r.Sub(t0); d >= 0 && d <= time.Second {
				return
			}
		}
		rep("C14", "at %v (frame %d) no keyframe had been requested within the last second: %s", t, f.Idx, why)
	}
	seqShift := uint16(0) // hostile packets take sequence numbers
	begun := false
	for _, s := range c.steps {
		if d := s.at - now(); d > 0 {
			time.Sleep(d)
		}
		switch s.what {
		case "hasVideo":
			rec.SetHasVideo(true)
			rec.SetKeyframeRequester(requests)
			hasV = true
		case "hasAudio":
			rec.SetHasAudio(true)
			hasA = true
		case "audio":
			if c.lost[s.pkt] {
				continue
			}
			rec.PushAudio(s.pkt.Clone())
			if !hasA {
				continue
			}
			audioPushed[s.frame] = now()
			audioOrder = append(audioOrder, s.frame)
			if !aw && !hasV {
				aw, audioOnlyStart = true, true
				fileStart = now()
				audioFileFrom = len(audioOrder) - 1
				begun = true
			}
		case "video":
			if c.lost[s.pkt] {
				prevLost = true
				lastLost = s.pkt.SequenceNumber + seqShift
				continue
			}
			if k.hostile != "" && rng.Intn(60) == 0 {
				// One in between
				p := s.pkt.Clone()
				p.SequenceNumber += seqShift
				seqShift++
				p.Payload = hostileBytes(rng, k.hostile)
				p.Marker = rng.Intn(2) == 0
				if s.n == 0 && rng.Intn(3) == 0 && (k.custom || k.hostile == "garbage") {
					// A whole frame which is none
					p.Payload, p.Marker = append([]byte{0x10}, badKeyframe(rng)...), true
				}
				rec.PushVideo(p)
				c.hostileN++
				hostileSince = true
				if s.n > 0 {
					// In the middle of the frame
					c.hostileBetween[s.frame] = true
				}
			}
			if prevLost && k.notify {
				rec.NotifySkippedPacket(lastLost)
			}
			prevLost = false
			p := s.pkt.Clone()
			p.SequenceNumber += seqShift
			rec.PushVideo(p)
			if !hasV {
				continue
			}
			f := s.frame
			if s.n < 0 {
				continue
			}
			if f.Key {
				keyframeSeen = now()
			}
			if firstSeen < 0 {
				firstSeen = now()
			}
			if arrived[f] == 0 && s.n == 0 && !f.Key {
				// The next frame while waiting
				n := f.Idx - first
				broken := false
				for j := lastDone + 1; j < n; j++ {
					broken = true
				}
				pid := false
				if !broken && padTo[n] > 0 && f.PID < 0 {
					pid = true
				}
				if lastDone < 0 || broken || pid || f.Skip || !vm.Recording() {
					checkRequested("waiting for a keyframe", f)
				}
			}
			if arrived[f]++; arrived[f] == 1 {
				began[f] = now()
			}
			if arrived[f] < len(f.Pkts) {
				continue
			}
			n := f.Idx - first
			broken := n != lastDone+1
			pads := 0
			for j := lastDone + 1; j <= n; j++ {
				pads += padTo[j]
			}
			lastDone = n
			if hostileSince || c.hostileBetween[f] {
				// They may have been taken for anything
				unsure = true
				hostileSince = false
			}
			recorded := vm.Step(f, broken, pads > 0)
			if unsure && f.Key && !c.hostileBetween[f] {
				unsure = false
			}
			waiting = !recorded
			needs := (hasV && !vw) || (hasA && !aw)
			if recorded && needs && f.Key && !c.hostileBetween[f] {
				vw, aw = hasV, hasA
				fileStart = now()
				fileFirst = f
				expectV = map[*media.Frame]media.Class{}
				audioFileFrom = len(audioOrder)
				audioOnlyStart = false
				begun = true
				restarts++
			} else if recorded && needs && !f.Key && vw {
				checkRequested("the file is to start over", f)
			}
			if f.Key {
				slowFrame = nil
			}
			if now()-began[f] > 2*time.Second && recorded && vw && !f.Key && slowFrame == nil {
				slowFrame = f
				slowSpans[f] = nil
			}
			if recorded && vw {
				switch {
				case slowFrame != nil:
					if f != slowFrame {
						slowSpans[slowFrame] = append(slowSpans[slowFrame], f)
					}
					expectV[f] = media.May
				case c.hostileBetween[f], unsure && !f.Key:
					expectV[f] = media.May
				default:
					expectV[f] = media.Must
				}
			} else if unsure && vw {
				expectV[f] = media.May
			}
		}
	}
	_ = waiting
	time.Sleep(time.Duration(rng.Intn(100)) * time.Millisecond)
	ended := rec.Close()
	if rng.Intn(2) == 0 {
		// Whatever comes late changes nothing
		before, _ := os.ReadFile(path)
		if len(c.video) > 0 {
			rec.PushVideo(c.video[0].Pkts[0].Clone())
			rec.PushVideo(c.video[len(c.video)-1].Pkts[0].Clone())
		}
		if len(c.audio) > 0 {
			rec.PushAudio(c.audio[len(c.audio)-1].Pkts[0].Clone())
		}
		again := rec.Close()
		synctest.Wait()
		after, _ := os.ReadFile(path)
		if string(before) != string(after) {
			rep("C03", "the file changed after the recording was closed: %d, then %d bytes", len(before), len(after))
		}
		if again != ended {
			rep("C03", "closing again reports %v, not %v", again, ended)
		}
	}

	sig := ""
	sample := map[string]interface{}{"kind": describe(k), "frames_sent": len(c.video), "audio_sent": len(c.audio), "packets_lost": len(c.lost), "hostile_packets": c.hostileN}
	defer func() { res.Case(sig, sample) }()
	res.Count("video_frames_sent", int64(len(c.video)))
	res.Count("audio_packets_sent", int64(len(c.audio)))
	res.Count("packets_lost", int64(len(c.lost)))
	res.Count("hostile_packets", int64(c.hostileN))
	res.Count("keyframe_requests", int64(len(requests.times)))

	// Keyframe requests
	for n := 1; n < len(requests.times); n++ {
		if d := requests.times[n].Sub(requests.times[n-1]); d < time.Second {
			rep("C14", "keyframes were requested %v apart", d)
			break
		}
	}

	// What the other builder gives up on is not specified
	unknown := !k.custom && (k.lossV != "" || k.hostile != "")
	f, err := media.ParseFile(path)
	if err != nil {
		if !os.IsNotExist(err) {
			panic(err)
		}
		if begun && k.hostile != "garbage" && !unknown {
			tag := "C13"
			if k.lossV != "" {
				tag = "C14"
			}
			rep(tag+",C17,C03", "there is no file, although there were frames to record")
		}
		if ended != 0 {
			rep("C03", "nothing was recorded, but the last frame is at %v", ended)
		}
		sig = "none"
		return
	}
	entries, _ := os.ReadDir(base)
	for _, e := range entries {
		if e.Name() != "a.webm" && !(k.ivf && e.Name() == "a.ivf") {
			rep("C20,C19", "there is a file %s", e.Name())
		}
	}
	if !begun && k.hostile != "garbage" && !unknown {
		rep("C17,C14", "there is a file, although nothing could be recorded")
		return
	}
	if k.hostile == "garbage" || unknown {
		vw, aw = f.Video() != nil, f.Audio() != nil
	}
	media.CheckFile(rep, f, vw, aw, true)
	if len(f.Problems) > 0 {
		return
	}
	any := k.hostile == "garbage"
	if len(f.Blocks) == 0 && !any {
		rep("C17", "the file has no blocks")
		return
	}
	if last := time.Duration(f.LastTime()) * time.Millisecond; !any && ended/time.Millisecond != last/time.Millisecond {
		rep("C03", "the last frame is at %v, it was reported at %v", last, ended)
	}
	missing, extra := "C13", "C14"
	if k.lossV != "" {
		missing = "C14"
	}
	if k.late != "" {
		extra = "C14,C13,C16"
		missing += ",C16"
	}
	if k.hostile != "" {
		missing += ",C07,C12"
	}
	vblocks, ablocks := f.VideoBlocks(), f.AudioBlocks()
	gotV := media.CheckTrack(rep, media.TrackExpect{
		Kind: "video", Sent: c.video, Clock: 90, Missing: missing, Extra: extra, AnyContents: any,
		Class: func(fr *media.Frame) media.Class {
			if any || (!k.custom && k.lossV != "") || (!k.custom && k.hostile != "") {
				return media.May
			}
			return expectV[fr]
		},
		First: func(fr *media.Frame) (int64, int64, bool) {
			// Not if the file did not start with it
			return 0, 0, !any
		},
		FirstTag: "C15,C16",
	}, vblocks)
	if len(slowSpans) > 0 && k.custom {
		in := map[*media.Frame]bool{}
		for _, fr := range gotV {
			in[fr] = true
		}
		for fr, span := range slowSpans {
			for _, later := range span {
				if !in[fr] && in[later] && expectV[fr] == media.May {
					rep("C14", "frame %d was given up on, but frame %d, which depends on it, was recorded", fr.Idx, later.Idx)
					break
				}
			}
			res.Count("slow_frames", 1)
		}
	}
	if len(gotV) > 0 && !any {
		media.CheckDims(rep, f, gotV[0])
		if k.custom && fileFirst != nil && gotV[0] != fileFirst && k.hostile == "" {
			rep("C14,C16", "the file starts with frame %d, not %d", gotV[0].Idx, fileFirst.Idx)
		}
	}
	// Audio
	if len(ablocks) > 0 || aw {
		pos := map[*media.Frame]int{}
		for n, fr := range audioOrder {
			pos[fr] = n
		}
		// When something is missing, later ones wait for up to a queue of packets
		queue := int(c.rcfg.AudioPacketQueueSize)*2 + 8
		hole := func(n int) bool {
			// is there a hole at most a queue before
			fr := audioOrder[n]
			for d := 1; d <= queue; d++ {
				j := fr.Idx - d
				if j < c.audio[0].Idx {
					break
				}
				if _, ok := audioPushed[c.audio[j-c.audio[0].Idx]]; !ok && j > audioOrder[0].Idx {
					return true
				}
			}
			return false
		}
		unknownStart := any || unknown
		media.CheckTrack(rep, media.TrackExpect{
			Kind: "audio", Sent: c.audio, Clock: 48, Missing: "C13", Extra: "C16",
			Class: func(fr *media.Frame) media.Class {
				n, ok := pos[fr]
				if !ok {
					return media.MustNot
				}
				if unknownStart {
					return media.May
				}
				before := n < audioFileFrom
				if audioFileFrom < 0 {
					return media.MustNot
				}
				h := hole(n)
				if before && !h {
					return media.MustNot
				}
				since := audioPushed[fr] - fileStart
				if before && since < -120*time.Millisecond && !audioOnlyStart {
					return media.MustNot
				}
				if before {
					return media.May
				}
				if h && (since < 120*time.Millisecond || audioOrder[len(audioOrder)-1].Idx-fr.Idx < queue) {
					return media.May
				}
				return media.Must
			},
			First: func(fr *media.Frame) (int64, int64, bool) {
				if audioOnlyStart {
					return 0, 0, k.lossA == "" && !unknownStart
				}
				ms := (audioPushed[fr] - fileStart).Milliseconds()
				tol := int64(2)
				if k.lossA != "" {
					tol = 100
				}
				return ms - tol, ms + tol, !unknownStart
			},
			FirstTag: "C16",
			TimeTag:  "C15,C16",
		}, ablocks)
	}
	// The copy
	ivfPath := filepath.Join(base, "a.ivf")
	if v, err := media.ParseIVF(ivfPath); err == nil {
		if !k.ivf {
			rep("C19", "there is an IVF copy")
		} else if unknown && k.audio {
			// Frames may get too late for the muxer
			if v.Problem != "" {
				rep("C19", "not a valid IVF file: %s", v.Problem)
			}
		} else if len(vblocks) > 0 && !any {
			media.CheckIVF(rep, v, gotV, vblocks)
			res.Count("ivf_frames", int64(len(v.Frames)))
			if st, err := os.Stat(ivfPath); err == nil && st.Mode().Perm() != 0600 {
				rep("C19", "the mode of the IVF copy is %v", st.Mode())
			}
		}
	} else if k.ivf && len(vblocks) > 0 {
		rep("C19", "there is no IVF copy: %v", err)
	}
	res.Count("video_frames_recorded", int64(len(vblocks)))
	res.Count("audio_packets_recorded", int64(len(ablocks)))
	res.Count("starts_over", int64(max(0, restarts-1)))
	if len(f.Blocks) > 0 {
		sig = fmt.Sprint(describe(k), c.vcfg, c.acfg, len(c.lost), len(vblocks), len(ablocks))
		sample["frames_recorded"], sample["audio_recorded"] = len(vblocks), len(ablocks)
		sample["last_ms"] = f.LastTime()
	}
}

func describe(k kind) string {
	var s []string
	if k.video {
		b := "builtin"
		if k.custom {
			b = "default"
		}
		s = append(s, "video/"+b)
		if k.lossV != "" {
			s = append(s, "loss:"+k.lossV)
		}
	}
	if k.audio {
		s = append(s, "audio")
		if k.lossA != "" {
			s = append(s, "audio-loss:"+k.lossA)
		}
	}
	if k.late != "" {
		s = append(s, "late:"+k.late)
	}
	if k.hostile != "" {
		s = append(s, "hostile:"+k.hostile)
	}
	if k.wraps {
		s = append(s, "loss:wraps")
	}
	if k.long {
		s = append(s, "long")
	}
	if k.slow {
		s = append(s, "slow")
	}
	if k.huge {
		s = append(s, "huge")
	}
	if k.ivf {
		s = append(s, "ivf")
	}
	return strings.Join(s, " ")
}
