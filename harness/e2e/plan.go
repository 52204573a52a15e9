package e2e

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/pion/rtp"
	"verif/media"
)

// Plan is the media of a session
type Plan struct {
	Video, Audio   []*media.Frame
	VStart, AStart time.Duration
	Fate           map[*rtp.Packet]int           // as in SentTrack.Send
	doubtful       map[*media.Frame]bool         // see MarkLate
	Hold           map[*rtp.Packet]time.Duration // sent that much later
	Behind         map[*rtp.Packet]time.Duration // sent that much after the first one
	Dup            map[*rtp.Packet]bool
	ahead          map[*media.Frame]uint32      // of the timeline of the track
	Hostile        map[*media.Frame]*rtp.Packet // sent before the frame
	Order          string                       // "v", "a", "av", "va"
	Loss           string
	Desc           string
	// Pauses of the tracks
	VPause, APause Pause
	Lossless       bool
	ivf            bool

	m         sync.Mutex
	first     map[*media.Frame]time.Time // first packet was sent
	last      map[*media.Frame]time.Time
	began     time.Time
	ended     time.Time
	stopped   bool
	vBegan    time.Time
	aBegan    time.Time
	SendError error
}

// Pause is one during which a track has no packets, by time since the beginning
type Pause struct{ At, For time.Duration }

type PlanOpts struct {
	Order   string // "" random
	Loss    string // "none", "recover", "perm", "reorder", "mixed"; "" random
	Dur     time.Duration
	Delta   bool // start with delta frames
	Pause   time.Duration
	PauseOf string // "v", "a", both by default
	PauseTS bool   // the timestamps go on meanwhile
	Big     bool
	Tag     uint32
	KeyGap  time.Duration // between keyframes (default 1 s)
	Builtin bool
	Patient bool // the jitter buffer waits for packets for long
	FPS     int
	LiveKit bool
	Frames  int // that many video frames only
	// The first packets of a track come after those that follow them. The
	// track begins with the first one which arrives.
	Behind bool
}

func pick[T any](rng *rand.Rand, v ...T) T { return v[rng.Intn(len(v))] }

// skipTime makes the timestamps go on during the pause
func skipTime(frames []*media.Frame, x *Pause, start time.Duration, clock int64) {
	d := x.For.Milliseconds() * clock / 1000
	first := true
	for _, f := range frames {
		if start+time.Duration(f.Ticks)*time.Second/time.Duration(clock) < x.At {
			continue
		}
		f.Ticks += d
		f.TS += uint32(d)
		for _, q := range f.Pkts {
			q.Timestamp += uint32(d)
		}
		for _, q := range f.Pads {
			// Padding has the timestamp of the frame before
			if !first {
				q.Timestamp += uint32(d)
			}
		}
		first = false
	}
	x.For = 0
}

// Dur is how long it takes
func (p *Plan) Dur() (d time.Duration) {
	if n := len(p.Video); n > 0 {
		d = p.VStart + time.Duration(p.Video[n-1].Ticks)*time.Second/90000
	}
	if n := len(p.Audio); n > 0 {
		d = max(d, p.AStart+time.Duration(p.Audio[n-1].Ticks)*time.Second/48000)
	}
	return d
}

// NewPlan makes the media of a session up
func NewPlan(rng *rand.Rand, o PlanOpts) *Plan {
	p := &Plan{Fate: map[*rtp.Packet]int{}, Hold: map[*rtp.Packet]time.Duration{}, Dup: map[*rtp.Packet]bool{},
		Behind: map[*rtp.Packet]time.Duration{}, ahead: map[*media.Frame]uint32{}, Hostile: map[*media.Frame]*rtp.Packet{}, first: map[*media.Frame]time.Time{}, last: map[*media.Frame]time.Time{}}
	p.Order = o.Order
	if p.Order == "" {
		p.Order = pick(rng, "v", "v", "a", "av", "va")
	}
	p.Loss = o.Loss
	if p.Loss == "" {
		p.Loss = pick(rng, "none", "recover", "perm", "reorder")
	}
	p.Lossless = p.Loss != "perm" && p.Loss != "mixed" && p.Loss != "heads"
	if o.Dur == 0 {
		o.Dur = 4 * time.Second
	}
	if o.KeyGap == 0 {
		o.KeyGap = time.Second
	}
	fps := o.FPS
	if fps == 0 {
		fps = pick(rng, 15, 30, 30)
	}
	if o.Pause > 0 {
		x := Pause{o.Dur * 2 / 3, o.Pause}
		if o.PauseOf != "a" {
			p.VPause = x
		}
		if o.PauseOf != "v" {
			p.APause = x
		}
	}
	hasV, hasA := strings.Contains(p.Order, "v"), strings.Contains(p.Order, "a")
	vDur, aDur := o.Dur, o.Dur
	switch p.Order {
	case "av":
		p.VStart = min(time.Duration(400+rng.Intn(600))*time.Millisecond, o.Dur/2)
		vDur -= p.VStart
	case "va":
		// In the middle between two keyframes
		p.AStart = o.KeyGap*3/2 + time.Duration(rng.Intn(100)-50)*time.Millisecond
		aDur -= p.AStart
	}
	if hasV {
		n := int(vDur * time.Duration(fps) / time.Second)
		step := uint32(90000 / fps)
		c := media.VideoCfg{
			Frames: n, KeyEvery: int(o.KeyGap * time.Duration(fps) / time.Second),
			PIDBits:  pick(rng, 0, 7, 15, 15),
			StartPID: pick(rng, rng.Intn(32768), 32767-rng.Intn(60), 100+rng.Intn(28)),
			StartSeq: pick(rng, uint16(rng.Intn(65536)), uint16(65535-rng.Intn(100)), 0, 1, uint16(32768-rng.Intn(60))),
			StartTS:  pick(rng, rng.Uint32(), 0xFFFFFFFF-uint32(rng.Intn(200000))),
			MaxSize:  pick(rng, 100, 1500, 4000),
			MaxPkt:   pick(rng, 1100, 1100, 300),
			Parts:    rng.Intn(4) == 0,
			Extended: rng.Intn(3) == 0,
			KeyScale: pick(rng, 1, 3),
			VaryDims: rng.Intn(2) == 0,
			W:        16 + rng.Intn(2000), H: 16 + rng.Intn(2000),
			Tag: o.Tag, TSSteps: []uint32{step},
		}
		if rng.Intn(3) == 0 {
			c.TSSteps = []uint32{step - 300, step, step + 300}
		}
		if o.Big {
			// What comes while a lost packet is asked for has to fit in the queue
			c.MaxSize, c.MaxPkt, c.KeyScale = 16000, 1100, 1
			switch p.Loss {
			case "none":
				c.MaxSize = 40000
			case "reorder":
				c.MaxSize = 22000
			}
		}
		if rng.Intn(4) == 0 && !o.Builtin && (!o.LiveKit || c.PIDBits > 0) {
			// LiveKit's jitter buffer removes padding. Only picture ids tell
			// that nothing is missing then
			c.PadProb = 0.1
		}
		if o.Loss == "heads" {
			c.MinSize, c.MaxSize, c.MaxPkt, c.MinPkt = 1000, 3000, 300, 0
		}
		if o.Builtin {
			c.MaxPkt, c.MinPkt, c.Parts = 1100, 500, false
			c.KeyScale, c.MaxSize = 1, pick(rng, 100, 3000)
		}
		if o.Delta {
			c.Frames += fps / 2
		}
		if o.Frames > 0 {
			c.Frames = min(c.Frames, o.Frames)
		}
		p.Video = media.GenVideo(rng, c)
		if o.Delta {
			// Begin half a second before the second keyframe
			k := c.KeyEvery - fps/2
			if k < 1 {
				k = 1
			}
			if k < len(p.Video) {
				p.Video = p.Video[k:]
			}
			base := p.Video[0].Ticks
			for _, f := range p.Video {
				f.Ticks -= base
			}
		}
		after := 300 * time.Millisecond
		if p.Order == "va" {
			// Not around the start of the audio
			after = 2*o.KeyGap + 400*time.Millisecond
		}
		p.lose(rng, p.Video, false, after)
		if o.Big && o.Patient && p.Loss == "reorder" {
			// Some are far behind, with many others in between, but not given up
			for _, f := range p.Video {
				for _, q := range f.Pkts {
					if p.Hold[q] > 0 && rng.Intn(4) == 0 {
						p.Hold[q] = time.Duration(200+rng.Intn(80)) * time.Millisecond
					}
				}
			}
		}
		if o.Behind {
			p.behind(rng, p.Video)
		}
		p.Desc += fmt.Sprintf(" video %+v", c)
	}
	if hasA {
		n := int(aDur / (20 * time.Millisecond))
		c := media.AudioCfg{Packets: n, StartSeq: pick(rng, uint16(rng.Intn(65536)), uint16(65535-rng.Intn(100)), 0),
			StartTS: pick(rng, rng.Uint32(), 0xFFFFFFFF-uint32(rng.Intn(100000))), MaxSize: pick(rng, 60, 400), Tag: o.Tag + 1<<20}
		p.Audio = media.GenAudio(rng, c)
		if p.Order == "av" && !o.LiveKit && rng.Intn(3) == 0 && len(p.Video) > 10 {
			// The audio began with other timestamps, far ahead
			d := uint32(48000 * pick(rng, 11, 60, 3600, 36000))
			n := int(p.VStart/(20*time.Millisecond)) * (1 + rng.Intn(2)) / 3
			for _, f := range p.Audio[:n] {
				f.TS += d
				f.Pkts[0].Timestamp += d
				p.ahead[f] = d
			}
			p.Desc += fmt.Sprintf(" timestamps of the first %d audio packets are %d ahead,", n, d)
		}
		after := 300 * time.Millisecond
		switch p.Order {
		case "av":
			after += p.VStart
		case "va":
			after = 1200 * time.Millisecond
		}
		p.lose(rng, p.Audio, true, after)
		if o.Behind {
			p.behind(rng, p.Audio)
		}
		p.Desc += fmt.Sprintf(" audio %+v", c)
	}
	if o.PauseTS {
		skipTime(p.Video, &p.VPause, p.VStart, 90000)
		skipTime(p.Audio, &p.APause, p.AStart, 48000)
	}
	p.Desc = fmt.Sprintf("order %s, loss %s, start v %v a %v, pause %v %s %v:%s", p.Order, p.Loss, p.VStart, p.AStart, o.Pause, o.PauseOf, o.PauseTS, p.Desc)
	return p
}

// behind delays the first packets until after the next one
func (p *Plan) behind(rng *rand.Rand, frames []*media.Frame) {
	n := 1 + rng.Intn(3)
	var pkts []*rtp.Packet
	for _, f := range frames[:min(6, len(frames))] {
		pkts = append(append(pkts, f.Pads...), f.Pkts...)
	}
	if len(pkts) <= n {
		return
	}
	if d := uint16(rng.Intn(3)) - pkts[n].SequenceNumber; rng.Intn(4) > 0 {
		// The first one is 0, 1 or 2
		for _, f := range frames {
			for _, q := range append(append([]*rtp.Packet(nil), f.Pads...), f.Pkts...) {
				q.SequenceNumber += d
			}
		}
	}
	for _, q := range pkts[:n] {
		p.Fate[q] = -1
		p.Behind[q] = time.Duration(20+rng.Intn(60)) * time.Millisecond
	}
	p.Desc += fmt.Sprintf(", the first %d packets are behind packet %d,", n, pkts[n].SequenceNumber)
}

// lose decides about the fate of packets
func (p *Plan) lose(rng *rand.Rand, frames []*media.Frame, audio bool, after time.Duration) {
	var pkts []*rtp.Packet
	var at []int64
	rate, pause := int64(90000), p.VPause.At-p.VStart
	if audio {
		rate, pause = 48000, p.APause.At-p.AStart
	}
	for _, f := range frames {
		for _, q := range f.Pads {
			pkts, at = append(pkts, q), append(at, f.Ticks*1000/rate)
		}
		for _, q := range f.Pkts {
			pkts, at = append(pkts, q), append(at, f.Ticks*1000/rate)
		}
	}
	if len(pkts) == 0 {
		return
	}
	end := at[len(at)-1]
	burst, fate := 0, 0
	for i, q := range pkts {
		// The beginning and the end are left alone: what happens to a track's
		// first packets is not determined, and the last ones would not be asked for
		if at[i] < after.Milliseconds() || end-at[i] < 1500 || i < 12 {
			continue
		}
		// What is lost right before a pause is not missed until it is over,
		// which may be too late
		if d := pause.Milliseconds() - at[i]; d > 0 && d < 1500 {
			burst = 0
			continue
		}
		switch p.Loss {
		case "recover":
			if burst > 0 {
				burst--
				p.Fate[q] = fate
			} else if rng.Intn(25) == 0 {
				burst = pick(rng, 0, 0, 2, 10)
				fate = 1 + rng.Intn(7)
				p.Fate[q] = fate
			}
		case "recover1":
			// Asked for once, in time for a short jitter buffer
			if rng.Intn(25) == 0 && !audio {
				p.Fate[q] = 1
			}
		case "heads":
			// Set below
		case "perm", "mixed":
			if burst > 0 {
				burst--
				p.Fate[q] = fate
			} else if rng.Intn(60) == 0 {
				burst = pick(rng, 0, 0, 2, 8)
				fate = -1
				if p.Loss == "mixed" && rng.Intn(2) == 0 {
					fate = 1 + rng.Intn(5)
				}
				p.Fate[q] = fate
			}
		case "reorder":
			if rng.Intn(12) == 0 {
				p.Hold[q] = time.Duration(1+rng.Intn(90)) * time.Millisecond
			}
		}
		if rng.Intn(50) == 0 {
			p.Dup[q] = true
		}
	}
}

type planStep struct {
	at    time.Duration
	track *SentTrack
	frame *media.Frame
	pkt   *rtp.Packet
	last  bool
	dup   bool
}

// Run sends the media, until it is over or the channel is closed
func (p *Plan) Run(peer *Peer, stop <-chan struct{}) {
	var steps []planStep
	add := func(t *SentTrack, frames []*media.Frame, start time.Duration, rate int64, x Pause) {
		// When the first one is sent
		begin := start
	begin:
		for _, f := range frames {
			for _, q := range append(append([]*rtp.Packet(nil), f.Pads...), f.Pkts...) {
				if p.Behind[q] == 0 {
					begin = start + time.Duration(f.Ticks)*time.Second/time.Duration(rate)
					break begin
				}
			}
		}
		for _, f := range frames {
			at := start + time.Duration(f.Ticks)*time.Second/time.Duration(rate)
			if x.For > 0 && at >= x.At {
				at += x.For
			}
			for _, q := range append(append([]*rtp.Packet(nil), f.Pads...), f.Pkts...) {
				if d := p.Behind[q]; d > 0 {
					t.Late(q.SequenceNumber)
					steps = append(steps, planStep{at: begin + d, track: t, frame: f, pkt: q, dup: true})
				}
			}
			for _, q := range f.Pads {
				if p.Behind[q] > 0 {
					continue
				}
				if p.Hold[q] > 0 {
					t.Late(q.SequenceNumber)
				}
				steps = append(steps, planStep{at: at + p.Hold[q], track: t, pkt: q})
			}
			if h := p.Hostile[f]; h != nil {
				steps = append(steps, planStep{at: at, track: t, pkt: h})
			}
			for i, q := range f.Pkts {
				if p.Behind[q] > 0 {
					continue
				}
				if p.Hold[q] > 0 {
					t.Late(q.SequenceNumber)
				}
				steps = append(steps, planStep{at: at + p.Hold[q], track: t, frame: f, pkt: q, last: i == len(f.Pkts)-1})
				if p.Dup[q] {
					steps = append(steps, planStep{at: at + p.Hold[q] + 30*time.Millisecond, track: t, pkt: q, dup: true})
				}
			}
		}
	}
	if peer.Video != nil {
		add(peer.Video, p.Video, p.VStart, 90000, p.VPause)
	}
	if peer.Audio != nil {
		add(peer.Audio, p.Audio, p.AStart, 48000, p.APause)
	}
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].at < steps[j].at })
	t0 := time.Now()
	p.m.Lock()
	p.began = t0
	p.m.Unlock()
	defer func() {
		p.m.Lock()
		p.ended = time.Now()
		p.m.Unlock()
	}()
	for _, s := range steps {
		if d := time.Until(t0.Add(s.at)); d > 0 {
			select {
			case <-time.After(d):
			case <-stop:
				p.stopped = true
				return
			}
		} else {
			select {
			case <-stop:
				p.stopped = true
				return
			default:
			}
		}
		if s.dup {
			if p.Fate[s.pkt] == 0 || p.Behind[s.pkt] > 0 {
				s.track.Again(s.pkt)
			}
			continue
		}
		now := time.Now()
		p.m.Lock()
		if s.frame != nil {
			if _, ok := p.first[s.frame]; !ok {
				p.first[s.frame] = now
			}
			p.last[s.frame] = now
		}
		if s.track == peer.Video && p.vBegan.IsZero() {
			p.vBegan = now
		}
		if s.track == peer.Audio && p.aBegan.IsZero() {
			p.aBegan = now
		}
		p.m.Unlock()
		if err := s.track.Send(s.pkt, p.Fate[s.pkt]); err != nil && p.SendError == nil {
			p.SendError = err
		}
	}
}

// MarkLate finds the frames whose missing packets came so late, as this
// process or the recorder was slow, that a jitter buffer of the given length
// in RTP time may have given them up
func (p *Plan) MarkLate(t *SentTrack, length time.Duration) (n int) {
	if t == nil {
		return
	}
	p.m.Lock()
	defer p.m.Unlock()
	p.doubtful = map[*media.Frame]bool{}
	for i, f := range p.Video {
		for _, q := range f.Pkts {
			if p.Fate[q] <= 0 {
				continue
			}
			at, ok := t.Answered(q)
			if !ok {
				continue
			}
			for _, g := range p.Video[i+1:] {
				x, sent := p.first[g]
				if g.Ticks-f.Ticks < int64(length.Milliseconds())*90 || !sent {
					continue
				}
				if x.Before(at.Add(30 * time.Millisecond)) {
					p.doubtful[f] = true
					n++
				}
				break
			}
		}
	}
	return
}

func (p *Plan) sentCompletely(f *media.Frame) bool {
	p.m.Lock()
	defer p.m.Unlock()
	_, ok := p.last[f]
	return ok
}

// Outcome is what a finished recording contains
type Outcome struct {
	Video, Audio int
	File         *media.File
	MustV, MustA int
	Restarted    bool
	FileStart    time.Time // when what it starts with had been sent
}

// CheckOpts tells what is not certain about a session
type CheckOpts struct {
	Stop time.Time // when it was stopped; what was sent right before it may be missing
	// Only what is recorded is looked at, nothing is expected
	Lenient bool
	Prefix  bool // the file was not finalised
	Builtin bool
	IVF     bool
	LiveKit bool
	// Properties which a loss of frames breaks, in addition
	Tag string
	// Slack is how long before Stop frames may have been sent without being recorded
	Slack time.Duration
}

// Check compares a recording with what was sent. data is the file's contents.
func (p *Plan) Check(rep media.Report, data []byte, exists bool, o CheckOpts) Outcome {
	p.m.Lock()
	defer p.m.Unlock()
	var out Outcome
	slack := o.Slack
	if slack == 0 {
		slack = 250 * time.Millisecond
	}
	inTime := func(t time.Time) bool { return o.Stop.IsZero() || t.Before(o.Stop.Add(-slack)) }
	// What the video frames' packets' loss leads to
	must := map[*media.Frame]media.Class{}
	var fileStart time.Time // when the keyframe was complete
	var fileFirst *media.Frame
	var vm media.VideoModel
	lastDone := -1
	var aStart time.Time
	for _, f := range p.Audio {
		if aStart = p.first[f]; !aStart.IsZero() {
			break
		}
	}
	var complete []*media.Frame
	pads := 0
	aw := false
	hasA := false
	doubtful := false
	for n, f := range p.Video {
		for _, q := range f.Pads {
			if p.Fate[q] < 0 {
				pads++
			}
		}
		t, sent := p.last[f]
		if !sent {
			continue
		}
		lost := false
		for _, q := range f.Pkts {
			if p.Fate[q] < 0 {
				lost = true
			}
		}
		if lost {
			continue
		}
		complete = append(complete, f)
		broken := n != lastDone+1
		lastDone = n
		rec := vm.Step(f, broken, pads > 0)
		pads = 0
		if !aStart.IsZero() && t.After(aStart) {
			hasA = true
		}
		if o.LiveKit {
			// All tracks are known from the start
			hasA, aw = true, true
		}
		if rec && f.Key && (fileFirst == nil || hasA && !aw) {
			fileFirst, fileStart, aw = f, t, hasA
			must = map[*media.Frame]media.Class{}
		}
		// Without this one, there would be none up to the next keyframe
		if rec && f.Key {
			doubtful = false
		}
		doubtful = doubtful || p.doubtful[f]
		if rec && fileFirst != nil {
			must[f] = media.Must
			if !inTime(t) || doubtful {
				must[f] = media.May
			}
		}
	}
	if len(p.Video) > 0 && fileFirst != nil && !inTime(fileStart) {
		// Nobody knows whether it started in time
		o.Lenient = true
	}
	if out.FileStart = fileStart; fileFirst == nil {
		out.FileStart = aStart
	}
	audioOnly := len(p.Video) == 0 || fileFirst == nil && !o.LiveKit
	wantA := false
	for _, f := range p.Audio {
		t, sent := p.last[f]
		if sent && p.Fate[f.Pkts[0]] >= 0 && inTime(t) {
			wantA = true
		}
	}
	if len(p.Video) > 0 && fileFirst == nil && wantA {
		// The video track exists once its first packet arrived: audio alone is
		// recorded until then
		wantA = false
		if p.vBegan.IsZero() || p.vBegan.Sub(aStart) > 100*time.Millisecond {
			wantA = !o.LiveKit
		}
	}
	missing := "C13"
	if !p.Lossless {
		missing = "C14"
	}
	if strings.HasPrefix(p.Loss, "recover") || p.Loss == "mixed" {
		missing += ",C11"
	}
	if p.Loss == "reorder" || len(p.Dup) > 0 {
		missing += ",C10"
	}
	if o.Tag != "" {
		missing += "," + o.Tag
	}
	if !exists {
		if (fileFirst != nil || wantA) && !o.Lenient {
			rep(missing+",C17,C03", "there is no file, although there were frames to record")
		}
		return out
	}
	f := media.Parse(data)
	out.File = f
	out.Video, out.Audio = len(f.VideoBlocks()), len(f.AudioBlocks())
	hasV := len(p.Video) > 0 && fileFirst != nil
	expA := len(p.Audio) > 0 && !aStart.IsZero() && (audioOnly || aw)
	if o.Lenient {
		hasV, expA = f.Video() != nil, f.Audio() != nil
	}
	if o.LiveKit {
		hasV, expA = len(p.Video) > 0, len(p.Audio) > 0
	}
	if o.Prefix && len(f.Tracks) == 0 {
		hasV, expA = false, false
	}
	media.CheckFile(rep, f, hasV, expA, !o.Prefix)
	if len(f.Problems) > 0 {
		return out
	}
	byData := map[string]*media.Frame{}
	for _, fr := range p.Audio {
		byData[string(fr.Data)] = fr
	}
	tag := "C15"
	gotV := media.CheckTrack(rep, media.TrackExpect{
		Kind: "video", Sent: p.Video, Clock: 90, Missing: missing, Extra: "C14,C13,C16", TimeTag: tag,
		Class: func(fr *media.Frame) media.Class {
			if o.Lenient {
				return media.May
			}
			if c, ok := must[fr]; ok {
				if c == media.Must {
					out.MustV++
				}
				return c
			}
			return media.MustNot
		},
		First:    func(fr *media.Frame) (int64, int64, bool) { return 0, 0, true },
		FirstTag: "C16,C15",
	}, f.VideoBlocks())
	if len(gotV) > 0 {
		media.CheckDims(rep, f, gotV[0])
		if !o.Lenient && fileFirst != nil && gotV[0] != fileFirst {
			rep(missing+",C16", "the file starts with frame %d, not %d", gotV[0].Idx, fileFirst.Idx)
		}
	}
	held := func(i int) bool {
		// Packets behind a hole wait for a while
		for j := i; j >= 0 && j > i-60; j-- {
			if p.Fate[p.Audio[j].Pkts[0]] != 0 || p.Hold[p.Audio[j].Pkts[0]] != 0 {
				return true
			}
		}
		return false
	}
	// LiveKit's jitter buffer may drop what is between two losses within its
	// 200 ms, as the jump of RTP time makes it too old
	between := func(i int) bool {
		lost := func(from, to int) bool {
			for j := max(from, 0); j < min(to, len(p.Audio)); j++ {
				if p.Fate[p.Audio[j].Pkts[0]] < 0 {
					return true
				}
			}
			return false
		}
		return o.LiveKit && lost(i-20, i) && lost(i+1, i+21)
	}
	tol := 150 * time.Millisecond
	if o.LiveKit {
		// A jitter buffer of 200 ms for each track
		tol = 400 * time.Millisecond
	}
	idx := map[*media.Frame]int{}
	for i, fr := range p.Audio {
		idx[fr] = i
	}
	if f.Audio() != nil || expA {
		media.CheckTrack(rep, media.TrackExpect{
			Kind: "audio", Sent: p.Audio, Clock: 48, Missing: strings.Replace(missing, "C14", "C13", 1), Extra: "C16", TimeTag: "C15,C16",
			Class: func(fr *media.Frame) media.Class {
				t, sent := p.last[fr]
				if !sent || p.Fate[fr.Pkts[0]] < 0 {
					return media.MustNot
				}
				if o.Lenient || between(idx[fr]) {
					return media.May
				}
				if !audioOnly {
					d := t.Sub(fileStart)
					if d < -tol {
						if held(idx[fr]) {
							return media.May
						}
						return media.MustNot
					}
					if d < tol {
						return media.May
					}
				}
				if !inTime(t) {
					return media.May
				}
				// Holes at the end: what waits for them does not have to be there
				if held(idx[fr]) && !inTime(t.Add(1200*time.Millisecond)) {
					return media.May
				}
				if p.Fate[fr.Pkts[0]] > 0 && !audioOnly && t.Sub(fileStart) < time.Second {
					return media.May
				}
				out.MustA++
				return media.Must
			},
			First: func(fr *media.Frame) (int64, int64, bool) {
				if o.Lenient {
					return 0, 0, false
				}
				if audioOnly {
					return 0, 0, fr == p.Audio[0]
				}
				if held(idx[fr]) {
					return 0, 0, false
				}
				ms := p.last[fr].Sub(fileStart).Milliseconds()
				return ms - tol.Milliseconds(), ms + tol.Milliseconds(), true
			},
			FirstTag: "C16",
		}, f.AudioBlocks())
		if hasV && out.MustA > 10 && out.Audio == 0 {
			rep("C16,C13", "there is no audio next to the video, %d packets had to be there", out.MustA)
		}
	}
	return out
}

// CheckIVFFile compares the copy with the recording
func (p *Plan) CheckIVFFile(rep media.Report, path string, f *media.File, want bool) {
	ivf := strings.TrimSuffix(path, ".webm") + ".ivf"
	v, err := media.ParseIVF(ivf)
	want = want && f != nil && f.Video() != nil
	if err != nil {
		if want && f != nil && len(f.VideoBlocks()) > 0 {
			rep("C19", "there is no IVF copy: %v", err)
		}
		return
	}
	if !want {
		rep("C19,C20", "there is an IVF copy")
		return
	}
	if f == nil || len(f.VideoBlocks()) == 0 {
		return
	}
	by := map[string]*media.Frame{}
	for _, fr := range p.Video {
		by[string(fr.Data)] = fr
	}
	var frames []*media.Frame
	for _, b := range f.VideoBlocks() {
		fr := by[string(b.Data)]
		if fr == nil {
			return
		}
		frames = append(frames, fr)
	}
	media.CheckIVF(rep, v, frames, f.VideoBlocks())
	// It shows the same to nobody else
	if st, err := os.Stat(ivf); err == nil {
		if rec, err := os.Stat(path); err == nil && st.Mode() != rec.Mode() {
			rep("C19,C20", "the mode of the IVF copy is %v, that of the recording is %v", st.Mode(), rec.Mode())
		}
	}
}
