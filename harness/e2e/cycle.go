package e2e

import (
	"fmt"
	"math/rand"
	"time"

	"github.com/pion/rtp"
	"verif/media"
)

// cyclePlan sends all sequence numbers there are more than once. The same ones
// are lost in each cycle, and nothing else: what was once asked for, given up
// on or recovered must not matter the next time.
func cyclePlan(rng *rand.Rand) *Plan {
	p := &Plan{Fate: map[*rtp.Packet]int{}, Hold: map[*rtp.Packet]time.Duration{}, Dup: map[*rtp.Packet]bool{},
		Hostile: map[*media.Frame]*rtp.Packet{}, first: map[*media.Frame]time.Time{}, last: map[*media.Frame]time.Time{},
		Order: "v", Loss: "mixed"}
	const slow, fast = 90000 / 400, 90000 / 8000
	from := 1100 + rng.Intn(300)
	lost, last := map[int]int{}, 0
	for i := 0; i < 4; i++ {
		last = from + i*400 + rng.Intn(100)
		lost[last] = []int{10, -1, 3, 10}[i]
	}
	// What waits for the last one fits in the jitter buffer
	n := 65536 + last + 450
	start := pick(rng, uint16(rng.Intn(65536)), uint16(65536-from-600), 0)
	p.Video = media.GenVideo(rng, media.VideoCfg{Frames: n, KeyEvery: 200, PIDBits: 15, StartSeq: start, StartTS: rng.Uint32(),
		MinSize: 20, MaxSize: 40, Tag: 4242, TSSteps: []uint32{1}})
	ticks := int64(0)
	ts := p.Video[0].TS
	for i, f := range p.Video {
		f.Ticks = ticks
		f.TS = ts + uint32(ticks)
		f.Pkts[0].Timestamp = f.TS
		k := i % 65536
		if a, ok := lost[k]; ok {
			if i >= 65536 {
				a = pick(rng, 1, 4, -1)
				if k == last {
					// It is given up on, and what follows is recorded
					a = -1
				}
			}
			p.Fate[f.Pkts[0]] = a
		}
		if k >= from-50 && k < from+4*400+200 || i < 300 || i > 65536+from {
			ticks += slow
		} else {
			ticks += fast
		}
	}
	p.Desc = fmt.Sprintf("two cycles of sequence numbers from %d, lost in each: %v", start, lost)
	return p
}

// CycleSession loses the same sequence numbers twice
func CycleSession(p Params) {
	e := p.env(EnvOpts{Name: "cycle", Conf: Conf{PktTimeout: 60000}})
	if e == nil {
		return
	}
	defer e.Close()
	rng := p.rng(990)
	drops := UDPDrops()
	sp := SessionPlan{ID: "cycle", File: "cycle.webm", Form: "options", End: "stop", Media: cyclePlan(rng), Lenient: true, Linger: time.Second}
	s := e.RunSession(rng, sp)
	if s.OK {
		n, end := 0, sp.Media.Video[len(sp.Media.Video)-150:]
		recorded := map[string]bool{}
		if s.Out.File != nil {
			for _, b := range s.Out.File.VideoBlocks() {
				recorded[string(b.Data)] = true
			}
		}
		for _, f := range end {
			if recorded[string(f.Data)] {
				n++
			}
		}
		if n == 0 && UDPDrops() == drops {
			e.RepCase("C11,C14", sp.String(), "session cycle: none of the %d frames at the end was recorded, although a keyframe followed the last loss, which is to be given up on after 0.4 s", len(end))
		}
		p.R.Count("frames_after_all_cycles", int64(n))
		p.R.Case(sp.String(), map[string]interface{}{"session": sp.String(), "recorded_video": s.Out.Video, "drops": UDPDrops() - drops})
	}
}
