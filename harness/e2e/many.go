package e2e

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"verif/media"
)

// manySuite has sessions with several tracks of a kind, which all start at the
// same moment. Nobody says what becomes of their media, but nothing breaks.
func manySuite(p Params) {
	srv, err := NewLKServer(lkKey, lkSecret)
	if err != nil {
		p.R.Unsure("no LiveKit server: %v", err)
		return
	}
	defer srv.Close()
	e := p.env(EnvOpts{Name: "many", Conf: Conf{LiveKitHost: "ws://" + srv.Addr, LiveKitKey: lkKey, LiveKitSecret: lkSecret, IVF: true}})
	if e == nil {
		return
	}
	defer e.Close()
	rounds := 2
	if p.Thorough {
		rounds = 8
	}
	for r := 0; r < rounds && !e.Dead(); r++ {
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				rng := p.rng(int64(9000 + 10*r + i))
				id := fmt.Sprintf("many-%d-%d", r, i)
				kinds := []string{"video", "audio"}
				for k := 2 + rng.Intn(4); k > 0; k-- {
					kinds = append(kinds, pick(rng, "video", "audio"))
				}
				if i%2 == 0 {
					e.manyLK(rng, srv, id, kinds)
				} else {
					e.manyMS(rng, id, kinds)
				}
				p.R.Case(fmt.Sprint("many ", i%2, kinds), nil)
			}(i)
		}
		wg.Wait()
	}
	e.Status()
	e.CheckGauge("after sessions with many tracks")
}

func (e *Env) manyLK(rng *rand.Rand, srv *LKServer, id string, kinds []string) {
	room := &LKRoom{Name: "room " + id}
	var ask []string
	for i, k := range kinds {
		t := LKTrack{SID: fmt.Sprintf("TR_%d", i), Kind: k}
		room.Participants = append(room.Participants, LKParticipant{SID: fmt.Sprintf("PA_%d", i), Identity: fmt.Sprintf("user-%d", i), Tracks: []LKTrack{t}})
		ask = append(ask, t.SID)
	}
	srv.Add(room)
	s := &Start{ID: id, File: id + ".webm", Tracks: len(kinds), WantOK: true, LiveKit: true, Tag: "C26", Why: "LiveKit request for many tracks"}
	e.Start(s, lkMessage(rng, id, s.File, room.Name, ask))
	if q, ok := e.Response(s); !ok || q.Str("status") != "ok" {
		return
	}
	lp := &LKPlan{Want: ask}
	if c := srv.Conns(room); len(c) > 0 && lp.bound(srv, c[0]) {
		srv.m.Lock()
		var ts []*SentTrack
		for _, a := range ask {
			ts = append(ts, c[0].tracks[a])
		}
		srv.m.Unlock()
		e.sendMany(rng, ts)
	} else if !e.Dead() {
		e.Rep("C26", "session %s: it did not subscribe to all of %v", id, ask)
	}
	e.Stop(id)
	e.Stopped(s.Rec, Patience, "stop")
}

func (e *Env) manyMS(rng *rand.Rand, id string, kinds []string) {
	peer, err := NewPeer(PeerOpts{Kinds: kinds})
	if err != nil {
		e.R.Unsure("no peer: %v", err)
		return
	}
	defer peer.Close()
	s := &Start{ID: id, File: id + ".webm", Tracks: len(kinds), WantOK: true, Why: "offer of many tracks"}
	e.Start(s, (&SessionPlan{ID: id, File: s.File, Form: "options"}).Message(rng, peer.Offer))
	q, ok := e.Response(s)
	if !ok || q.Str("status") != "ok" {
		return
	}
	if err := peer.Answer(q.Str("sdp")); err != nil {
		e.Rep("C01,C13", "session %s: the answer is not usable: %v", id, err)
	} else if peer.Connected(15 * time.Second) {
		e.sendMany(rng, peer.Tracks)
	} else if !e.Dead() {
		e.Rep("C13,C01", "session %s: the peer could not connect with the answer", id)
	}
	e.Stop(id)
	e.Stopped(s.Rec, Patience, "stop")
}

// sendMany sends something on all tracks, some of which gets lost
func (e *Env) sendMany(rng *rand.Rand, tracks []*SentTrack) {
	var wg sync.WaitGroup
	for i, t := range tracks {
		var frames []*media.Frame
		step := 33 * time.Millisecond
		if t.Kind == "video" {
			frames = media.GenVideo(rng, media.VideoCfg{Frames: 90, PIDBits: 15, StartPID: rng.Intn(30000), StartSeq: uint16(rng.Intn(65536)), StartTS: rng.Uint32(), KeyEvery: 15, MaxSize: 3000, MaxPkt: 1100, W: 320, H: 240, Tag: uint32(i) + 1, TSSteps: []uint32{3000}})
		} else {
			step = 20 * time.Millisecond
			frames = media.GenAudio(rng, media.AudioCfg{Packets: 150, StartSeq: uint16(rng.Intn(65536)), StartTS: rng.Uint32(), TSSteps: []uint32{960}, Tag: uint32(i) + 0x100000, MaxSize: 100})
		}
		rng := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, f := range frames {
				for _, q := range f.Pkts {
					fate := 0
					if rng.Intn(12) == 0 {
						fate = pick(rng, -1, 1)
					}
					t.Send(q, fate)
				}
				time.Sleep(step)
			}
		}()
	}
	wg.Wait()
	e.R.Count("tracks_in_sessions_with_many", int64(len(tracks)))
}
