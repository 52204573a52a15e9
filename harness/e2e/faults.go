package e2e

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/pion/rtp"
	"verif/media"
)

// setFileSizeLimit limits the size of the files which the recorder writes
func (p *Proc) setFileSizeLimit(n uint64) error {
	lim := syscall.Rlimit{Cur: n, Max: ^uint64(0)}
	_, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(p.Cmd.Process.Pid), uintptr(syscall.RLIMIT_FSIZE), uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
	if e != 0 {
		return e
	}
	return nil
}

var malformedVP8 = [][]byte{
	{}, {0x80}, {0x90}, {0x90, 0x80}, {0x90, 0xFF}, {0x90, 0xFF, 0x80}, {0x90, 0xFF, 0x80, 0x01}, {0x90, 0xFF, 0x80, 0x01, 0x02}, {0x90, 0x80, 0x80}, {0x90, 0x20}, {0x90, 0x10}, {0x90, 0x40},
	{0x10}, {0x10, 0x00}, {0x10, 0x00, 0x00}, {0x10, 0x00, 0x00, 0x00}, {0x10, 0x00, 0x00, 0x00, 0x9D, 0x01}, {0x10, 0x00, 0x00, 0x00, 0x9D, 0x01, 0x2A}, {0x10, 0x00, 0x00, 0x00, 0x9D, 0x01, 0x2A, 0, 0},
	{0x10, 0x00, 0x00, 0x00, 0x9D, 0x01, 0x2A, 0, 0, 0, 0}, {0x1F, 0xFF, 0xFF}, {0xFF}, {0x00}, {0x07, 1, 2, 3}, {0x10, 0x01}, {0x10, 0xFF, 0xFF, 0xFF},
	{0x10, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0, 0, 0, 0, 0, 0},
}

// spoil makes the media of a plan hostile: malformed packets take the place of
// some and come in between others
func spoil(rng *rand.Rand, p *Plan) {
	mal := func(q *rtp.Packet) *rtp.Packet {
		c := *q
		switch rng.Intn(4) {
		case 0:
			c.Payload = malformedVP8[rng.Intn(len(malformedVP8))]
		case 1:
			b := make([]byte, rng.Intn(40))
			rng.Read(b)
			c.Payload = b
		case 2:
			if n := len(q.Payload); n > 0 {
				c.Payload = q.Payload[:rng.Intn(n)]
			}
		case 3:
			b := append([]byte(nil), q.Payload...)
			for k := 0; k < 3 && len(b) > 0; k++ {
				b[rng.Intn(min(len(b), 14))] = byte(rng.Intn(256))
			}
			c.Payload = b
		}
		if rng.Intn(6) == 0 {
			c.Marker = !c.Marker
		}
		if rng.Intn(6) == 0 {
			c.Timestamp = rng.Uint32()
		}
		if rng.Intn(10) == 0 {
			c.CSRC = []uint32{1, 2, 3}
		}
		if rng.Intn(10) == 0 {
			c.Header.Extension = true
			c.Header.ExtensionProfile = 0xBEDE
			c.Header.SetExtension(1, []byte{1, 2, 3})
		}
		return &c
	}
	for _, fs := range [][]*media.Frame{p.Video, p.Audio} {
		for _, f := range fs {
			for i, q := range f.Pkts {
				if rng.Intn(4) == 0 {
					f.Pkts[i] = mal(q)
				}
			}
			if rng.Intn(8) == 0 {
				h := mal(f.Pkts[0])
				h.SequenceNumber = uint16(int(h.SequenceNumber) + pick(rng, 0, -1, 1, -300, 300, 700, -700, 30000, 32768, -20))
				p.Hostile[f] = h
			}
		}
	}
	p.Lossless = false
	p.Desc = "hostile, " + p.Desc
}

// FaultSuite makes some recordings fail and checks that others do not notice
func FaultSuite(p Params) {
	type kind struct {
		name string
		conf Conf
	}
	var wg sync.WaitGroup
	for k, kd := range []kind{{"strict", Conf{PktTimeout: 60000}}, {"default", Conf{}}, {"fsize", Conf{PktTimeout: 60000, IVF: true}}, {"builtin", Conf{PktTimeout: 60000, Builtin: true}}} {
		wg.Add(1)
		go func(k int, kd kind) {
			defer wg.Done()
			e := p.env(EnvOpts{Name: "faults-" + kd.name, Conf: kd.conf})
			if e == nil {
				return
			}
			defer e.Close()
			for round := 0; round < p.N && !e.Dead(); round++ {
				faultRound(p, e, k, round, kd.name)
			}
			e.Status()
			e.CheckGauge("after all faults")
		}(k, kd)
	}
	wg.Wait()
}

func faultRound(p Params, e *Env, k, round int, env string) {
	const limit = 150000
	if env == "fsize" {
		if err := e.Proc.setFileSizeLimit(limit); err != nil {
			p.R.Unsure("file size limit: %v", err)
			return
		}
	}
	var wg sync.WaitGroup
	run := func(i int, f func(rng *rand.Rand)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := p.rng(int64(k*100000 + round*1000 + i))
			time.Sleep(time.Duration(rng.Intn(500)) * time.Millisecond)
			f(rng)
		}()
	}
	name := func(i int) string { return fmt.Sprintf("f%d-%d-%d", k, round, i) }
	// Those which must not notice anything
	for i := 0; i < 4; i++ {
		run(i, func(rng *rand.Rand) {
			o := PlanOpts{Dur: 5 * time.Second, Loss: pick(rng, "none", "reorder"), Tag: uint32(k*10000 + round*100 + i + 1), Builtin: e.Conf.Builtin, Order: pick(rng, "v", "a", "av")}
			sp := SessionPlan{ID: name(i), File: "good/" + name(i) + ".webm", Form: "options", End: pick(rng, "stop", "stop", "close"), Tag: "C07"}
			sp.Media = NewPlan(rng, o)
			if env == "fsize" {
				// Small enough
				small := 0
				for _, f := range append(append([]*media.Frame{}, sp.Media.Video...), sp.Media.Audio...) {
					small += len(f.Data) + 40
				}
				if small > limit*3/4 {
					o.Order = "a"
					sp.Media = NewPlan(rng, o)
				}
			}
			s := e.RunSession(rng, sp)
			sig := ""
			if s.OK {
				sig = "bystander " + sp.String()
			}
			p.R.Case(sig, map[string]interface{}{"bystander": sp.String(), "env": env})
			p.R.Count("bystanders", 1)
		})
	}
	// Those which fail
	faults := []string{"hostile", "hostile", "rmdir", "rmdir-early", "file", "mute", "hostile-close", "replaced"}
	if env == "fsize" {
		faults = []string{"big", "big", "hostile", "rmdir", "big"}
	}
	for i, fault := range faults {
		run(100+i, func(rng *rand.Rand) {
			dir := filepath.Join(e.Rec, "bad-"+name(i))
			sp := SessionPlan{ID: "bad-" + name(i), File: "bad-" + name(i) + "/r.webm", Form: "legacy", End: "stop", Victim: true, Lenient: true}
			sp.Media = NewPlan(rng, PlanOpts{Dur: 4 * time.Second, Tag: uint32(k*10000 + round*100 + i + 50), Order: pick(rng, "v", "av", "v", "a"), Builtin: e.Conf.Builtin, Big: fault == "big"})
			at := time.Duration(200+rng.Intn(3000)) * time.Millisecond
			after := func(f func()) func(*Session) {
				return func(*Session) {
					go func() {
						time.Sleep(at)
						f()
					}()
				}
			}
			switch fault {
			case "hostile":
				spoil(rng, sp.Media)
			case "hostile-close":
				spoil(rng, sp.Media)
				sp.End = "close"
			case "rmdir":
				sp.OnBegin = after(func() { os.RemoveAll(dir) })
			case "rmdir-early":
				sp.OnBegin = func(*Session) { os.RemoveAll(dir) }
			case "file":
				// Something else has the name of the directory
				sp.OnBegin = func(*Session) {
					os.RemoveAll(dir)
					os.WriteFile(dir, []byte("x"), 0644)
				}
			case "replaced":
				// A file of this name appears before the first frame
				sp.OnBegin = func(s *Session) {
					os.WriteFile(filepath.Join(e.Rec, sp.File), []byte("precious"), 0644)
				}
			case "mute":
				sp.End = "mute"
			case "big":
				sp.Prefix = true
			}
			t0 := time.Now()
			s := e.RunSession(rng, sp)
			sig := ""
			if s.OK {
				sig = "victim " + fault + sp.String()
				r := s.Start.Rec
				switch fault {
				case "rmdir-early", "file", "replaced":
					if r.HR != 0 {
						e.RepCase("C03,C07", sp.String(), "session %s: nothing could be recorded (%s), recordingStopped says %.0f ms", sp.ID, fault, r.HR)
					}
				}
				switch fault {
				case "big":
					if st, err := os.Stat(r.Path); err == nil && st.Size() > limit {
						e.RepCase("C07", sp.String(), "the file has %d bytes despite the limit", st.Size())
					} else if err == nil && st.Size() > limit/2 {
						p.R.Count("files_which_hit_the_limit", 1)
					}
				case "replaced":
					if b, err := os.ReadFile(r.Path); err != nil || string(b) != "precious" {
						e.RepCase("C20,C07", sp.String(), "a file which appeared after the request was accepted was overwritten: %d bytes, %v", len(b), err)
					}
				}
			}
			p.R.Case(sig, map[string]interface{}{"victim": fault, "session": sp.String(), "env": env, "took_ms": time.Since(t0).Milliseconds()})
			p.R.Count("victims_"+fault, 1)
		})
	}
	// Requests are answered meanwhile
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	for {
		select {
		case <-done:
			return
		case <-time.After(300 * time.Millisecond):
			if !e.Status() {
				<-done
				return
			}
			p.R.Count("status_requests", 1)
		}
	}
}

// checkVictim checks what a failed recording left
func (s *Session) checkVictim(rep media.Report) {
	r := s.Start.Rec
	if r.SnapErr != nil || string(r.Snapshot) == "precious" {
		return
	}
	f := media.Parse(r.Snapshot)
	if len(f.Problems) > 0 {
		rep("C07,C17", "what the failed recording left is not readable: %s", strings.Join(f.Problems, "; "))
	}
	if f.Truncated && !s.Plan.Prefix {
		rep("C07,C17", "the recording ends in the middle of an element")
	}
	s.Env.R.Count("blocks_of_victims", int64(len(f.VideoBlocks())+len(f.AudioBlocks())))
}

// CrashSuite kills the recorder while sessions are recorded, and looks at what
// is left
func CrashSuite(p Params) {
	var wg sync.WaitGroup
	confs := []Conf{{PktTimeout: 60000}, {PktTimeout: 60000, IVF: true}, {}, {PktTimeout: 60000, Builtin: true}}
	for k, c := range confs {
		wg.Add(1)
		go func(k int, c Conf) {
			defer wg.Done()
			e := p.env(EnvOpts{Name: fmt.Sprintf("crash-%d", k), Conf: c})
			if e == nil {
				return
			}
			defer e.Close()
			instances := map[string]bool{}
			for round := 0; round < p.N && !e.Dead(); round++ {
				inst := e.Mon.Instance()
				if instances[inst] {
					e.Rep("C05", "two processes have the instance id %q", inst)
				}
				instances[inst] = true
				crashRound(p, e, k, round)
				e.Mon.NewInstance()
				if err := e.Restart(); err != nil {
					return
				}
			}
		}(k, c)
	}
	wg.Wait()
}

func crashRound(p Params, e *Env, k, round int) {
	rng := p.rng(int64(k*10000 + round))
	type sess struct {
		sp   SessionPlan
		path string
		conn bool
	}
	n := 10
	out := make([]*sess, n)
	var wg sync.WaitGroup
	died := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int, rng *rand.Rand) {
			defer wg.Done()
			time.Sleep(time.Duration(rng.Intn(1500)) * time.Millisecond)
			losses := []string{"none", "reorder", "recover", "perm"}
			if c := e.Conf; c.Builtin || c.PktTimeout < 1000 {
				losses = []string{"none", "reorder"}
			}
			sp := SessionPlan{ID: fmt.Sprintf("k-%d", i), File: fmt.Sprintf("r%d/k-%d.webm", round, i), Form: "options",
				Media: NewPlan(rng, PlanOpts{Dur: 8 * time.Second, Order: pick(rng, "v", "a", "av"), Loss: pick(rng, losses...), Tag: uint32(k*10000 + round*100 + i + 1), Builtin: e.Conf.Builtin})}
			s := &sess{sp: sp}
			peer, err := NewPeer(PeerOpts{Video: len(sp.Media.Video) > 0, Audio: len(sp.Media.Audio) > 0})
			if err != nil {
				return
			}
			defer peer.Close()
			st := &Start{ID: sp.ID, File: sp.File, Tracks: 2, WantOK: true, Why: "request"}
			e.Start(st, sp.Message(rng, peer.Offer))
			select {
			case r := <-st.resp:
				if st.Rec == nil || peer.Answer(r.Str("sdp")) != nil {
					return
				}
			case <-died:
				return
			}
			s.path = filepath.Join(e.Rec, sp.File)
			out[i] = s
			select {
			case <-peer.connected:
				s.conn = true
			case <-died:
				return
			}
			sp.Media.Run(peer, died)
		}(i, rand.New(rand.NewSource(rng.Int63())))
	}
	time.Sleep(time.Duration(300+rng.Intn(5500)) * time.Millisecond)
	at := time.Now()
	how := pick(rng, syscall.SIGKILL, syscall.SIGKILL, syscall.SIGINT, syscall.SIGTERM)
	e.Proc.StopBy(how)
	close(died)
	wg.Wait()
	p.R.Count("kills", 1)
	for _, s := range out {
		if s == nil {
			continue
		}
		rep := func(props, f string, a ...interface{}) {
			e.RepCase(props, s.sp.String(), "killed %v after the start of the round, session %s: %s", at.Sub(s.sp.Media.began).Round(time.Millisecond), s.sp.ID, fmt.Sprintf(f, a...))
		}
		data, err := os.ReadFile(s.path)
		m := s.sp.Media
		m.stopped = true
		slack := 400 * time.Millisecond
		if len(m.Video) > 0 && len(m.Audio) > 0 {
			slack += 700 * time.Millisecond
		}
		if m.Loss != "none" {
			slack += 1300 * time.Millisecond
		}
		o := m.Check(rep, data, err == nil, CheckOpts{Stop: at, Slack: slack, Prefix: true, Builtin: e.Conf.Builtin, Tag: "C18"})
		sig := ""
		if o.Video+o.Audio > 0 {
			sig = fmt.Sprint(k, round, s.sp.String())
		}
		p.R.Case(sig, map[string]interface{}{"session": s.sp.String(), "killed_after_ms": at.Sub(m.began).Milliseconds(), "video": o.Video, "audio": o.Audio, "bytes": len(data)})
		if e.Conf.IVF && len(m.Video) > 0 && err == nil {
			e.checkIVFPrefix(s.path, m, o, rep)
		}
		p.R.Count("files_after_a_kill", 1)
		p.R.Count("blocks_recovered", int64(o.Video+o.Audio))
		p.R.Count("frames_required", int64(o.MustV+o.MustA))
	}
}

// checkIVFPrefix checks the copy which a killed process left
func (e *Env) checkIVFPrefix(path string, m *Plan, o Outcome, rep media.Report) {
	v, err := media.ParseIVF(strings.TrimSuffix(path, ".webm") + ".ivf")
	if err != nil || v.Problem == "no valid header" {
		if o.Video > 0 {
			rep("C18", "there are %d video frames, but no IVF copy (%v)", o.Video, err)
		}
		return
	}
	by := map[string]int{}
	for i, f := range m.Video {
		by[string(f.Data)] = i
	}
	last := -1
	for i, d := range v.Frames {
		n, ok := by[string(d)]
		if !ok || n <= last {
			rep("C18", "frame %d of the IVF copy is none that was sent, or out of order", i)
			return
		}
		last = n
	}
	if len(v.Frames) < o.Video-1 {
		rep("C18", "the IVF copy has %d frames, the recording has %d", len(v.Frames), o.Video)
	}
	e.R.Count("ivf_frames_after_a_kill", int64(len(v.Frames)))
}

// ReleaseSuite runs batches of sessions with all kinds of ends, and checks that
// nothing of them remains
func ReleaseSuite(p Params) {
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); releaseLK(p) }()
	for k, c := range []Conf{{PktTimeout: 60000}, {IVF: true, Builtin: true}, {}} {
		wg.Add(1)
		go func(k int, c Conf) {
			defer wg.Done()
			e := p.env(EnvOpts{Name: fmt.Sprintf("release-%d", k), Conf: c})
			if e == nil {
				return
			}
			defer e.Close()
			// The first ones initialise what stays for good
			never := k == 2
			releaseBatch(p, e, k, 0, 4, false)
			base, ok := e.settled(nil)
			if !ok {
				return
			}
			p.R.Max("goroutines_when_idle", int64(base.goroutines))
			p.R.Max("descriptors_when_idle", int64(base.fds))
			for b := 1; b <= p.N && !e.Dead(); b++ {
				if never && b > 1+p.N/6 {
					break
				}
				n := releaseBatch(p, e, k, b, pick(p.rng(int64(b)), 12, 14), never)
				t0 := time.Now()
				now, ok := e.settled(&base)
				p.R.Max("max_ms_until_released", time.Since(t0).Milliseconds())
				if !ok {
					return
				}
				p.R.Case(fmt.Sprint(k, b), map[string]interface{}{"batch": b, "sessions": n, "goroutines_before": base.goroutines, "after": now.goroutines, "descriptors_before": base.fds, "descriptors_after": now.fds})
				if now.udp > base.udp {
					e.Rep("C08", "after %d sessions ended, %d UDP ports are still open (%d before)", n, now.udp, base.udp)
				}
				if now.fds > base.fds+1 {
					e.Rep("C08", "after %d sessions ended, %d files and sockets are open, %d before: %v", n, now.fds, base.fds, now.list)
				}
				if now.goroutines > base.goroutines+3 {
					e.Rep("C08", "after %d sessions ended, there are %d goroutines, %d before: %s", n, now.goroutines, base.goroutines, e.Proc.Quit())
					return
				}
			}
			e.Status()
			e.CheckGauge("after all batches")
		}(k, c)
	}
	wg.Wait()
}

// releaseLK is the same with a LiveKit server
func releaseLK(p Params) {
	srv, err := NewLKServer(lkKey, lkSecret)
	if err != nil {
		p.R.Unsure("no LiveKit server: %v", err)
		return
	}
	defer srv.Close()
	e := p.env(EnvOpts{Name: "release-livekit", Conf: Conf{PktTimeout: 60000, LiveKitHost: "ws://" + srv.Addr, LiveKitKey: lkKey, LiveKitSecret: lkSecret}})
	if e == nil {
		return
	}
	defer e.Close()
	refused := func(id, mode string) {
		room := &LKRoom{Name: "refusing " + id, Mode: mode, Participants: []LKParticipant{{SID: "PA_x", Identity: "x", Tracks: []LKTrack{{"TR_x", "video"}}}}}
		srv.Add(room)
		s := &Start{ID: id, File: id + ".webm", WantFail: true, LiveKit: true, Tag: "C08", Why: "room with the fault " + mode}
		t := time.Now()
		e.Start(s, lkMessage(p.rng(1), id, s.File, room.Name, []string{"TR_x"}))
		e.Response(s)
		p.R.Max("max_ms_refused_"+mode, time.Since(t).Milliseconds())
	}
	batch := func(b, n int) {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				rng := p.rng(int64(90000 + b*100 + i))
				id := fmt.Sprintf("release-lk-%d-%d", b, i)
				if i%4 == 3 {
					refused(id, pick(rng, "404", "close", "garbage", "leave"))
					return
				}
				m := NewPlan(rng, PlanOpts{Tag: uint32(i + 1), Loss: "none", Dur: 2 * time.Second, LiveKit: true})
				lp := newLKPlan(rng, id, m)
				lp.End = pick(rng, "stop", "stop2", "leave", "leave+stop")
				e.RunLK(rng, srv, lp)
			}(i)
		}
		wg.Wait()
		if b > 0 {
			// Joins, but never connects. Requests wait for that
			refused(fmt.Sprintf("release-lk-%d-nooffer", b), "nooffer")
		}
	}
	batch(0, 4)
	base, ok := e.settled(nil)
	if !ok {
		return
	}
	for b := 1; b <= 1+p.N/3 && !e.Dead(); b++ {
		n := 10
		batch(b, n)
		now, ok := e.settled(&base)
		if !ok {
			return
		}
		p.R.Case(fmt.Sprint("livekit", b), map[string]interface{}{"batch": b, "sessions": n, "goroutines_before": base.goroutines, "after": now.goroutines, "descriptors_before": base.fds, "descriptors_after": now.fds})
		if now.udp > base.udp {
			e.Rep("C08", "after %d LiveKit sessions ended, %d UDP ports are still open (%d before)", n, now.udp, base.udp)
		}
		if now.fds > base.fds+1 {
			e.Rep("C08", "after %d LiveKit sessions ended, %d files and sockets are open, %d before: %v", n, now.fds, base.fds, now.list)
		}
		if now.goroutines > base.goroutines+3 {
			e.Rep("C08", "after %d LiveKit sessions ended, there are %d goroutines, %d before: %s", n, now.goroutines, base.goroutines, e.Proc.Quit())
			return
		}
	}
}

type resources struct {
	goroutines, fds, udp int
	list                 []string
}

func (e *Env) resources() (r resources, err error) {
	m, err := e.Proc.Metrics()
	if err != nil {
		return r, err
	}
	g, ok := m["go_goroutines"]
	if !ok {
		return r, fmt.Errorf("there is no go_goroutines metric")
	}
	r.goroutines = int(g)
	r.list = e.Proc.FDs()
	r.fds = len(r.list)
	r.udp = len(e.Proc.UDPPorts())
	return r, nil
}

// settled waits until nothing changes any more, or what was used before is reached
func (e *Env) settled(base *resources) (resources, bool) {
	deadline := time.Now().Add(14 * time.Second)
	if base == nil {
		deadline = time.Now().Add(2500 * time.Millisecond)
	}
	var last resources
	for !e.Dead() {
		r, err := e.resources()
		if err != nil {
			if e.Dead() {
				break
			}
			e.R.Unsure("%s: %v", e.Name, err)
			return r, false
		}
		if base != nil && r.goroutines <= base.goroutines && r.fds <= base.fds && r.udp <= base.udp {
			return r, true
		}
		if base == nil && last.goroutines > 0 && last.goroutines < r.goroutines {
			r.goroutines = last.goroutines
		}
		last = r
		if time.Now().After(deadline) {
			return r, true
		}
		time.Sleep(150 * time.Millisecond)
	}
	return last, false
}

func releaseBatch(p Params, e *Env, k, b, n int, long bool) int {
	var wg sync.WaitGroup
	spare, err := NewPeer(PeerOpts{Video: true, Audio: true})
	if err != nil {
		p.R.Unsure("no peer: %v", err)
		return 0
	}
	defer spare.Close()
	ends := []string{"stop", "close", "race", "stop2", "early", "nomedia", "unconnected", "refused", "hostile", "mute", "single", "fail", "single"}
	if long {
		// Peers which never connect take their time
		ends = []string{"never"}
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			rng := p.rng(int64(k*100000 + b*1000 + i))
			how := ends[i%len(ends)]
			time.Sleep(time.Duration(rng.Intn(300)) * time.Millisecond)
			id := fmt.Sprintf("r-%d", i)
			sp := SessionPlan{ID: id, File: fmt.Sprintf("b%d/%s.webm", b, id), Form: "options", End: how, Lenient: true}
			md := func() *Plan {
				return NewPlan(rng, PlanOpts{Dur: time.Duration(700+rng.Intn(1500)) * time.Millisecond, Loss: pick(rng, "none", "reorder", "recover"), Tag: uint32(k*1000 + b*100 + i), Builtin: e.Conf.Builtin})
			}
			p.R.Count("release_"+how, 1)
			switch how {
			case "refused":
				bs := badStarts(id, spare.Offer, "", sp.File)
				for j := 0; j < 6 && !e.Dead(); j++ {
					e.refused(rng, bs[rng.Intn(len(bs))], id)
				}
				return
			case "fail":
				// Offers which are refused late
				for j := 0; j < 8 && !e.Dead(); j++ {
					s := &Start{ID: id, File: sp.File, Tracks: 100, Why: "hostile offer"}
					e.Start(s, sp.Message(rng, hostileSDP(rng, spare.Offer)))
					if _, ok := e.Response(s); ok && s.Rec != nil {
						e.Stop(id)
						e.Stopped(s.Rec, Patience, "stop of a session with a hostile offer")
					}
				}
				return
			case "nomedia":
				sp.Offer = PeerOpts{Video: true, Audio: true}
				sp.Connect, sp.End = true, pick(rng, "stop", "close")
			case "unconnected":
				sp.Offer = PeerOpts{Video: true}
				sp.End = "stop"
			case "never":
				sp.Offer = PeerOpts{Video: true}
			case "single":
				sp.Media = NewPlan(rng, PlanOpts{Order: "v", Loss: "none", Frames: 1 + rng.Intn(2), Tag: uint32(k*1000 + b*100 + i), Builtin: e.Conf.Builtin})
				sp.End = pick(rng, "stop", "close")
			case "early":
				sp.Offer = PeerOpts{Video: true, Audio: true}
				sp.Connect = true
			case "hostile":
				sp.Media = md()
				spoil(rng, sp.Media)
				sp.Victim, sp.End = true, "stop"
			default:
				sp.Media = md()
			}
			t0 := time.Now()
			s := e.RunSession(rng, sp)
			p.R.Max("max_ms_"+how, time.Since(t0).Milliseconds())
			if s.OK {
				p.R.Case(fmt.Sprint(k, b, i, how), nil)
			}
		}(i)
	}
	wg.Wait()
	return n
}
