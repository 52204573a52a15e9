package e2e

import (
	"bytes"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"verif/result"
)

// Params of a suite
type Params struct {
	R       *result.R
	Prop    string
	Bin     string
	Scratch string
	Seed    int64
	// How many sessions (or rounds, ...)
	N int
	// Deeper
	Thorough bool
	// The recorder was built with the race detector
	Race bool
}

func (p Params) rng(n int64) *rand.Rand {
	h := int64(0)
	for _, c := range p.Prop {
		h = h*131 + int64(c)
	}
	return rand.New(rand.NewSource(p.Seed*1000003 + h*7919 + n))
}

func (p Params) env(o EnvOpts) *Env {
	if p.Race {
		o.Race = true
		o.Conf.LogLevel = "trace"
	}
	e, err := NewEnv(p.R, p.Prop, p.Bin, p.Scratch, p.Seed, o)
	if err != nil {
		if !p.R.Violated() {
			p.R.Unsure("%s: %v", o.Name, err)
		}
		return nil
	}
	return e
}

// mediaEnv is one kind of configuration for media sessions
type mediaEnv struct {
	name   string
	conf   Conf
	orders []string
	losses []string
	weight int
}

// strict: nothing times out but what was given up on, so that what is recorded
// is determined by what was lost for good
var strictEnv = mediaEnv{name: "strict", conf: Conf{PktTimeout: 60000}, losses: []string{"none", "recover", "perm", "reorder", "mixed"}}
var defaultEnv = mediaEnv{name: "default", conf: Conf{}, losses: []string{"none", "perm", "reorder"}}
var builtinEnv = mediaEnv{name: "builtin", conf: Conf{PktTimeout: 60000, Builtin: true}, losses: []string{"none", "recover", "reorder"}}
var ivfEnv = mediaEnv{name: "ivf", conf: Conf{PktTimeout: 60000, IVF: true}, losses: []string{"none", "recover", "perm", "reorder"}}

// Media runs media sessions, many at a time, and checks what they leave
func Media(p Params, envs []mediaEnv, tweak func(rng *rand.Rand, i int, o *PlanOpts, sp *SessionPlan)) {
	var wg sync.WaitGroup
	drops := UDPDrops()
	for k, me := range envs {
		n := p.N / len(envs)
		if k < p.N%len(envs) {
			n++
		}
		wg.Add(1)
		go func(k int, me mediaEnv, n int) {
			defer wg.Done()
			e := p.env(EnvOpts{Name: me.name, Conf: me.conf})
			if e == nil {
				return
			}
			defer e.Close()
			e.CheckGauge("before any session")
			// In rounds, so that not too many are active
			for from := 0; from < n; from += 20 {
				var sw sync.WaitGroup
				for i := from; i < n && i < from+20; i++ {
					sw.Add(1)
					go func(i int) {
						defer sw.Done()
						rng := p.rng(int64(k*10000 + i))
						time.Sleep(time.Duration(rng.Intn(1500)) * time.Millisecond)
						o := PlanOpts{Loss: pick(rng, me.losses...), Tag: uint32(i + 1), Builtin: me.conf.Builtin, Patient: me.conf.PktTimeout > 1000 && !me.conf.Builtin}
						sp := SessionPlan{ID: fmt.Sprintf("s-%d-%d", k, i), File: fmt.Sprintf("f%d.webm", i),
							Form: pick(rng, "legacy", "options", "both"), Adapter: pick(rng, "", "mediasoup"),
							End: pick(rng, "stop", "stop", "close", "stop2")}
						if rng.Intn(4) == 0 {
							sp.File = fmt.Sprintf("d%d/x/f%d.webm", rng.Intn(3), i)
						}
						if len(me.orders) > 0 {
							o.Order = pick(rng, me.orders...)
						}
						if tweak != nil {
							tweak(rng, i, &o, &sp)
						}
						if o.Order == "" {
							o.Order = pick(rng, "v", "v", "a", "av", "va")
						}
						if o.Order == "va" && o.Dur == 0 {
							o.Dur = 6 * time.Second
						}
						if sp.Media == nil {
							sp.Media = NewPlan(rng, o)
						}
						s := e.RunSession(rng, sp)
						sig := ""
						if s.OK {
							sig = sp.String()
						}
						p.R.Case(sig, map[string]interface{}{"session": sp.String(), "recorded_video": s.Out.Video, "recorded_audio": s.Out.Audio})
					}(i)
				}
				sw.Wait()
				if e.Dead() {
					return
				}
			}
			e.Status()
			e.CheckGauge("after all sessions")
		}(k, me, n)
	}
	wg.Wait()
	p.R.Count("datagrams_dropped_by_the_kernel", UDPDrops()-drops)
}

// MediaSuite is the end-to-end part of a media property's check
func MediaSuite(p Params) {
	envs := []mediaEnv{strictEnv, defaultEnv}
	switch p.Prop {
	case "C13", "C12", "C15", "C17":
		envs = []mediaEnv{strictEnv, defaultEnv, builtinEnv}
	case "C19":
		envs = []mediaEnv{ivfEnv}
	case "C10", "C11":
		envs = []mediaEnv{strictEnv}
	case "ALL":
		envs = []mediaEnv{strictEnv, defaultEnv, builtinEnv, ivfEnv}
	}
	Media(p, envs, func(rng *rand.Rand, i int, o *PlanOpts, sp *SessionPlan) {
		switch p.Prop {
		case "C13":
			if o.Loss == "perm" || o.Loss == "mixed" {
				o.Loss = "reorder"
			}
			o.Big = rng.Intn(4) == 0
			if o.Big && !o.Builtin && rng.Intn(2) == 0 {
				o.Loss, o.Order = "reorder", pick(rng, "v", "av")
			}
		case "C12", "C14":
			if !o.Builtin && rng.Intn(3) > 0 {
				o.Loss = "perm"
			}
			o.Order = pick(rng, "v", "v", "av")
			o.KeyGap = pick(rng, time.Second, 2*time.Second)
			o.Dur = 5 * time.Second
			o.Delta = p.Prop == "C14" && rng.Intn(3) == 0 && o.Order == "v"
		case "C16":
			o.Order = pick(rng, "av", "va")
		case "C11":
			o.Loss = pick(rng, "recover", "recover", "mixed", "reorder", "perm")
			o.Order = pick(rng, "v", "v", "a", "av")
		case "C10":
			o.Loss = pick(rng, "reorder", "reorder", "recover", "mixed")
			o.Order = pick(rng, "v", "a", "av")
			o.Behind = i%4 == 0
			if o.Big = i%5 == 1; o.Big {
				o.Loss, o.Order = "reorder", pick(rng, "v", "av")
			}
		case "C19":
			o.Order = pick(rng, "v", "av", "va", "v", "av", "va", "a")
		case "C21", "ALL":
			sp.Flow = true
			if o.Loss != "perm" && o.Loss != "mixed" && i%3 < 2 {
				o.Pause, o.PauseTS = time.Duration(2800+rng.Intn(2500))*time.Millisecond, rng.Intn(2) == 0
				o.Order = pick(rng, "v", "a", "av", "va")
				if i%3 == 1 {
					o.Order, o.PauseOf = pick(rng, "av", "va"), pick(rng, "v", "a")
				}
				o.Dur = 6 * time.Second
			}
			if i%4 == 0 {
				sp.Linger = 5 * time.Second
			}
			if i%5 == 2 {
				// A slide show, or nobody moves
				o.Order, o.Loss, o.FPS, o.KeyGap, o.Dur = pick(rng, "v", "v", "av"), "none", pick(rng, 2, 3, 4, 5), 2*time.Second, 6*time.Second
			}
		}
	})
}

// StatusSuite stops sessions while changes of their status are published, with
// a Redis server that takes its time for them
func StatusSuite(p Params) {
	e := p.env(EnvOpts{Name: "status", Conf: Conf{PktTimeout: 60000}})
	if e == nil {
		return
	}
	defer e.Close()
	var n atomic.Int64
	e.Redis.SetDelay(func(ch string, data []byte) time.Duration {
		r := rand.New(rand.NewSource(p.Seed + n.Add(1)))
		if bytes.Contains(data, []byte("recordingRtpStatusChanged")) {
			return time.Duration(100+r.Intn(500)) * time.Millisecond
		}
		return 0
	})
	for from := 0; from < p.N; from += 20 {
		var wg sync.WaitGroup
		for i := from; i < p.N && i < from+20; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				rng := p.rng(int64(70000 + i))
				time.Sleep(time.Duration(rng.Intn(1500)) * time.Millisecond)
				sp := SessionPlan{ID: fmt.Sprintf("st-%d", i), File: fmt.Sprintf("st%d.webm", i), Form: "options", End: pick(rng, "stop", "stop", "close", "stop2")}
				sp.Media = NewPlan(rng, PlanOpts{Loss: "none", Order: pick(rng, "a", "v", "av"), Dur: time.Duration(50+rng.Intn(900)) * time.Millisecond, Tag: uint32(i + 1)})
				if i%2 == 0 {
					// The end of its flow is noticed about then
					sp.Linger = time.Duration(300+rng.Intn(2000)) * time.Millisecond
				}
				s := e.RunSession(rng, sp)
				if s.OK {
					p.R.Case("status "+sp.String(), nil)
					if evs := e.Mon.Events(s.Start.Rec); len(evs) > 0 && s.StopAt.Sub(evs[len(evs)-1].At) < 0 {
						p.R.Count("stops_while_a_status_is_published", 1)
					}
				}
			}(i)
		}
		wg.Wait()
	}
}

// RaceSuite does everything at once with a recorder that was built with the
// race detector
func RaceSuite(p Params) {
	p.Race = true
	n := p.N
	var wg sync.WaitGroup
	for _, f := range []func(p Params){
		func(p Params) { p.N = n; ControlSuite(p) },
		func(p Params) {
			p.N = 15 * n
			Media(p, []mediaEnv{strictEnv, defaultEnv, ivfEnv}, func(rng *rand.Rand, i int, o *PlanOpts, sp *SessionPlan) {
				sp.Flow = true
				sp.End = pick(rng, "stop", "stop2", "close", "race")
				if i%2 == 0 {
					o.Order = pick(rng, "av", "va")
				}
				if i%3 > 0 {
					o.Loss = pick(rng, "recover", "mixed", "perm", "reorder")
				}
			})
		},
		func(p Params) { p.N = n; HTTPSuite(p) },
		func(p Params) { p.N = n; RedisSuite(p) },
		reloadSuite,
		manySuite,
		func(p Params) {
			p.N = 8 * n
			LiveKitSuite(p)
		},
	} {
		wg.Add(1)
		go func() { defer wg.Done(); f(p) }()
	}
	wg.Wait()
}
