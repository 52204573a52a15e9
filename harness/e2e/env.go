package e2e

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/result"
)

// Patience is how long the recorder may take to react before it counts as hanging
const Patience = 25 * time.Second

// Env is a recorder process with its redis and the monitor of what it publishes
type Env struct {
	R        *result.R
	Prop     string
	Name     string
	Redis    *Redis
	Proc     *Proc
	Conf     Conf
	Work     string
	Rec      string // directory of the recordings
	Bin      string
	Mon      *Monitor
	Extra    []string // environment
	Seed     int64
	m        sync.Mutex
	hung     bool
	deferred []func()
	raceLog  string
	// Keeps the order of requests that of the expectations
	sendM sync.Mutex
	// How long the publication of the response to an id takes
	slow sync.Map
}

// Rep reports a violation
func (e *Env) Rep(props string, format string, a ...interface{}) {
	e.R.Violate(props, map[string]interface{}{"harness": "e2e", "env": e.Name, "seed": e.Seed}, "%s: %s", e.Name, fmt.Sprintf(format, a...))
}

// RepCase reports a violation in a case
func (e *Env) RepCase(props string, c interface{}, format string, a ...interface{}) {
	e.R.Violate(props, map[string]interface{}{"harness": "e2e", "env": e.Name, "seed": e.Seed, "case": c}, "%s: %s", e.Name, fmt.Sprintf(format, a...))
}

type EnvOpts struct {
	Name     string
	Conf     Conf
	Password string
	Env      []string
	// Do not wait for the status
	NoWait bool
	// It is built with the race detector
	Race bool
}

// NewEnv starts a recorder
func NewEnv(r *result.R, prop, bin, scratch string, seed int64, o EnvOpts) (*Env, error) {
	work, err := os.MkdirTemp(scratch, "e2e-"+o.Name+"-")
	if err != nil {
		return nil, err
	}
	e := &Env{R: r, Prop: prop, Name: o.Name, Work: work, Bin: bin, Rec: filepath.Join(work, "recordings"), Seed: seed, Conf: o.Conf, Extra: o.Env}
	if err := os.MkdirAll(e.Rec, 0755); err != nil {
		return nil, err
	}
	if e.Redis, err = NewRedis(o.Password); err != nil {
		return nil, err
	}
	if e.Conf.Dir == "" {
		e.Conf.Dir = e.Rec
	}
	e.Conf.RedisAddr = e.Redis.Addr
	e.Conf.RedisPassword = o.Password
	if e.Conf.MetricsPort == 0 {
		e.Conf.MetricsPort = FreePort()
	}
	e.Conf.defaults()
	e.Mon = NewMonitor(e)
	e.Redis.Hook(e.Mon.observe)
	if o.Race {
		e.raceLog = filepath.Join(work, "race")
		e.Extra = append(e.Extra, "GORACE=halt_on_error=0 exitcode=0 history_size=4 log_path="+e.raceLog)
	}
	if err := e.launch(!o.NoWait); err != nil {
		e.Close()
		return nil, err
	}
	if o.Race {
		// Whatever else it does
		go func() {
			for {
				select {
				case <-e.Proc.done:
					return
				case <-time.After(170 * time.Millisecond):
					e.Hup()
					e.Proc.Metrics()
				}
			}
		}()
	}
	return e, nil
}

func (e *Env) launch(wait bool) error {
	from := e.Redis.Len()
	e.Mon.expectStatus()
	var err error
	if e.Proc, err = StartProc(e.Bin, e.Work, e.Conf, e.Extra...); err != nil {
		return err
	}
	if !wait {
		return nil
	}
	if _, ok := e.Redis.Wait(from, Patience, func(p Pub) bool { return p.Channel == e.Conf.Pub && p.ID() == "recorderStatus" }); !ok {
		if s, c := e.Proc.Crashed(); c {
			e.Rep(e.Prop, "the recorder ended right after it was started: %s", s)
		} else {
			e.Rep(e.Prop+",C05", "the recorder published no status within %v of its start: %s", Patience, e.Proc.Quit())
		}
		return fmt.Errorf("the recorder did not start")
	}
	return nil
}

// Restart starts the recorder again after it was stopped
func (e *Env) Restart() error { return e.launch(true) }

func (e *Env) Close() {
	e.Settle()
	if e.Proc != nil {
		if s, c := e.Proc.Crashed(); c && !e.isHung() {
			e.Rep(e.Prop+",C07,C04", "the recorder crashed: %s", s)
		}
		e.Proc.Stop()
	}
	e.Redis.Close()
	e.reportRaces()
	if os.Getenv("VH_KEEP") == "" {
		os.RemoveAll(e.Work)
	}
}

// reportRaces reports what the race detector wrote, each pair of places once
func (e *Env) reportRaces() {
	if e.raceLog == "" {
		return
	}
	files, _ := filepath.Glob(e.raceLog + ".*")
	e.R.Count("processes_under_the_race_detector", 1)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, w := range strings.Split(string(b), "==================") {
			i := strings.Index(w, "WARNING: DATA RACE")
			if i < 0 {
				continue
			}
			if len(w) > 5000 {
				w = w[:5000]
			}
			e.R.ViolateOnce("C24", map[string]interface{}{"harness": "e2e", "env": e.Name, "seed": e.Seed, "report": w}, "data race: "+racePlaces(w))
		}
	}
}

// racePlaces names the functions at the top of the two stacks
func racePlaces(w string) string {
	var out []string
	lines := strings.Split(w, "\n")
	for i, l := range lines {
		t := strings.TrimSpace(l)
		for _, k := range []string{"Read at", "Write at", "Previous read at", "Previous write at", "Atomic", "Previous atomic"} {
			if strings.HasPrefix(t, k) && i+2 < len(lines) {
				fn := strings.TrimSpace(lines[i+1])
				// The first function of the recorder on the stack says more
				for j := i + 1; j < len(lines) && strings.TrimSpace(lines[j]) != ""; j += 2 {
					if strings.Contains(lines[j], "bigbluebutton") {
						fn = strings.TrimSpace(lines[j])
						if j+1 < len(lines) {
							at := strings.Fields(strings.TrimSpace(lines[j+1]))
							if len(at) > 0 {
								fn += " (" + filepath.Base(at[0]) + ")"
							}
						}
						break
					}
				}
				out = append(out, strings.ToLower(strings.SplitN(k, " at", 2)[0])+" in "+fn)
			}
		}
	}
	return strings.Join(out, ", ")
}

func (e *Env) isHung() bool { e.m.Lock(); defer e.m.Unlock(); return e.hung }

// Dead tells whether the recorder does not work any more. Going on is pointless.
func (e *Env) Dead() bool { return e.isHung() || !e.Proc.Alive() }

// Hang reports that the recorder does not react
func (e *Env) Hang(props, what string) {
	e.m.Lock()
	already := e.hung
	e.hung = true
	e.m.Unlock()
	if already {
		return
	}
	if s, c := e.Proc.Crashed(); c {
		e.Rep(props+","+e.Prop+",C07,C04", "the recorder crashed (%s): %s", what, s)
		return
	}
	e.Rep(props+","+e.Prop, "the recorder does not react: %s: %s", what, e.Proc.Quit())
}

// Inject publishes to the control channel
func (e *Env) Inject(v interface{}) {
	var b []byte
	switch v := v.(type) {
	case []byte:
		b = v
	case string:
		b = []byte(v)
	default:
		b, _ = json.Marshal(v)
	}
	e.Redis.Inject(e.Conf.Sub, b)
}

// Style is how a message is written
type Style struct{ rng *rand.Rand }

// JSON5 writes an object in one of the ways JSON5 allows
func JSON5(rng *rand.Rand, o map[string]interface{}, order []string) string {
	if rng == nil || rng.Intn(2) == 0 {
		b, _ := json.Marshal(o)
		return string(b)
	}
	var sb strings.Builder
	sb.WriteString("{")
	first := true
	for _, k := range order {
		v, ok := o[k]
		if !ok {
			continue
		}
		if !first {
			sb.WriteString(",")
		}
		first = false
		if rng.Intn(4) == 0 {
			sb.WriteString("\n  // a comment\n")
		}
		switch rng.Intn(3) {
		case 0:
			fmt.Fprintf(&sb, "%s: ", k)
		case 1:
			fmt.Fprintf(&sb, "'%s':", k)
		default:
			fmt.Fprintf(&sb, "%q :", k)
		}
		if s, ok := v.(string); ok && rng.Intn(2) == 0 && !strings.ContainsAny(s, "'\\\n") {
			sb.WriteString("'" + s + "'")
		} else {
			b, _ := json.Marshal(v)
			sb.Write(b)
		}
	}
	if rng.Intn(3) == 0 {
		sb.WriteString(",")
	}
	sb.WriteString("}")
	return sb.String()
}

// Status asks for the status, which tells that everything before was handled
func (e *Env) Status() bool {
	_, ok := e.StatusAt()
	return ok
}

func (e *Env) StatusAt() (Pub, bool) {
	if e.Dead() {
		return Pub{}, false
	}
	e.sendM.Lock()
	ch := e.Mon.expectStatusCh()
	e.Inject(map[string]interface{}{"id": "getRecorderStatus"})
	e.sendM.Unlock()
	select {
	case p := <-ch:
		return p, true
	case <-e.Proc.done:
		e.Hang("C05", "it ended")
	case <-time.After(Patience):
		e.Hang("C05", "no status within "+Patience.String())
	}
	return Pub{}, false
}

// Sessions reads the gauge
func (e *Env) Sessions() (float64, error) {
	m, err := e.Proc.Metrics()
	if err != nil {
		return 0, err
	}
	v, ok := m["recorder_sessions"]
	if !ok {
		return 0, fmt.Errorf("there is no recorder_sessions metric")
	}
	return v, nil
}

// CheckGauge compares the gauge with the number of active recordings
func (e *Env) CheckGauge(when string) {
	if e.Dead() {
		return
	}
	var v float64
	var err error
	want := e.Mon.Active()
	deadline := time.Now().Add(5 * time.Second)
	for {
		v, err = e.Sessions()
		if err == nil && int(v) == want {
			e.R.Count("gauge_reads", 1)
			return
		}
		if time.Now().After(deadline) {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if err != nil {
		if !e.Dead() {
			e.Rep("C06", "%s: the gauge cannot be read: %v", when, err)
		}
		return
	}
	e.Rep("C06", "%s: the gauge is %v, %d recordings are active (%s)", when, v, want, e.Mon.ActiveIDs())
}

func (e *Env) Hup() { e.Proc.Signal(syscall.SIGHUP) }

// later runs a check when the environment is closed
func (e *Env) later(f func()) {
	e.m.Lock()
	defer e.m.Unlock()
	e.deferred = append(e.deferred, f)
}

// Settle runs what was left for later
func (e *Env) Settle() {
	e.m.Lock()
	fs := e.deferred
	e.deferred = nil
	e.m.Unlock()
	for _, f := range fs {
		f()
	}
}
