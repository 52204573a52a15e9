package e2e

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Conf is the configuration of a recorder process
type Conf struct {
	Dir           string // of the recordings
	DirAs         string // how it is written in the configuration, if not so
	JitterBuffer  int
	PktTimeout    int
	IVF           bool
	DevNull       bool
	Builtin       bool
	VideoQueue    int
	AudioQueue    int
	FileMode      string
	DirFileMode   string
	Sub, Pub      string
	RedisAddr     string
	RedisPassword string
	HTTPPort      int
	MetricsPort   int
	// They are not enabled in the file
	HTTPOff, MetricsOff bool
	LogLevel            string
	LiveKitHost         string
	LiveKitKey          string
	LiveKitSecret       string
	MinPort             int
	MaxPort             int
	ICE                 string // iceServers, as YAML
	Extra               string // appended
	// Settings which are not in the file
	Omit []string
}

func (c *Conf) defaults() {
	def := func(v *int, d int) {
		if *v == 0 {
			*v = d
		}
	}
	sdef := func(v *string, d string) {
		if *v == "" {
			*v = d
		}
	}
	def(&c.JitterBuffer, 512)
	def(&c.PktTimeout, 200)
	def(&c.VideoQueue, 256)
	def(&c.AudioQueue, 32)
	def(&c.MinPort, 20000)
	def(&c.MaxPort, 60000)
	sdef(&c.FileMode, "0600")
	sdef(&c.DirFileMode, "0700")
	sdef(&c.Sub, "to-rec")
	sdef(&c.Pub, "from-rec")
	sdef(&c.LogLevel, "warn")
	sdef(&c.LiveKitHost, "ws://127.0.0.1:1")
}

func (c *Conf) YAML() string {
	c.defaults()
	dir := c.Dir
	if c.DirAs != "" {
		dir = c.DirAs
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "log:\n  level: %s\n", c.LogLevel)
	fmt.Fprintf(&b, "recorder:\n  directory: %s\n  dirFileMode: %s\n  fileMode: %s\n  writeToDevNull: %v\n  writeIVFCopy: %v\n  videoPacketQueueSize: %d\n  audioPacketQueueSize: %d\n  useCustomSampler: %v\n",
		dir, c.DirFileMode, c.FileMode, c.DevNull, c.IVF, c.VideoQueue, c.AudioQueue, !c.Builtin)
	fmt.Fprintf(&b, "pubsub:\n  channels:\n    subscribe: %q\n    publish: %q\n  adapter: redis\n  adapters:\n    redis:\n      address: %s\n      network: tcp\n", c.Sub, c.Pub, c.RedisAddr)
	if c.RedisPassword != "" {
		fmt.Fprintf(&b, "      password: %q\n", c.RedisPassword)
	}
	fmt.Fprintf(&b, "webrtc:\n  rtcMinPort: %d\n  rtcMaxPort: %d\n  jitterBuffer: %d\n  jitterBufferPktTimeout: %d\n", c.MinPort, c.MaxPort, c.JitterBuffer, c.PktTimeout)
	if c.ICE != "" {
		fmt.Fprintf(&b, "  iceServers: %s\n", c.ICE)
	}
	fmt.Fprintf(&b, "http:\n  enable: %v\n  port: %d\n", c.HTTPPort != 0 && !c.HTTPOff, c.HTTPPort)
	fmt.Fprintf(&b, "prometheus:\n  enable: %v\n  listenAddress: 127.0.0.1:%d\n", c.MetricsPort != 0 && !c.MetricsOff, c.MetricsPort)
	fmt.Fprintf(&b, "livekit:\n  host: %s\n  apiKey: %q\n  apiSecret: %q\n", c.LiveKitHost, c.LiveKitKey, c.LiveKitSecret)
	b.WriteString(c.Extra)
	var out []string
	for _, l := range strings.Split(b.String(), "\n") {
		k, _, _ := strings.Cut(strings.TrimSpace(l), ":")
		if !slices.Contains(c.Omit, k) {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

var (
	portsM   sync.Mutex
	ports    = map[int]bool{}
	portsRng = rand.New(rand.NewSource(time.Now().UnixNano() ^ int64(os.Getpid())<<20))
)

// FreePort is a TCP port nobody listens on. It is none which the system or WebRTC
// may give to somebody else meanwhile
func FreePort() int {
	portsM.Lock()
	defer portsM.Unlock()
	for {
		port := 10000 + portsRng.Intn(14000)
		if ports[port] {
			continue
		}
		ports[port] = true
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
		if err != nil {
			continue
		}
		l.Close()
		return port
	}
}

// Proc is a recorder process
type Proc struct {
	Cmd     *exec.Cmd
	Conf    Conf
	Path    string // of the configuration
	LogPath string
	done    chan struct{}
	waitErr error
	m       sync.Mutex
	wanted  bool // we ended it
}

// StartProc starts a recorder
func StartProc(bin, work string, conf Conf, env ...string) (*Proc, error) {
	if err := os.MkdirAll(work, 0755); err != nil {
		return nil, err
	}
	p := &Proc{Conf: conf, Path: filepath.Join(work, "recorder.yml"), LogPath: filepath.Join(work, "recorder.log"), done: make(chan struct{})}
	if err := os.WriteFile(p.Path, []byte(p.Conf.YAML()), 0644); err != nil {
		return nil, err
	}
	return p, p.launch(bin, work, env)
}

func (p *Proc) launch(bin, work string, env []string) error {
	lf, err := os.OpenFile(p.LogPath, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		return err
	}
	defer lf.Close()
	p.Cmd = exec.Command(bin, "-c", p.Path)
	p.Cmd.Dir = work
	p.Cmd.Stdout, p.Cmd.Stderr = lf, lf
	p.Cmd.Env = append(CleanEnv(), "GOTRACEBACK=all")
	p.Cmd.Env = append(p.Cmd.Env, env...)
	if err := p.Cmd.Start(); err != nil {
		return err
	}
	go func() {
		p.waitErr = p.Cmd.Wait()
		close(p.done)
	}()
	return nil
}

// CleanEnv is the environment without settings of the recorder
func CleanEnv() []string {
	var e []string
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "BBBRECORDER_") {
			e = append(e, v)
		}
	}
	return e
}

func (p *Proc) Alive() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

// Crashed describes how the process ended by itself
func (p *Proc) Crashed() (string, bool) {
	if p.Alive() {
		return "", false
	}
	p.m.Lock()
	defer p.m.Unlock()
	if p.wanted {
		return "", false
	}
	return fmt.Sprintf("%v: %s", p.waitErr, p.logTail()), true
}

func (p *Proc) logTail() string {
	b, _ := os.ReadFile(p.LogPath)
	s := string(b)
	for _, m := range []string{"panic: ", "fatal error: ", "SIGSEGV"} {
		if i := strings.Index(s, m); i >= 0 {
			s = s[i:]
			if len(s) > 2500 {
				s = s[:2500]
			}
			return s
		}
	}
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

func (p *Proc) Log() string { b, _ := os.ReadFile(p.LogPath); return string(b) }

// StopBy ends the process with the signal
func (p *Proc) StopBy(s syscall.Signal) {
	p.m.Lock()
	p.wanted = true
	p.m.Unlock()
	p.Cmd.Process.Signal(s)
	select {
	case <-p.done:
	case <-time.After(10 * time.Second):
		p.Stop()
	}
}

// Stop ends the process, which is not a crash then
func (p *Proc) Stop() {
	p.m.Lock()
	p.wanted = true
	p.m.Unlock()
	if p.Alive() {
		p.Cmd.Process.Kill()
	}
	<-p.done
}

// Quit makes the process print its goroutines and end
func (p *Proc) Quit() string {
	p.m.Lock()
	p.wanted = true
	p.m.Unlock()
	before := len(p.Log())
	p.Cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-p.done:
	case <-time.After(5 * time.Second):
		p.Cmd.Process.Kill()
		<-p.done
	}
	s := p.Log()
	if len(s) > before {
		s = s[before:]
	}
	return goroutines(s)
}

// goroutines are those of a dump which are in the code of the recorder
func goroutines(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "bbb-webrtc-recorder/internal") && !strings.Contains(g, "app.sigintHandler") && !strings.Contains(g, "app.sighupHandler") {
			lines := strings.Split(g, "\n")
			if len(lines) > 14 {
				lines = lines[:14]
			}
			out = append(out, strings.Join(lines, "\n"))
		}
	}
	r := strings.Join(out, "\n\n")
	if len(r) > 6000 {
		r = r[:6000]
	}
	return r
}

func (p *Proc) Signal(s syscall.Signal) { p.Cmd.Process.Signal(s) }

// Metrics reads the exported metrics
func (p *Proc) Metrics() (map[string]float64, error) {
	c := http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	r, err := c.Get(fmt.Sprintf("http://127.0.0.1:%d/metrics", p.Conf.MetricsPort))
	if err != nil {
		return nil, err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return nil, err
	}
	m := map[string]float64{}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "#") {
			continue
		}
		if k, v, ok := strings.Cut(l, " "); ok {
			if f, err := strconv.ParseFloat(v, 64); err == nil {
				m[k] = f
			}
		}
	}
	return m, nil
}

// FDs lists the open files and sockets
func (p *Proc) FDs() []string {
	dir := fmt.Sprintf("/proc/%d/fd", p.Cmd.Process.Pid)
	es, _ := os.ReadDir(dir)
	var out []string
	for _, e := range es {
		if l, err := os.Readlink(filepath.Join(dir, e.Name())); err == nil {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	return out
}

// UDPPorts lists the UDP sockets of the process
func (p *Proc) UDPPorts() []string {
	inodes := map[string]bool{}
	for _, f := range p.FDs() {
		if strings.HasPrefix(f, "socket:[") {
			inodes[strings.TrimSuffix(strings.TrimPrefix(f, "socket:["), "]")] = true
		}
	}
	var out []string
	for _, n := range []string{"udp", "udp6"} {
		b, _ := os.ReadFile("/proc/net/" + n)
		for i, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if i == 0 || len(f) < 10 {
				continue
			}
			if inodes[f[9]] {
				out = append(out, n+" "+f[1])
			}
		}
	}
	return out
}

// UDPDrops is how many datagrams were dropped because a socket's buffer was full
func UDPDrops() int64 {
	b, _ := os.ReadFile("/proc/net/snmp")
	var head []string
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 0 || f[0] != "Udp:" {
			continue
		}
		if head == nil {
			head = f
			continue
		}
		for i, h := range head {
			if h == "RcvbufErrors" && i < len(f) {
				n, _ := strconv.ParseInt(f[i], 10, 64)
				return n
			}
		}
	}
	return 0
}
