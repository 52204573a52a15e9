package main

import (
	"os"
	"strings"
	"sync"

	"verif/e2e"
)

const (
	ruleMedia   = "Two kinds of cases. (1) A generated packet history (frames of any size and packetisation, with or without picture ids, wrap-arounds, loss, reordering, duplicates, late packets, malformed payloads, stops, write failures) which is fed to the real recorder and its jitter buffers in virtual time. (2) A whole session of the real process with a real WebRTC peer and a stand-in Redis: order of tracks, losses which are or are not recovered, reordering, pauses, and the way it ends are random. A case is non-trivial if its recording was checked against the frames sent; distinct by its plan."
	ruleControl = "A case is a history of requests, stops and transport losses for one or several session ids, which run concurrently: valid and invalid starts, duplicates while one is active, starting or ending, repeated and late stops, pipelined requests, losses racing with stops. Non-trivial: at least one response or event of it was checked. Distinct by the kind of history and its session."
	ruleStream  = "A case is a stream of sequence numbers or packets (media with reordering, loss, duplicates, late packets and jumps; random walks with steps of up to half a cycle; values around the borders). Non-trivial: it wraps around or has late packets."
)

var (
	asMedia = []string{
		"Frames are VP8 and Opus as browsers and LiveKit send them; video frames have at least 10 bytes.",
		"At most 127 consecutive frames are lost where picture ids have 7 bits, as more cannot be told from fewer.",
		"Sessions run over the loopback interface (hook of the build tag verif), peers are pion with ICE, DTLS and SRTP as usual.",
		"Times at which packets arrive are taken by the sender; tolerances of 100 to 400 ms cover scheduling.",
	}
	asControl = []string{
		"Redis is a stand-in that speaks RESP over TCP and records all publications in order; it can delay, drop and refuse connections.",
		"A response or event which does not come within 25 s (75 s for a peer that never connects) counts as missing.",
	}
	asStream = []string{"The exported types of internal/webrtc/utils keep their interface."}
)

var specs = map[string]spec{
	"C01": {rule: ruleControl, assumptions: asControl, e2e: true, run: (*check).control},
	"C02": {rule: ruleControl, assumptions: asControl, e2e: true, run: (*check).control},
	"C03": {rule: ruleMedia, assumptions: append(asMedia, asControl...), e2e: true, run: mediaCheck},
	"C04": {rule: "A case is a message on the control channel: not JSON5, wrong types, missing, null or extra fields, deep nesting, binary data, up to 1 MB, hostile SDP offers, mutations of valid requests. Sessions with media run meanwhile. Non-trivial: the recorder's reaction to it was observed before and after marker requests. Distinct by contents.",
		assumptions: asControl, e2e: true, run: func(c *check) { e2e.HostileSuite(c.params(c.scale(2, 30), false)) }},
	"C05": {rule: ruleControl + " The connection to Redis is also lost and comes back, and status requests are made in all states.", assumptions: asControl, e2e: true, run: func(c *check) {
		p := c.params(c.scale(2, 40), false)
		both(func() { e2e.ControlSuite(p) }, func() { p := p; p.N = c.scale(1, 15); e2e.RedisSuite(p) }, c.livekit)
	}},
	"C06": {rule: ruleControl + " The gauge is read whenever nothing is going on.", assumptions: asControl, e2e: true, run: (*check).control},
	"C07": {rule: ruleMedia + " Some sessions fail: file size limits, removed or read-only directories, broken payloads, dead transports; the others must be complete.", assumptions: asMedia, e2e: true, run: func(c *check) {
		c.componentShards("vrec", c.scale(100, 4000), 4)
		e2e.FaultSuite(c.params(c.scale(1, 20), false))
	}},
	"C08": {rule: "A case is a batch of sessions that end in all ways there are (stop with and without media, transport close, muted and never connecting peers, refused starts, LiveKit sessions). Goroutines, file descriptors and UDP ports are compared with those before. Non-trivial: all sessions of it had ended; distinct by configuration and batch.",
		assumptions: []string{"The first batch of a process initialises what stays for good; up to 3 goroutines and one descriptor more count as noise."},
		e2e:         true, run: func(c *check) { e2e.ReleaseSuite(c.params(c.scale(2, 20), false)) }},
	"C09": {rule: ruleStream, assumptions: asStream, run: func(c *check) { c.component("vutils", c.scale(600, 40000)) }},
	"C10": {rule: ruleStream + " Packets go through the jitter buffers with virtual time in between. " + ruleMedia, assumptions: append(asStream, asMedia...), e2e: true, run: func(c *check) {
		c.component("vutils", c.scale(600, 30000))
		c.media()
	}},
	"C11": {rule: ruleStream + " The trackers of missing packets and the NACK messages made of their lists are compared with a model. " + ruleMedia, assumptions: append(asStream, asMedia...), e2e: true, run: func(c *check) {
		c.component("vutils", c.scale(600, 20000))
		p := c.params(1, false)
		both(c.media, func() {
			if os.Getenv("VH_CASE") == "" {
				e2e.CycleSession(p)
			}
		})
	}},
	"C12": {rule: ruleMedia, assumptions: asMedia, e2e: true, run: mediaCheck},
	"C13": {rule: ruleMedia, assumptions: asMedia, e2e: true, run: mediaCheck},
	"C14": {rule: ruleMedia, assumptions: asMedia, e2e: true, run: mediaCheck},
	"C15": {rule: ruleMedia, assumptions: asMedia, e2e: true, run: mediaCheck},
	"C16": {rule: ruleMedia, assumptions: asMedia, e2e: true, run: mediaCheck},
	"C17": {rule: ruleMedia, assumptions: asMedia, e2e: true, run: mediaCheck},
	"C18": {rule: "A case is a session whose recorder is killed (SIGKILL) at a random moment, while its media flows. Non-trivial: its file was parsed and compared with the frames sent until then; distinct by process and session.",
		assumptions: append(asMedia, "A crash is one of the process: the operating system's buffers survive it."), e2e: true, run: func(c *check) { e2e.CrashSuite(c.params(c.scale(3, 40), false)) }},
	"C19": {rule: ruleMedia, assumptions: asMedia, e2e: true, run: mediaCheck},
	"C20": {rule: ruleMedia + " File names of all kinds, existing files and directories, links, modes and umasks are tried with the real functions that create recordings.", assumptions: asMedia, e2e: true, run: mediaCheck},
	"C21": {rule: ruleMedia, assumptions: asMedia, e2e: true, run: func(c *check) { c.media() }},
	"C22": {rule: "A case is a random configuration: each setting is in the environment, the file, both or neither, and --dump is asked for it; or a reload (SIGHUP) of a changed, broken or missing file while sessions are recorded and started. Non-trivial: at least one effective value was compared; distinct by settings.",
		assumptions: []string{"Effective values are those of --dump, of the files of recordings (directory, modes) and of the channels used."},
		e2e:         true, run: func(c *check) { e2e.ConfigSuite(c.params(c.scale(150, 3000), false)) }},
	"C23": {rule: "A case is an HTTP exchange: offers posted alone or many at a time by real peers, refused offers, clients that go away, wrong methods and bodies, foreign and malformed messages on the channel meanwhile, downloads of recordings, paths that leave the directory. Non-trivial: its answer was checked; distinct by kind and number.",
		assumptions: asControl, e2e: true, run: func(c *check) { e2e.HTTPSuite(c.params(c.scale(2, 40), false)) }},
	"C24": {rule: "The workloads of the control, media, LiveKit, HTTP, Redis and reload suites run against the recorder built with the Go race detector. A case is one of their cases. Non-trivial and distinct as there.",
		assumptions: []string{"The race detector reports only races between accesses which were executed, without a happens-before edge in that execution."},
		e2e:         true, run: func(c *check) { e2e.RaceSuite(c.params(c.scale(1, 12), true)) }},
	"C25": {rule: ruleStream, assumptions: asStream, run: func(c *check) { c.component("vutils", c.scale(300, 8000)) }},
	"C26": {rule: "A case is a session in a LiveKit room with random participants and tracks, some of which are asked for: the server is a stand-in (websocket signalling, TURN, a real WebRTC peer that sends the media). Losses, pauses and endings are random; or the server refuses in some way. Non-trivial: the recording, or the refusal, was checked; distinct by plan.",
		assumptions: append(asMedia, "Video without picture ids is not sent with padding: LiveKit always sends picture ids.", "Tracks exist when the recorder joins."), e2e: true, run: func(c *check) { e2e.LiveKitSuite(c.params(c.scale(24, 300), false)) }},
	"C27": {rule: "A case is a burst of requests, or a loss of the connection to Redis (closed, refused, silent, with or without a password) with recordings in progress. Non-trivial: responses and events around it were counted; distinct by kind and number.",
		assumptions: asControl, e2e: true, run: func(c *check) { e2e.RedisSuite(c.params(c.scale(2, 30), false)) }},
}

// For development: some workloads, and the monitors of all properties
func init() {
	specs["ALL"] = spec{e2e: true, run: func(c *check) {
		p := c.params(1, false)
		n := func(n int) e2e.Params { p := p; p.N = n; return p }
		suites := map[string]func(){
			"utils": func() {
				for _, x := range []string{"C09", "C10", "C11", "C25"} {
					c.component("vutils", 300, "VH_PROP="+x)
				}
			},
			"rec": func() {
				for _, x := range []string{"C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20", "C07"} {
					c.componentShards("vrec", 40, 4, "VH_PROP="+x)
				}
			},
			"control": func() { e2e.ControlSuite(n(1)) },
			"media":   func() { e2e.MediaSuite(n(30)) },
			"cycle":   func() { e2e.CycleSession(n(1)) },
			"hostile": func() { e2e.HostileSuite(n(1)) },
			"faults":  func() { e2e.FaultSuite(n(1)) },
			"release": func() { e2e.ReleaseSuite(n(1)) },
			"http":    func() { e2e.HTTPSuite(n(1)) },
			"redis":   func() { e2e.RedisSuite(n(1)) },
			"config":  func() { e2e.ConfigSuite(n(100)) },
			"livekit": func() { e2e.LiveKitSuite(n(8)) },
			"crash":   func() { e2e.CrashSuite(n(1)) },
		}
		var fs []func()
		for _, s := range strings.Fields(os.Getenv("VH_SUITES")) {
			fs = append(fs, suites[s])
		}
		both(fs...)
	}}
}

// mediaCheck runs the recorder with generated media in virtual time, and whole
// sessions with real peers
func mediaCheck(c *check) {
	c.componentShards("vrec", c.scale(400, 4000), 4)
	c.media()
}

// media runs whole sessions with real peers
func (c *check) media() {
	if os.Getenv("VH_CASE") == "" {
		fs := []func(){func() { e2e.MediaSuite(c.params(c.scale(36, 400), false)) }, c.livekit}
		if c.id == "C03" {
			fs = append(fs, func() { e2e.StatusSuite(c.params(c.scale(40, 400), false)) })
		}
		both(fs...)
	}
}

// livekit records from a LiveKit room, too, where it makes a difference
func (c *check) livekit() {
	switch c.id {
	case "C10", "C11":
		// That part is the SDK's
		return
	}
	e2e.LiveKitSuite(c.params(c.scale(8, 80), false))
}

// control runs histories of requests with both adapters
func (c *check) control() {
	both(func() { e2e.ControlSuite(c.params(c.scale(2, 40), false)) }, c.livekit)
}

func both(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	wg.Wait()
}
