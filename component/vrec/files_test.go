//go:build go1.25

package vrec

import (
	"context"
	"crypto/sha256"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vmedia"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
)

// entry is what a directory tree has at some path
type entry struct {
	dir  bool
	mode os.FileMode
	sum  [32]byte
}

func tree(root string) map[string]entry {
	t := map[string]entry{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		st, err := os.Lstat(p)
		if err != nil {
			return nil
		}
		e := entry{dir: st.IsDir(), mode: st.Mode().Perm()}
		if st.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			e.sum = sha256.Sum256(b)
		}
		t[p] = e
		return nil
	})
	return t
}

// clip is a short recording's media
type clip struct {
	video, audio []*media.Frame
	push         func(r recorder.Recorder)
}

func newClip(rng *rand.Rand, tag int, video, audio bool) *clip {
	c := &clip{}
	if video {
		c.video = media.GenVideo(rng, media.VideoCfg{Frames: 4 + rng.Intn(6), PIDBits: 15, StartPID: rng.Intn(30000), StartSeq: uint16(rng.Intn(60000)), StartTS: rng.Uint32(),
			MaxSize: 3000, MaxPkt: 1100, W: 320, H: 240, Tag: uint32(tag) + 1, TSSteps: []uint32{3000}})
	}
	if audio {
		c.audio = media.GenAudio(rng, media.AudioCfg{Packets: 10 + rng.Intn(10), StartSeq: uint16(rng.Intn(60000)), StartTS: rng.Uint32(), TSSteps: []uint32{960}, Tag: uint32(tag) + 0x100000, MaxSize: 100})
	}
	c.push = func(r recorder.Recorder) {
		r.SetHasVideo(video)
		r.SetHasAudio(audio)
		if video {
			r.SetKeyframeRequester(&keyframeRequests{})
		}
		for i := 0; i < len(c.video) || i < len(c.audio); i++ {
			if i < len(c.video) {
				for _, p := range c.video[i].Pkts {
					r.PushVideo(p.Clone())
				}
			}
			if i < len(c.audio) {
				r.PushAudio(c.audio[i].Pkts[0].Clone())
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	return c
}

var oddNames = []string{"x.webm", "x.webm", "sub/x.webm", "a/b/c/x.webm", "./x.webm", "a//b.webm", "/x.webm", "//x.webm", "x y.webm", "ünï-日本.webm", "-x.webm", "x.y.webm", "...webm", ".webm", "~/x.webm", "$HOME.webm", "a\nb.webm", "x;rm.webm", "*.webm", "%2e%2e%2fx.webm", "..x.webm", "x..webm", "..a/x.webm", "a../x.webm", "..\\x.webm", "sub/..hidden/x.webm"}
var hostileNames = []string{"../x.webm", "../../x.webm", "sub/../../x.webm", "/../x.webm", "./../x.webm", "a/b/../../../x.webm", "../recx/x.webm", "..//..//x.webm", "sub/./.././../x.webm", "../other.webm", "../recx/other.webm", "//..//x.webm", "a/../../rec/../x.webm", "../../../x.webm"}
var badExt = []string{"x", "", "x.mp4", "x.WEBM", "x.webm.mp4", "x.webm/", "x.webm/.", "x.webm ", "webm", "x.webmx", "x.ivf", "x.webm\x00", "..", ".", "/", "x.mkv", "x.webm.", "/etc", "sub/", "x.webm/.."}

func files(rng *rand.Rand, seed int64, i int) {
	// Escaping names get up to three directories up from dir, which still is
	// in base
	base, err := os.MkdirTemp(dir, "files")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	os.Chmod(base, 0755)
	recDir := filepath.Join(base, "p", "q", "r", "rec")
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	umask := pick(rng, 0, 0o22, 0o27)
	old := syscall.Umask(0)
	defer syscall.Umask(old)
	must(os.MkdirAll(recDir, 0755))
	must(os.MkdirAll(filepath.Join(base, "p", "q", "r", "recx"), 0755))
	must(os.MkdirAll(filepath.Join(recDir, "have"), 0755))
	plant := func(p string) { must(os.WriteFile(p, []byte("precious "+p), 0644)) }
	plant(filepath.Join(recDir, "..", "other.webm"))
	plant(filepath.Join(recDir, "..", "recx", "other.webm"))
	plant(filepath.Join(recDir, "have", "there.webm"))
	plant(filepath.Join(recDir, "there.webm"))
	plant(filepath.Join(recDir, "plain"))
	plant(filepath.Join(recDir, "copy.ivf"))
	syscall.Umask(umask)

	fileModes := map[string]os.FileMode{"0600": 0600, "0640": 0640, "0644": 0644, "0660": 0660, "0666": 0666, "0o640": 0640, "0604": 0604, "384": 0600}
	dirModes := map[string]os.FileMode{"0700": 0700, "0750": 0750, "0755": 0755, "0770": 0770, "0777": 0777, "0o750": 0750, "448": 0700, "02770": 0770, "01777": 0777}
	fm := pick(rng, "0600", "0640", "0644", "0660", "0666", "0o640", "0604", "384")
	dm := pick(rng, "0700", "0750", "0755", "0770", "0777", "0o750", "448", "02770", "01777")
	cfg := config.Recorder{Directory: recDir, FileMode: fm, DirFileMode: dm, VideoPacketQueueSize: 256, AudioPacketQueueSize: 32, UseCustomSampler: rng.Intn(4) > 0,
		WriteIVFCopy: rng.Intn(2) == 0 || prop == "C19", WriteToDevNull: rng.Intn(8) == 0}
	if rng.Intn(4) == 0 {
		cfg.Directory += pick(rng, "/", "/.", "//", "/../rec")
	}
	missing := !cfg.WriteToDevNull && rng.Intn(15) == 0
	if missing {
		cfg.Directory = filepath.Join(base, "p", "q", "r", "nothere")
		recDir = cfg.Directory
	}

	var name string
	class := ""
	switch r := rng.Intn(12); {
	case prop == "C19":
		class, name = "plain", pick(rng, "x.webm", "sub/x.webm", "copy.webm", "x.y.webm")
	case r < 4:
		class, name = "plain", pick(rng, oddNames...)
	case r < 7:
		class, name = "hostile", pick(rng, hostileNames...)
	case r < 9:
		class, name = "ext", pick(rng, badExt...)
	case r < 10:
		class, name = "exists", pick(rng, "there.webm", "have/there.webm", "./there.webm", "/there.webm", "have//there.webm")
	case r < 11:
		class, name = "blocked", pick(rng, "plain/x.webm", "there.webm/x.webm", strings.Repeat("n", 300)+".webm", "x\x00.webm", "\x00/x.webm")
	default:
		class, name = "absolute", pick(rng, recDir+"/x.webm", filepath.Join(base, "p", "x.webm"), base+"/x.webm")
	}
	if class == "absolute" && rng.Intn(2) == 0 {
		name = "/" + name
	}
	target := filepath.Join(recDir, name)
	inside := strings.HasPrefix(target, recDir+"/")
	desc := map[string]interface{}{"harness": "vrec", "seed": seed, "case": i, "name": name, "config": fmt.Sprintf("%+v", cfg), "umask": umask, "class": class}
	rep := func(props, format string, a ...interface{}) {
		res.Violate(props, desc, "case %d (%s name %q): %s", i, class, name, fmt.Sprintf(format, a...))
	}
	before := tree(base)
	ctx := context.WithValue(context.Background(), "session", fmt.Sprint("f", i))
	rec, err := recorder.NewRecorder(ctx, cfg, name)
	accepted := err == nil
	steps := []string{fmt.Sprint("accepted:", accepted)}
	extWebm := strings.HasSuffix(name, ".webm")

	mustRefuse := !extWebm || missing || !cfg.WriteToDevNull && (!inside || class == "exists" || class == "blocked")
	// Names with .. in the end may stay in the directory
	may := class == "hostile" && inside || class == "blocked" && cfg.WriteToDevNull
	if accepted && mustRefuse {
		rep("C20", "the recording was accepted")
	}
	if !accepted && !mustRefuse && !may && class != "hostile" {
		rep("C20", "the recording was refused: %v", err)
	}
	if !accepted && class == "hostile" && cfg.WriteToDevNull && false {
		rep("C20", "the recording was refused: %v", err)
	}
	ivfTarget := strings.TrimSuffix(target, ".webm") + ".ivf"
	appeared, ivfAppeared := "", ""
	ivfThere := false
	wrote := false
	if accepted {
		video, audio := true, rng.Intn(2) == 0
		if rng.Intn(5) == 0 && prop != "C19" {
			video, audio = false, true
		}
		c := newClip(rng, i, video, audio)
		switch {
		case cfg.WriteToDevNull:
		case rng.Intn(4) == 0 && prop == "C20":
			// Somebody else creates it first
			appeared = target
			steps = append(steps, "file appears")
			plant(target)
			before[target] = tree(target)[target]
		case cfg.WriteIVFCopy && rng.Intn(4) == 0:
			ivfAppeared = ivfTarget
			if _, ok := before[ivfTarget]; !ok {
				plant(ivfTarget)
				before[ivfTarget] = tree(ivfTarget)[ivfTarget]
			}
			steps = append(steps, "IVF file appears")
		}
		if _, ok := before[ivfTarget]; ok {
			ivfThere = true
		}
		// The same name, while this one is active
		if !cfg.WriteToDevNull && rng.Intn(2) == 0 {
			for k := 1 + rng.Intn(3); k > 0; k-- {
				second := pick(rng, name, name, "./"+strings.TrimLeft(name, "/"))
				if r2, err := recorder.NewRecorder(ctx, cfg, second); err == nil {
					rep("C20", "a second recorder of the active file was accepted (as %q)", second)
					r2.Close()
				}
				if rng.Intn(2) == 0 {
					if r2, err := recorder.NewRecorder(ctx, cfg, "between/other.webm"); err != nil {
						rep("C20", "a recorder of another file was refused meanwhile: %v", err)
					} else {
						r2.Close()
						os.Remove(filepath.Join(recDir, "between"))
					}
				}
				steps = append(steps, "second")
			}
		}
		if rng.Intn(6) > 0 {
			c.push(rec)
			wrote = true
		}
		end := rec.Close()
		synctest.Wait()
		if wrote && appeared == "" && end <= 0 {
			rep("C03", "the recording ends at %v", end)
		}
		steps = append(steps, fmt.Sprint("wrote:", wrote))
		after := tree(base)
		var names []string
		for p, e := range after {
			b, old := before[p]
			if old {
				continue
			}
			_ = b
			names = append(names, p)
			switch {
			case cfg.WriteToDevNull:
				rep("C20,C19", "%s was created, although nothing is to be written", p)
			case p == target && !e.dir:
				if !wrote {
					rep("C20", "there is a file, although nothing was recorded")
				}
				if want := fileModes[fm] &^ os.FileMode(umask); e.mode != want {
					rep("C20", "the mode of the file is %v, not %v", e.mode, want)
				}
			case p == ivfTarget && cfg.WriteIVFCopy && len(c.video) > 0 && !e.dir:
				if want := fileModes[fm] &^ os.FileMode(umask); e.mode != want {
					rep("C20,C19", "the mode of the IVF copy is %v, not %v", e.mode, want)
				}
			case e.dir && strings.HasPrefix(target, p+"/") && strings.HasPrefix(p, recDir+"/"):
				if want := dirModes[dm] &^ os.FileMode(umask); e.mode != want {
					rep("C20", "the mode of directory %s is %v, not %v", p, e.mode, want)
				}
			default:
				tag := "C20"
				if strings.HasSuffix(p, ".ivf") {
					tag = "C20,C19"
				}
				rep(tag, "%s was created", p)
			}
		}
		if !cfg.WriteToDevNull && wrote && appeared == "" {
			f, err := media.ParseFile(target)
			if err != nil {
				rep("C20", "there is no recording: %v", err)
			} else {
				media.CheckFile(rep, f, video, audio, true)
				if video {
					got := media.CheckTrack(rep, media.TrackExpect{Kind: "video", Sent: c.video, Clock: 90, Missing: "C13", Extra: "C13", Class: func(*media.Frame) media.Class { return media.Must }}, f.VideoBlocks())
					if v, err := media.ParseIVF(ivfTarget); cfg.WriteIVFCopy && !ivfThere {
						if err != nil {
							rep("C19", "there is no IVF copy: %v", err)
						} else {
							media.CheckIVF(rep, v, got, f.VideoBlocks())
							res.Count("ivf_frames", int64(len(v.Frames)))
						}
					}
				}
			}
		}
		// The name is free again, unless there is a file now
		if !cfg.WriteToDevNull {
			r3, err := recorder.NewRecorder(ctx, cfg, name)
			if exists := wrote || appeared != ""; exists && err == nil {
				rep("C20", "a recorder of an existing file was accepted")
			} else if !exists && err != nil {
				rep("C20,C02", "the name is not free again: %v", err)
			}
			if err == nil {
				r3.Close()
			}
		}
	}
	synctest.Wait()
	after := tree(base)
	for p, b := range before {
		a, ok := after[p]
		tag := "C20"
		if strings.HasSuffix(p, ".ivf") {
			tag = "C20,C19"
		}
		if !ok {
			rep(tag, "%s was removed", p)
		} else if a != b {
			rep(tag, "%s was changed (mode %v, was %v)", p, a.mode, b.mode)
		}
	}
	if !accepted {
		for p, e := range after {
			if _, old := before[p]; !old && (!e.dir || !strings.HasPrefix(p, recDir+"/")) {
				rep("C20", "%s was created, although the recording was refused", p)
			}
		}
	}
	res.Count("file_requests_"+class, 1)
	if appeared != "" {
		res.Count("files_which_appeared", 1)
	}
	if ivfAppeared != "" {
		res.Count("ivf_files_which_appeared", 1)
	}
	if accepted {
		res.Count("accepted", 1)
	} else {
		res.Count("refused", 1)
	}
	res.Case(fmt.Sprint(class, name, fm, dm, umask, cfg.WriteToDevNull, cfg.WriteIVFCopy, steps), map[string]interface{}{"name": name, "class": class, "steps": steps, "modes": fm + " " + dm})
}

// faults records two streams next to each other, with I/O errors for the first
func faults(rng *rand.Rand, seed int64, i int) {
	base, err := os.MkdirTemp(dir, "faults")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	k := kind{video: true, custom: rng.Intn(4) > 0, audio: rng.Intn(2) == 0, ivf: rng.Intn(3) == 0}
	if rng.Intn(5) == 0 {
		k.video, k.audio = false, true
	}
	if k.video && k.audio && rng.Intn(2) == 0 {
		k.late = pick(rng, "video", "audio")
		k.gap = time.Duration(rng.Intn(2000)) * time.Millisecond
	}
	c := build(rng, k, seed, i)
	if k.video {
		c.vcfg.MaxSize = 5000
	}
	how := pick(rng, "dir removed", "dir is a file", "size limit", "size limit", "size limit", "file appears", "closed early")
	okClip := newClip(rng, i+0x8000, true, true)
	desc := map[string]interface{}{"harness": "vrec", "seed": seed, "case": i, "fault": how, "kind": fmt.Sprintf("%+v", k)}
	rep := func(props, format string, a ...interface{}) {
		res.Violate(props, desc, "case %d (%s, %s): %s", i, how, describe(k), fmt.Sprintf(format, a...))
	}
	c.rcfg.Directory = base
	ctx := context.WithValue(context.Background(), "session", fmt.Sprint("e", i))
	rec, err := recorder.NewRecorder(ctx, c.rcfg, "v/victim.webm")
	if err != nil {
		rep("C20,C07", "the recorder was refused: %v", err)
		return
	}
	okCfg := c.rcfg
	okCfg.UseCustomSampler = true
	okCfg.WriteIVFCopy = false
	okCfg.VideoPacketQueueSize = 256
	other, err := recorder.NewRecorder(ctx, okCfg, "ok/other.webm")
	if err != nil {
		rep("C20,C07", "the recorder was refused: %v", err)
		return
	}
	path := filepath.Join(base, "v", "victim.webm")
	var lim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
	limit := uint64(0)
	at := rng.Intn(len(c.steps))
	if rng.Intn(3) == 0 {
		at = 0
	}
	fault := func() {
		switch how {
		case "dir removed":
			os.RemoveAll(filepath.Join(base, "v"))
		case "dir is a file":
			os.RemoveAll(filepath.Join(base, "v"))
			os.WriteFile(filepath.Join(base, "v"), []byte("x"), 0600)
		case "size limit":
			// More than what the other one gets to
			limit = uint64(40000 + rng.Intn(60000))
			l := lim
			l.Cur = limit
			if rng.Intn(3) == 0 && at > 0 {
				// What is there already is too much
				limit = 40000
				l.Cur = limit
			}
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
		case "file appears":
			if _, err := os.Stat(path); err != nil {
				os.WriteFile(path, []byte("precious"), 0600)
			}
		case "no permission to create":
			os.Chmod(filepath.Join(base, "v"), 0500)
		case "closed early":
			rec.Close()
		}
	}
	okDone := make(chan struct{})
	go func() {
		defer close(okDone)
		time.Sleep(time.Duration(rng.Intn(100)) * time.Millisecond)
		okClip.push(other)
	}()
	t0 := time.Now()
	requests := &keyframeRequests{}
	lifted := false
	for n, s := range c.steps {
		if d := s.at - time.Since(t0); d > 0 {
			time.Sleep(d)
		}
		if n == at {
			fault()
		}
		if how == "size limit" && n == at+(len(c.steps)-at)*3/4 && i%4 == 0 {
			lifted = true
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
		}
		switch s.what {
		case "hasVideo":
			rec.SetHasVideo(true)
			rec.SetKeyframeRequester(requests)
		case "hasAudio":
			rec.SetHasAudio(true)
		case "audio":
			rec.PushAudio(s.pkt.Clone())
		case "video":
			rec.PushVideo(s.pkt.Clone())
		}
	}
	synctest.Wait()
	end := rec.Close()
	synctest.Wait()
	<-okDone
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
	other.Close()
	synctest.Wait()
	os.Chmod(filepath.Join(base, "v"), 0700)

	tag := func(p string) string {
		return p + ",C07"
	}
	f, err := media.ParseFile(filepath.Join(base, "ok", "other.webm"))
	if err != nil {
		rep("C07", "the other recording is not there: %v", err)
	} else {
		r := func(props, format string, a ...interface{}) { rep(tag(props), "the other recording: "+format, a...) }
		media.CheckFile(r, f, true, true, true)
		media.CheckTrack(r, media.TrackExpect{Kind: "video", Sent: okClip.video, Clock: 90, Missing: "C13", Extra: "C13", Class: func(*media.Frame) media.Class { return media.Must }}, f.VideoBlocks())
		media.CheckTrack(r, media.TrackExpect{Kind: "audio", Sent: okClip.audio, Clock: 48, Missing: "C13", Extra: "C13", Class: func(fr *media.Frame) media.Class {
			if fr == okClip.audio[0] {
				return media.May
			}
			return media.Must
		}}, f.AudioBlocks())
	}
	blocks := -1
	if f, err := media.ParseFile(path); err == nil && how != "file appears" {
		blocks = len(f.Blocks)
		r := func(props, format string, a ...interface{}) { rep(tag(props), "what was written: "+format, a...) }
		media.CheckFile(r, f, f.Video() != nil, f.Audio() != nil, false)
		any := func(*media.Frame) media.Class { return media.May }
		media.CheckTrack(r, media.TrackExpect{Kind: "video", Sent: c.video, Clock: 90, Class: any}, f.VideoBlocks())
		media.CheckTrack(r, media.TrackExpect{Kind: "audio", Sent: c.audio, Clock: 48, Class: any}, f.AudioBlocks())
		if how == "size limit" && !lifted && uint64(f.Size) < limit && f.Truncated {
			rep("C07,C17", "the file of %d bytes ends in the middle of an element, although it is below the limit of %d", f.Size, limit)
		}
		if how == "size limit" && uint64(f.Size) >= limit {
			res.Count("files_at_the_limit", 1)
		}
	} else if b, err := os.ReadFile(path); err == nil && how == "file appears" && string(b) == "precious" {
		res.Count("files_kept", 1)
	}
	res.Count("faults_"+strings.ReplaceAll(how, " ", "_"), 1)
	_ = end
	res.Case(fmt.Sprint(how, describe(k), at*10/len(c.steps), blocks, limit/10000, lifted), map[string]interface{}{"fault": how, "kind": describe(k), "at_step": at, "of": len(c.steps), "blocks_in_victim": blocks})
}
