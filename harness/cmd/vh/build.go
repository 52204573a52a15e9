package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/result"
)

var (
	verifDir = os.Getenv("VH_VERIF")
	scratch  = os.Getenv("VH_SCRATCH")
	repoDir  = envOr("VH_REPO", "/repo")
)

func envOr(n, d string) string {
	if v := os.Getenv(n); v != "" {
		return v
	}
	return d
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off")
}

// buildRecorder builds the recorder from the repository's working tree
func buildRecorder(race bool) (string, error) {
	out := filepath.Join(scratch, "bbb-webrtc-recorder")
	args := []string{"build", "-tags", "verif", "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "-ldflags=-X 'github.com/bigbluebutton/bbb-webrtc-recorder/internal.AppVersion="+appVersion+"'", "./cmd/bbb-webrtc-recorder")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("the recorder does not build: %v\n%s", err, tail(string(b), 4000))
	}
	return out, nil
}

const appVersion = "v9.8.7-verif"

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// buildComponent builds a harness which uses the packages of the repository
func buildComponent(name string, race bool) (string, error) {
	replace := map[string]string{}
	add := func(virtual, real string) { replace[filepath.Join(repoDir, virtual)] = filepath.Join(verifDir, real) }
	files, err := filepath.Glob(filepath.Join(verifDir, "component", name, "*.go"))
	if err != nil || len(files) == 0 {
		return "", fmt.Errorf("no harness %s", name)
	}
	for _, f := range files {
		add("internal/"+name+"/"+filepath.Base(f), "component/"+name+"/"+filepath.Base(f))
	}
	for _, f := range []string{"result/result.go"} {
		add("internal/vresult/"+filepath.Base(f), "harness/"+f)
	}
	media, _ := filepath.Glob(filepath.Join(verifDir, "harness", "media", "*.go"))
	for _, f := range media {
		add("internal/vmedia/"+filepath.Base(f), "harness/media/"+filepath.Base(f))
	}
	ov := filepath.Join(scratch, name+".overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	if err := os.WriteFile(ov, b, 0644); err != nil {
		return "", err
	}
	out := filepath.Join(scratch, name+".test")
	args := []string{"test", "-c", "-vet=off", "-tags", "verif", "-overlay", ov, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./internal/"+name)
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("harness %s does not build: %v\n%s", name, err, tail(string(b), 4000))
	}
	return out, nil
}

// component builds and runs a harness, and merges what it observed
func (c *check) component(name string, cases int, extra ...string) {
	c.componentShards(name, cases, 1, extra...)
}

// componentShards runs several instances with different seeds at a time
func (c *check) componentShards(name string, cases, shards int, extra ...string) {
	bin, err := buildComponent(name, false)
	if err != nil {
		if c.hasE2E {
			// The repository's internal interfaces changed; the service did not
			c.res.Note("%v", err)
			return
		}
		c.fatal("%v", err)
	}
	type done struct {
		r   *result.R
		err string
		cur interface{}
	}
	ch := make(chan done, shards)
	for s := 0; s < shards; s++ {
		go func(s int) {
			dir := filepath.Join(scratch, fmt.Sprintf("%s.%d", name, s))
			os.MkdirAll(dir, 0755)
			out := filepath.Join(dir, "out.json")
			os.Remove(out)
			os.Remove(out + ".cur")
			cmd := exec.Command(bin, "-test.run", "TestVerif$", "-test.timeout", "0")
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "VH_PROP="+c.id, fmt.Sprintf("VH_SEED=%d", c.seed*1000+int64(s)), fmt.Sprintf("VH_N=%d", cases),
				"VH_OUT="+out, "VH_DIR="+dir, "VH_TIER="+c.tier, "GOTRACEBACK=all")
			cmd.Env = append(cmd.Env, extra...)
			if s := os.Getenv("VH_FORCE_SEED"); s != "" {
				cmd.Env = append(cmd.Env, "VH_SEED="+s)
			}
			var buf strings.Builder
			cmd.Stdout, cmd.Stderr = &buf, &buf
			if err := cmd.Start(); err != nil {
				ch <- done{err: err.Error()}
				return
			}
			timedOut := false
			timer := time.AfterFunc(c.componentTimeout(), func() {
				timedOut = true
				cmd.Process.Signal(os.Interrupt)
				cmd.Process.Kill()
			})
			werr := cmd.Wait()
			timer.Stop()
			r, err := result.Load(out)
			if err != nil {
				var cur interface{}
				if b, err := os.ReadFile(out + ".cur"); err == nil {
					json.Unmarshal(b, &cur)
				}
				if timedOut {
					ch <- done{err: "HANG", cur: cur}
					return
				}
				ch <- done{err: fmt.Sprintf("%v: %s", werr, crashText(buf.String())), cur: cur}
				return
			}
			ch <- done{r: r}
		}(s)
	}
	for s := 0; s < shards; s++ {
		d := <-ch
		switch {
		case d.r != nil:
			c.res.Merge(d.r)
		case d.err == "HANG":
			c.res.Violate(c.id, d.cur, "the code under test hangs")
		default:
			c.res.Violate(c.id, d.cur, "the code under test crashed: %s", d.err)
		}
	}
}

// crashText is the interesting part of a crash's output
func crashText(s string) string {
	for _, m := range []string{"panic: ", "fatal error: ", "--- FAIL"} {
		if i := strings.Index(s, m); i >= 0 {
			s = s[i:]
			break
		}
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}
