// Command vh runs the check of a property: it builds the recorder and the
// harnesses from the repository's working tree, drives them, and reports what
// the monitors observed.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/result"
)

type check struct {
	id     string
	tier   string
	seed   int64
	res    *result.R
	start  time.Time
	hasE2E bool
	spec   spec
	// Findings which are listed in known-findings
	known []finding
}

type spec struct {
	run         func(c *check)
	level       string
	rule        string
	assumptions []string
	e2e         bool
}

type finding struct{ property, pattern string }

func (c *check) thorough() bool { return c.tier == "thorough" }

// scale is n, or more of it in the thorough tier
func (c *check) scale(n, thorough int) int {
	if c.thorough() {
		return thorough
	}
	return n
}

func (c *check) componentTimeout() time.Duration {
	if c.thorough() {
		return 3 * time.Hour
	}
	if c.id == "ALL" {
		return time.Minute
	}
	return 5 * time.Minute
}

// fatal ends the check without a verdict
func (c *check) fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) != 2 {
		fmt.Fprintln(os.Stderr, "usage: vh <property>")
		os.Exit(2)
	}
	c := &check{id: os.Args[1], tier: envOr("VERIF_TIER", "quick"), res: result.New(), start: time.Now()}
	c.seed = 1
	if n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.seed = n
	}
	var ok bool
	if c.spec, ok = specs[c.id]; !ok {
		c.fatal("no check for %s", c.id)
	}
	c.hasE2E = c.spec.e2e
	if s := os.Getenv("VH_CASE"); s != "" {
		// For debugging: seed/case of one component harness
		seed, only, _ := strings.Cut(s, "/")
		os.Setenv("VH_FORCE_SEED", seed)
		os.Setenv("VH_ONLY", only)
	}
	c.loadKnown()
	done := make(chan struct{})
	go func() {
		c.spec.run(c)
		close(done)
	}()
	limit := 750 * time.Second
	if c.tier != "quick" {
		limit = 5 * time.Hour
	}
	select {
	case <-done:
	case <-time.After(limit):
		// Something hangs. What was observed until then counts, but it is not
		// enough to tell that the property holds
		c.res = c.res.Snapshot()
		c.finish()
		pprof.Lookup("goroutine").WriteTo(os.Stderr, 1)
		c.fatal("the check did not end")
	}
	c.finish()
}

func (c *check) loadKnown() {
	f, err := os.Open(filepath.Join(verifDir, "KNOWN-FINDINGS.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=<id> <what the report contains>
		if rest, ok := strings.CutPrefix(l, "known: property="); ok {
			if id, pat, ok := strings.Cut(rest, " "); ok {
				c.known = append(c.known, finding{id, strings.TrimSpace(pat)})
			}
		}
	}
}

func (c *check) finish() {
	var own []result.Violation
	others := map[string]int{}
	reported := map[string]bool{}
	for _, v := range c.res.Violations {
		known := false
		for _, k := range c.known {
			if k.property == c.id && strings.Contains(v.Msg, k.pattern) {
				known = true
				if !reported[k.pattern] {
					reported[k.pattern] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.pattern)
				}
			}
		}
		if known {
			continue
		}
		if v.Has(c.id) || c.id == "ALL" {
			own = append(own, v)
		} else {
			others[v.Property]++
			if os.Getenv("VH_VERBOSE") != "" {
				b, _ := json.Marshal(v.Case)
				fmt.Printf("  %s: %s\n    %s\n", v.Property, v.Msg, b)
			}
		}
	}
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0755)
	counters := map[string]int64{}
	for k, v := range c.res.Counters {
		counters[k] = v
	}
	if len(c.res.Samples) == 0 {
		c.res.Samples = append(c.res.Samples, "none")
	}
	cov := map[string]interface{}{
		"evaluations":         c.res.Evaluations,
		"distinct_nontrivial": c.res.Distinct(),
		"rule":                c.spec.rule,
		"samples":             c.res.Samples,
		"observed":            counters,
	}
	if len(c.res.Inconclusive) > 0 {
		cov["inconclusive"] = c.res.Inconclusive
	}
	if len(c.res.Notes) > 0 {
		cov["notes"] = c.res.Notes
	}
	if len(others) > 0 {
		cov["violations_of_other_properties"] = others
	}
	level := c.spec.level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": level,
		"coverage": cov, "assumptions": c.spec.assumptions,
		"wall_s": time.Since(c.start).Seconds(), "violations": len(own),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, c.id+".json"), append(b, '\n'), 0644); err != nil {
		c.fatal("%v", err)
	}
	keys := make([]string, 0, len(counters))
	for k := range counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s: %d cases, %d distinct and non-trivial, %.1f s\n", c.id, c.res.Evaluations, c.res.Distinct(), time.Since(c.start).Seconds())
	for _, k := range keys {
		fmt.Printf("  %s: %d\n", k, counters[k])
	}
	for _, n := range c.res.Notes {
		fmt.Printf("  note: %s\n", n)
	}
	for _, n := range c.res.Inconclusive {
		fmt.Printf("  inconclusive: %s\n", n)
	}
	for p, n := range others {
		fmt.Printf("  (seen in passing, decided by its own check: %d x %s)\n", n, p)
		for _, v := range c.res.Violations {
			if v.Property == p {
				fmt.Printf("    e.g. %.600s\n", v.Msg)
				if os.Getenv("VH_VERBOSE") != "" {
					fmt.Printf("    %+v\n", v.Case)
				}
				break
			}
		}
	}
	if len(own) > 0 {
		path := filepath.Join(evDir, fmt.Sprintf("%s-replay-%d.json", c.id, c.seed))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": c.id, "seed": c.seed, "tier": c.tier, "violations": own}, "", " ")
		os.WriteFile(path, b, 0644)
		for i, v := range own {
			if i == 5 {
				break
			}
			fmt.Printf("  %s\n", v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
		os.Exit(1)
	}
	if c.res.Evaluations == 0 || c.res.Distinct() == 0 {
		c.fatal("nothing was observed")
	}
}
