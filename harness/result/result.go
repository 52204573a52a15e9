// Package result collects what a monitor observed: evaluations, distinct cases,
// counters and violations. It only needs the standard library, because it is
// shared between the driver and the in-package harnesses (through an overlay).
package result

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"maps"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"
)

type Violation struct {
	Property string      `json:"property"`
	Msg      string      `json:"msg"`
	Case     interface{} `json:"case,omitempty"`
}

// Has tells whether the violation is one of that property. Some observations
// break several properties, which are separated by commas.
func (v Violation) Has(id string) bool {
	for _, p := range strings.Split(v.Property, ",") {
		if p == id {
			return true
		}
	}
	return false
}

type R struct {
	mu           sync.Mutex
	Evaluations  int64               `json:"evaluations"`
	Signatures   map[uint64]struct{} `json:"-"`
	SigList      []uint64            `json:"signatures"`
	Samples      []interface{}       `json:"samples"`
	Counters     map[string]int64    `json:"counters"`
	Violations   []Violation         `json:"violations"`
	NViolations  int64               `json:"nviolations"`
	Inconclusive []string            `json:"inconclusive"`
	Notes        []string            `json:"notes"`
}

func New() *R {
	return &R{Signatures: map[uint64]struct{}{}, Counters: map[string]int64{}}
}

// Case accounts for one evaluated case. sig identifies what makes it different
// from others; an empty one means that the case was trivial.
func (r *R) Case(sig string, sample interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Evaluations++
	if sig != "" {
		h := fnv.New64a()
		h.Write([]byte(sig))
		r.Signatures[h.Sum64()] = struct{}{}
	}
	if sample != nil && len(r.Samples) < 6 {
		r.Samples = append(r.Samples, sample)
	}
}

func (r *R) Count(name string, n int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Counters[name] += n
}

func (r *R) Max(name string, n int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.Counters[name] < n {
		r.Counters[name] = n
	}
}

func (r *R) Violate(property string, c interface{}, format string, args ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.NViolations++
	n := 0
	for _, v := range r.Violations {
		if v.Property == property {
			n++
		}
	}
	if n < 8 {
		r.Violations = append(r.Violations, Violation{Property: property, Msg: fmt.Sprintf(format, args...), Case: c})
	}
}

// ViolateOnce reports each kind of violation once
func (r *R) ViolateOnce(property string, c interface{}, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.NViolations++
	for _, v := range r.Violations {
		if v.Property == property && v.Msg == msg {
			return
		}
	}
	if len(r.Violations) < 500 {
		r.Violations = append(r.Violations, Violation{Property: property, Msg: msg, Case: c})
	}
}

func (r *R) Note(format string, args ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Notes) < 40 {
		r.Notes = append(r.Notes, fmt.Sprintf(format, args...))
	}
}

func (r *R) Unsure(format string, args ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Inconclusive) < 40 {
		r.Inconclusive = append(r.Inconclusive, fmt.Sprintf(format, args...))
	}
	r.Counters["inconclusive"]++
}

// Snapshot is what was collected so far
func (r *R) Snapshot() *R {
	r.mu.Lock()
	defer r.mu.Unlock()
	return &R{Evaluations: r.Evaluations, Signatures: maps.Clone(r.Signatures), Samples: slices.Clone(r.Samples), Counters: maps.Clone(r.Counters),
		Violations: slices.Clone(r.Violations), NViolations: r.NViolations, Inconclusive: slices.Clone(r.Inconclusive), Notes: slices.Clone(r.Notes)}
}

func (r *R) Violated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.NViolations > 0
}

func (r *R) Distinct() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Signatures)
}

func (r *R) Save(path string) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.SigList = r.SigList[:0]
	for s := range r.Signatures {
		r.SigList = append(r.SigList, s)
	}
	sort.Slice(r.SigList, func(i, j int) bool { return r.SigList[i] < r.SigList[j] })
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0644)
}

func Load(path string) (*R, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	r := New()
	if err := json.Unmarshal(b, r); err != nil {
		return nil, err
	}
	r.Signatures = map[uint64]struct{}{}
	for _, s := range r.SigList {
		r.Signatures[s] = struct{}{}
	}
	if r.Counters == nil {
		r.Counters = map[string]int64{}
	}
	return r, nil
}

func (r *R) Merge(o *R) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Evaluations += o.Evaluations
	for s := range o.Signatures {
		r.Signatures[s] = struct{}{}
	}
	for _, s := range o.Samples {
		if len(r.Samples) < 10 {
			r.Samples = append(r.Samples, s)
		}
	}
	for k, v := range o.Counters {
		r.Counters[k] += v
	}
	r.NViolations += o.NViolations
	r.Violations = append(r.Violations, o.Violations...)
	r.Inconclusive = append(r.Inconclusive, o.Inconclusive...)
	r.Notes = append(r.Notes, o.Notes...)
}
