//go:build go1.25

//go:debug asynctimerchan=0

// Package vutils drives the sequence number utilities with generated streams
// and compares them with reference models.
package vutils

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vresult"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/utils"
	"github.com/pion/rtcp"
	"github.com/pion/rtp"
	log "github.com/sirupsen/logrus"
)

var res = result.New()

func envInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

func TestMain(m *testing.M) {
	log.SetLevel(log.PanicLevel)
	os.Exit(m.Run())
}

func TestVerif(t *testing.T) {
	prop := os.Getenv("VH_PROP")
	seed := int64(envInt("VH_SEED", 1))
	n := envInt("VH_N", 200)
	only := envInt("VH_ONLY", -1)
	run := map[string]func(*testing.T, *rand.Rand, int){
		"C09": unwrap, "C10": jitter, "C11": nack, "C25": sendBuffer,
	}[prop]
	if run == nil {
		t.Fatal("no such property: ", prop)
	}
	for i := 0; i < n; i++ {
		if only >= 0 && i != only {
			continue
		}
		cur, _ := json.Marshal(map[string]interface{}{"harness": "vutils", "property": prop, "seed": seed, "case": i})
		os.WriteFile(os.Getenv("VH_OUT")+".cur", cur, 0644)
		rng := rand.New(rand.NewSource(seed*1000003 + int64(i)*7919 + int64(len(prop))))
		func() {
			defer func() {
				if r := recover(); r != nil {
					res.Violate(prop, i, "panic: %v\n%s", r, debug.Stack())
				}
			}()
			run(t, rng, i)
		}()
		if res.NViolations > 4 {
			break
		}
	}
	if err := res.Save(os.Getenv("VH_OUT")); err != nil {
		t.Fatal(err)
	}
}

// arrivals generates a stream of sequence numbers (not wrapped) as they arrive:
// with reordering, duplicates, losses, late packets and jumps.
func arrivals(rng *rand.Rand, start int64, n int, jumps bool) ([]int64, string) {
	mode := rng.Intn(6)
	pDup, pLoss, pLate := 0.0, 0.0, 0.0
	window := 1
	switch mode {
	case 1:
		pDup, pLoss = 0.05, 0.05
	case 2:
		window = 2 + rng.Intn(40)
	case 3:
		window, pDup, pLoss, pLate = 2+rng.Intn(100), 0.1, 0.1, 0.05
	case 4:
		pLoss = 0.3 + rng.Float64()*0.5
	case 5:
		window, pLate = 2+rng.Intn(600), 0.02
	}
	type a struct {
		seq int64
		at  float64
	}
	var as []a
	seq := start
	for i := 0; i < n; i++ {
		if jumps && rng.Intn(200) == 0 {
			switch rng.Intn(3) {
			case 0:
				seq += int64(rng.Intn(2000))
			case 1:
				seq += int64(rng.Intn(32000))
			case 2:
				seq += 200 + int64(rng.Intn(400))
			}
		}
		if rng.Float64() >= pLoss {
			at := float64(i) + rng.Float64()*float64(window)
			if rng.Float64() < pLate {
				at += float64(rng.Intn(2000))
			}
			as = append(as, a{seq, at})
			if rng.Float64() < pDup {
				as = append(as, a{seq, at + float64(rng.Intn(300))})
			}
		}
		seq++
	}
	sort.SliceStable(as, func(i, j int) bool { return as[i].at < as[j].at })
	out := make([]int64, len(as))
	for i := range as {
		out[i] = as[i].seq
	}
	return out, fmt.Sprintf("mode%d", mode)
}

func startSeq(rng *rand.Rand) int64 {
	switch rng.Intn(5) {
	case 0:
		return 0
	case 1:
		return 65535 - int64(rng.Intn(500))
	case 2:
		return int64(rng.Intn(100))
	case 3:
		return 32768 - int64(rng.Intn(200))
	}
	return int64(rng.Intn(65536))
}

// ---- C09

func unwrap(t *testing.T, rng *rand.Rand, i int) {
	su := utils.NewSequenceUnwrapper(16)
	var seqs []uint16
	kind := ""
	switch rng.Intn(3) {
	case 0:
		as, m := arrivals(rng, startSeq(rng), 3000+rng.Intn(4000), true)
		kind = "stream/" + m
		for _, s := range as {
			seqs = append(seqs, uint16(s))
		}
	case 1:
		// Fast rounds: steps of up to half a cycle, in both directions
		kind = "steps"
		s := uint16(startSeq(rng))
		for k := 0; k < 2000; k++ {
			switch rng.Intn(5) {
			case 0:
				s -= uint16(rng.Intn(32768))
			case 1:
				s += uint16(1 + rng.Intn(3))
			case 2:
				s -= uint16(rng.Intn(4))
			default:
				s += uint16(rng.Intn(32768))
			}
			seqs = append(seqs, s)
		}
	case 2:
		kind = "random"
		for k := 0; k < 2000; k++ {
			switch rng.Intn(4) {
			case 0:
				seqs = append(seqs, uint16(rng.Intn(4)-2))
			case 1:
				seqs = append(seqs, uint16(32766+rng.Intn(4)))
			default:
				seqs = append(seqs, uint16(rng.Intn(65536)))
			}
		}
	}
	const half = 32768
	var ref int64
	wraps, backs, ties, raised := 0, 0, 0, 0
	for k, s := range seqs {
		got := su.Unwrap(uint64(s))
		if k == 0 {
			ref = got
			if got < 0 || got&0xFFFF != int64(s) {
				res.Violate("C09", i, "case %d (%s): first number %d unwrapped to %d", i, kind, s, got)
				return
			}
			continue
		}
		d := int64(int16(s - uint16(ref)))
		c := ref + d
		ok := got == c
		if d == -half {
			// Both are as near
			ties++
			ok = got == ref+half || got == ref-half
			if ref-half < 0 {
				ok = got == ref+half
			}
		} else if c < 0 {
			raised++
			// The numbering continues one cycle higher
			ok = got == c+65536
			if got == c+65536 {
				// The newest one moves up with it
				ref += 65536
			}
		}
		if !ok {
			res.Violate("C09", map[string]interface{}{"case": i, "kind": kind, "at": k, "tail": seqs[max(0, k-5) : k+1]},
				"case %d (%s) #%d: %d unwrapped to %d, newest before is %d (nearest would be %d)", i, kind, k, s, got, ref, c)
			return
		}
		if got > ref {
			if got>>16 != ref>>16 {
				wraps++
			}
			ref = got
		} else if got < ref {
			backs++
		}
	}
	res.Count("numbers", int64(len(seqs)))
	res.Count("wraps", int64(wraps))
	res.Count("late", int64(backs))
	res.Count("exact_half", int64(ties))
	res.Count("raised_by_a_cycle", int64(raised))
	sig := ""
	if wraps > 0 || backs > 0 {
		sig = fmt.Sprint(kind, i, len(seqs), wraps, backs)
	}
	res.Case(sig, map[string]interface{}{"kind": kind, "first": seqs[:min(8, len(seqs))], "numbers": len(seqs), "wraps": wraps, "late": backs, "unwrapped_newest": ref})
}

// ---- C25

func sendBuffer(t *testing.T, rng *rand.Rand, i int) {
	if i == 0 {
		for size := 0; size < 65536; size++ {
			_, err := utils.NewSendBuffer(uint16(size))
			pow := size != 0 && size&(size-1) == 0
			if (err == nil) != pow {
				res.Violate("C25", size, "size %d: error %v", size, err)
			}
		}
		res.Case("sizes", map[string]interface{}{"sizes": "all 65536 sizes tried"})
		return
	}
	bits := rng.Intn(16)
	size := uint16(1) << bits
	sb, err := utils.NewSendBuffer(size)
	if err != nil {
		res.Violate("C25", i, "size %d refused: %v", size, err)
		return
	}
	seq := uint16(startSeq(rng))
	model := map[uint16]*rtp.Packet{} // the last 32768 numbers
	age := map[uint16]int64{}
	var abs int64 = int64(seq)
	newest := abs
	adds, gets, hits, gaps := 0, 0, 0, 0
	n := 300 + rng.Intn(1500)
	for k := 0; k < n; k++ {
		if k > 0 {
			step := int64(1)
			switch rng.Intn(12) {
			case 0:
				step = 1 + int64(rng.Intn(int(size)+3))
				gaps++
			case 1:
				step = int64(size)
				gaps++
			case 2:
				if rng.Intn(4) == 0 {
					step = 1 + int64(rng.Intn(32767))
					gaps++
				}
			case 3:
				step = 0
			case 4:
				step = 2
				gaps++
			}
			if step > 32767 {
				step = 32767
			}
			abs += step
		}
		p := &rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(abs), Timestamp: uint32(k)}}
		sb.Add(p)
		adds++
		if !(k > 0 && abs == newest) {
			model[uint16(abs)] = p
			age[uint16(abs)] = abs
		}
		newest = abs
		// Look up around, far, and at random
		var qs []uint16
		for d := -3; d < 6; d++ {
			qs = append(qs, uint16(abs-int64(d)))
		}
		qs = append(qs, uint16(abs-int64(size)), uint16(abs-int64(size)+1), uint16(abs-int64(size)-1), uint16(rng.Intn(65536)), uint16(abs+32768), uint16(abs+32767), uint16(abs-32767))
		for r := 0; r < 6; r++ {
			qs = append(qs, uint16(abs-int64(rng.Intn(int(size)+1))))
		}
		for _, q := range qs {
			got := sb.Get(q)
			gets++
			var want *rtp.Packet
			if p := model[q]; p != nil {
				back := newest - age[q]
				if back < int64(size) && back < 32768 {
					want = p
				}
			}
			if got != want {
				gs := "nothing"
				if got != nil {
					gs = fmt.Sprintf("packet %d (#%d)", got.SequenceNumber, got.Timestamp)
				}
				res.Violate("C25", map[string]interface{}{"case": i, "size": size, "newest": newest, "looked_up": q},
					"case %d: size %d, newest %d: looking up %d returned %s, added: %v", i, size, uint16(newest), q, gs, want)
				return
			}
			if got != nil {
				hits++
			}
		}
	}
	res.Count("adds", int64(adds))
	res.Count("lookups", int64(gets))
	res.Count("hits", int64(hits))
	res.Count("gaps", int64(gaps))
	res.Count("cycles", (newest-int64(seq))/65536)
	res.Case(fmt.Sprint(size, i, hits, gaps), map[string]interface{}{"size": size, "start": seq, "adds": adds, "lookups": gets, "hits": hits, "gaps": gaps})
}

// ---- C11: receive log and NACK pairs

func nack(t *testing.T, rng *rand.Rand, i int) {
	if i == 0 {
		for size := 0; size < 65536; size++ {
			_, err := utils.NewReceiveLog(uint16(size))
			ok := size >= 64 && size&(size-1) == 0
			if (err == nil) != ok {
				res.Violate("C11", size, "receive log of size %d: error %v", size, err)
			}
		}
		res.Case("sizes", nil)
		return
	}
	if i%2 == 1 {
		nackPairs(rng, i)
		return
	}
	bits := 6 + rng.Intn(9)
	if rng.Intn(2) == 0 {
		bits = 10 // the one in use
	}
	size := int64(1) << bits
	rl, err := utils.NewReceiveLog(uint16(size))
	if err != nil {
		res.Violate("C11", i, "size %d refused: %v", size, err)
		return
	}
	start := startSeq(rng)
	n := 1500 + rng.Intn(1500)
	if rng.Intn(4) == 0 {
		n = 70000 / (1 + rng.Intn(3))
	}
	as, mode := arrivals(rng, start+65536*4, n, rng.Intn(3) > 0)
	if len(as) == 0 {
		return
	}
	known := map[int64]bool{} // received or given up
	first, end := as[0], as[0]
	checks, reported, givenup, late := 0, 0, 0, 0
	// Reported earlier
	var listed []int64
	fail := func(k int, format string, a ...interface{}) {
		lo := max(0, k-8)
		var tail []uint16
		for _, s := range as[lo : k+1] {
			tail = append(tail, uint16(s))
		}
		res.Violate("C11", map[string]interface{}{"case": i, "size": size, "mode": mode, "last_arrivals": tail},
			"case %d (%s, size %d) #%d: %s", i, mode, size, k, fmt.Sprintf(format, a...))
	}
	every := 1 + rng.Intn(12) + int(size)/100
	// What cannot be told apart from a newer packet is out of scope
	for k, s := range as {
		if end-s >= 32768 || s-end >= 32768 {
			continue
		}
		rl.Add(uint16(s))
		if k == 0 {
			known[s] = true
		} else if s > end {
			end = s
			known[s] = true
		} else if end-s < size {
			known[s] = true
			late++
		}
		if k%every != 0 {
			continue
		}
		for _, skip := range []int64{10, 0, int64(rng.Intn(int(size) + 10))}[:2+k%2] {
			got := rl.MissingSeqNumbers(uint16(skip))
			checks++
			var want []uint16
			lo := max(first, end-size)
			for q := lo + 1; q <= end-skip; q++ {
				if !known[q] && end-q < size {
					want = append(want, uint16(q))
				}
			}
			reported += len(want)
			if !same(got, want) {
				fail(k, "missing (but for the last %d): reported %s, are %s; newest %d; wrong: %s", skip, brief(got), brief(want), end, brief(diff(got, want)))
				return
			}
			if skip == 10 && len(got) > 0 && rng.Intn(3) == 0 {
				g := got[rng.Intn(len(got))]
				rl.IgnoreSeqNum(g)
				known[end-int64(uint16(end)-g)] = true
				givenup++
			}
			// More packets may have come since the list was made, even more than
			// there is room for
			if len(listed) > 0 && rng.Intn(6) == 0 {
				if q := listed[rng.Intn(len(listed))]; end-q < 32768 {
					rl.IgnoreSeqNum(uint16(q))
					if end-q < size {
						known[q] = true
					}
					givenup++
				}
			}
			if skip == 10 && (len(listed) == 0 || rng.Intn(8) == 0) {
				for _, g := range got {
					listed = append(listed, end-int64(uint16(end)-g))
				}
				listed = listed[max(0, len(listed)-50):]
			}
		}
		if rng.Intn(4) == 0 {
			q := end + 40 - int64(rng.Intn(int(size)+80))
			got := rl.Get(uint16(q))
			want := q <= end && end-q < size && known[q]
			if q >= first && end-q < 32768 && got != want {
				fail(k, "Get(%d) is %v, newest %d", uint16(q), got, uint16(end))
				return
			}
		}
	}
	res.Count("arrivals", int64(len(as)))
	res.Count("missing_lists", int64(checks))
	res.Count("missing_numbers", int64(reported))
	res.Count("given_up", int64(givenup))
	res.Count("late", int64(late))
	sig := ""
	if reported > 0 {
		sig = fmt.Sprint("rl", i, size, mode, reported)
	}
	res.Case(sig, map[string]interface{}{"size": size, "mode": mode, "start": uint16(start), "arrivals": len(as), "lists": checks, "missing": reported, "given_up": givenup})
}

func same(a, b []uint16) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// diff returns what is in one of them only
func diff(a, b []uint16) []uint16 {
	n := map[uint16]int{}
	for _, x := range a {
		n[x]++
	}
	for _, x := range b {
		n[x]--
	}
	var d []uint16
	for x, k := range n {
		if k != 0 {
			d = append(d, x)
		}
	}
	sort.Slice(d, func(i, j int) bool { return d[i] < d[j] })
	return d
}

func brief(a []uint16) string {
	if len(a) > 12 {
		return fmt.Sprintf("%v... (%d)", a[:12], len(a))
	}
	return fmt.Sprint(a)
}

func nackPairs(rng *rand.Rand, i int) {
	for k := 0; k < 200; k++ {
		n := rng.Intn(60)
		s := uint16(startSeq(rng))
		var list []uint16
		total := 0
		for j := 0; j < n; j++ {
			list = append(list, s)
			step := 1
			switch rng.Intn(6) {
			case 0:
				step = 1 + rng.Intn(18)
			case 1:
				step = 15 + rng.Intn(4)
			case 2:
				step = 1 + rng.Intn(1000)
			}
			if total += step; total > 65000 {
				break
			}
			s += uint16(step)
		}
		pairs := utils.NackPairs(list)
		// By the definition of the message (RFC 4585 6.2.1), not by this repository's
		var named []uint16
		for _, p := range pairs {
			named = append(named, p.PacketID)
			for b := uint16(0); b < 16; b++ {
				if uint16(p.LostPackets)&(1<<b) != 0 {
					named = append(named, p.PacketID+b+1)
				}
			}
		}
		if !same(named, list) {
			res.Violate("C11", list, "case %d: the NACK for %s names %s", i, brief(list), brief(named))
			return
		}
		if back := utils.NackPairsToSequenceNumbers(pairs); !same(back, list) {
			res.Violate("C11", list, "case %d: the NACK for %s is read back as %s", i, brief(list), brief(back))
			return
		}
		if len(pairs) > 0 {
			// It must survive the wire
			raw, err := (&rtcp.TransportLayerNack{Nacks: pairs}).Marshal()
			if err == nil {
				var m rtcp.TransportLayerNack
				if m.Unmarshal(raw) != nil || len(m.Nacks) != len(pairs) {
					res.Violate("C11", list, "case %d: NACK does not survive the wire", i)
				}
			}
		}
		res.Count("nack_lists", 1)
		res.Count("nack_numbers", int64(len(list)))
	}
	res.Case(fmt.Sprint("pairs", i), nil)
}

// ---- C10: jitter buffer

func jitter(t *testing.T, rng *rand.Rand, i int) {
	synctest.Test(t, func(t *testing.T) { jitterCase(rng, i) })
}

func jitterCase(rng *rand.Rand, i int) {
	sizes := []int64{4, 8, 16, 17, 50, 64, 100, 256, 512, 1000, 1024}
	size := sizes[rng.Intn(len(sizes))]
	timeout := time.Duration([]int{0, 1, 40, 200, 200, 1000, 60000}[rng.Intn(7)]) * time.Millisecond
	jb := utils.NewJitterBuffer(uint16(size), uint16(timeout/time.Millisecond), context.Background())
	start := startSeq(rng)
	// As the caller does: numbers are unwrapped, starting one cycle up
	as, mode := arrivals(rng, start+65536, 400+rng.Intn(1200), rng.Intn(2) == 0)
	if len(as) == 0 {
		return
	}
	if rng.Intn(8) == 0 {
		// Not one cycle up: starts at 0 as well
		for k := range as {
			as[k] -= 65536
		}
		if as[0] < 0 {
			return
		}
	}
	useSkip := rng.Intn(2) == 0
	advance := []time.Duration{0, time.Millisecond, 5 * time.Millisecond, 20 * time.Millisecond}[rng.Intn(4)]

	type pk struct {
		p  *rtp.Packet
		at time.Time
	}
	buf := map[int64]pk{} // what the model has
	started := false
	var next, newest int64
	// When the buffer could, and must, know that the next one is missing
	earliest, latest := map[int64]time.Time{}, map[int64]time.Time{}
	noticed := func() {
		if _, ok := buf[next]; !ok && next <= newest {
			if _, ok := earliest[next]; !ok {
				earliest[next] = time.Now()
			}
		}
	}
	outN, dropped, timeouts, skips, overflows, lateN, dupN := 0, 0, 0, 0, 0, 0, 0
	last := int64(-1)
	handed := map[int64]bool{}
	var trace []string
	fail := func(format string, a ...interface{}) {
		lo := max(0, len(trace)-12)
		res.Violate("C10", map[string]interface{}{"case": i, "size": size, "timeout_ms": timeout.Milliseconds(), "mode": mode, "last_steps": trace[lo:]},
			"case %d (%s, size %d, timeout %v): %s", i, mode, size, timeout, fmt.Sprintf(format, a...))
	}
	skippedSeq := map[int64]bool{}
	slide := func() {
		if lo := newest - size + 1; next < lo {
			for s := next; s < lo && s < next+4*size; s++ {
				if _, ok := buf[s]; ok {
					delete(buf, s)
					dropped++
				}
			}
			if lo-next > 4*size {
				for s := range buf {
					if s < lo {
						delete(buf, s)
					}
				}
			}
			next = lo
			overflows++
		}
	}
	pop := func() bool {
		now := time.Now()
		pkts, _ := jb.NextPackets()
		// What may come out: walk as the model allows
		for _, p := range pkts {
			seq := int64(p.Timestamp) // its unwrapped number
			if handed[seq] || seq <= last && last >= 0 {
				fail("%d handed over after %d", seq, last)
				return false
			}
			b, ok := buf[seq]
			if !ok || b.p != p {
				fail("%d was handed over, but it was not in the buffer", seq)
				return false
			}
			if string(p.Payload) != fmt.Sprint("payload ", seq) {
				fail("%d was altered", seq)
				return false
			}
			for s := next; s < seq; s++ {
				if _, ok := buf[s]; ok {
					fail("%d was handed over before %d, which is available", seq, s)
					return false
				}
				if skippedSeq[s] {
					continue
				}
				since, ok := earliest[s]
				if !ok {
					// It became the next one within this call
					since, ok = now, true
				}
				if now.Sub(since) < timeout {
					fail("%d was handed over without waiting for %d (waited for %v)", seq, s, now.Sub(since))
					return false
				}
				timeouts++
			}
			delete(buf, seq)
			handed[seq] = true
			last = seq
			next = seq + 1
			outN++
		}
		// What must have come out by now
		for next <= newest {
			if _, ok := buf[next]; ok {
				fail("%d is available and everything before it is settled, but it was not handed over", next)
				return false
			}
			if skippedSeq[next] {
				if len(pkts) > 0 {
					break // handed over what was before it; the next call goes on
				}
				next++
				continue
			}
			since, ok := latest[next]
			if !ok {
				if len(pkts) == 0 {
					latest[next] = now
				}
				break
			}
			if now.Sub(since) < timeout {
				break
			}
			// Timed out as well: the buffer moved on (the ones after it were checked)
			next++
			timeouts++
		}
		noticed()
		return true
	}
	for k, s := range as {
		time.Sleep(time.Duration(rng.Int63n(int64(advance) + 1)))
		if rng.Intn(400) == 0 {
			time.Sleep(timeout)
		}
		p := &rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(s), Timestamp: uint32(s)}, Payload: []byte(fmt.Sprint("payload ", s))}
		ok := jb.Add(s, p)
		trace = append(trace, fmt.Sprint("add ", s))
		// The model
		want := true
		switch {
		case !started:
			started = true
			next, newest = s, s
			buf[s] = pk{p, time.Now()}
		case newest-s >= size:
			want = false
			lateN++
		case s < next:
			// After its turn. It may be accepted, but not handed over
			want = ok
			lateN++
		default:
			if _, dup := buf[s]; dup {
				want = false
				dupN++
				break
			}
			buf[s] = pk{p, time.Now()}
			if s > newest {
				newest = s
				slide()
				noticed()
			}
		}
		if ok != want && !(handed[s]) {
			fail("#%d adding %d (newest %d, next %d) returned %v", k, s, newest, next, ok)
			return
		}
		if rng.Intn(10) > 0 {
			trace = append(trace, "next")
			if !pop() {
				return
			}
		}
		if useSkip && rng.Intn(12) == 0 && next <= newest {
			// The NACK loop gives up on one which is missing
			q := next
			if rng.Intn(3) == 0 {
				q = next + int64(rng.Intn(8))
			}
			if _, have := buf[q]; !have && q <= newest {
				trace = append(trace, fmt.Sprint("skip ", q))
				jb.SkipPacket(q)
				skippedSeq[q] = true
				skips++
				if q == next {
					next++
					noticed()
				}
			}
		}
		if rng.Intn(300) == 0 {
			if got := jb.GetNextStart(); got < 0 || got > newest+1 {
				fail("the next one is %d, newest %d", got, newest)
				return
			}
		}
	}
	// Never stall for good: whatever is missing times out
	for k := 0; k < 3*int(size)+10 && next <= newest; k++ {
		time.Sleep(timeout + time.Millisecond)
		if !pop() {
			return
		}
	}
	if next <= newest {
		fail("stalled at %d, newest %d", next, newest)
		return
	}
	for s := range buf {
		if s >= next {
			fail("%d was never handed over", s)
			return
		}
	}
	res.Count("packets_added", int64(len(as)))
	res.Count("packets_handed_over", int64(outN))
	res.Count("dropped_by_overflow", int64(dropped))
	res.Count("overflows", int64(overflows))
	res.Count("timeouts", int64(timeouts))
	res.Count("skips", int64(skips))
	res.Count("late", int64(lateN))
	res.Count("duplicates", int64(dupN))
	sig := ""
	if timeouts+skips+overflows+lateN+dupN > 0 {
		sig = fmt.Sprint(i, size, timeout, mode, outN, timeouts, skips)
	}
	res.Case(sig, map[string]interface{}{"size": size, "timeout_ms": timeout.Milliseconds(), "mode": mode, "start": uint16(start),
		"added": len(as), "handed_over": outN, "timeouts": timeouts, "skips": skips, "overflow_drops": dropped})
}
