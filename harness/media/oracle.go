package media

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

// Class says whether a frame has to be in a recording
type Class int

const (
	MustNot Class = iota
	May
	Must
)

// Report takes a violation: the properties which it breaks (separated by
// commas) and what was observed
type Report func(props, format string, args ...interface{})

// TrackExpect is what is known about one track of a recording
type TrackExpect struct {
	Kind  string // "video" or "audio"
	Sent  []*Frame
	Class func(*Frame) Class
	// Properties broken by frames which are missing, or should not be there
	Missing, Extra string
	// Ticks per millisecond
	Clock int64
	// Time of the first block, if known
	First    func(*Frame) (lo, hi int64, ok bool)
	FirstTag string
	// Properties broken by a wrong time (C15 by default)
	TimeTag string
	// Blocks which are not frames that were sent are not looked at (the stream
	// had contents of unknown meaning)
	AnyContents bool
}

// CheckTrack compares the blocks of a track with what was sent, and returns the
// frames it contains
func CheckTrack(rep Report, e TrackExpect, blocks []Block) []*Frame {
	byData := make(map[string]*Frame, len(e.Sent))
	for _, f := range e.Sent {
		byData[string(f.Data)] = f
	}
	var got []*Frame
	var times []int64
	seen := map[*Frame]bool{}
	lastIdx := -1
	lastTime := int64(-1)
	for i, b := range blocks {
		if b.Time < lastTime {
			rep("C15,C17", "%s block %d at %d ms follows one at %d ms", e.Kind, i, b.Time, lastTime)
		}
		lastTime = b.Time
		f := byData[string(b.Data)]
		if f == nil {
			if !e.AnyContents {
				rep("C12", "%s block %d (%d bytes, %d ms) is not a frame which was sent: %s", e.Kind, i, len(b.Data), b.Time, explain(e, b.Data))
			}
			continue
		}
		if seen[f] {
			rep("C12", "%s frame %d is there twice", e.Kind, f.Idx)
			continue
		}
		seen[f] = true
		if f.Idx < lastIdx {
			rep("C12", "%s frame %d follows frame %d", e.Kind, f.Idx, lastIdx)
		}
		lastIdx = f.Idx
		if b.Key != f.Key {
			rep("C17", "%s frame %d is flagged as keyframe: %v, it is one: %v", e.Kind, f.Idx, b.Key, f.Key)
		}
		got = append(got, f)
		times = append(times, b.Time)
	}
	if e.Kind == "video" && len(got) > 0 && !got[0].Key && !e.AnyContents {
		rep("C17,C14", "the first video frame (%d) is not a keyframe", got[0].Idx)
	}
	var missing, extra []int
	for _, f := range e.Sent {
		switch c := e.Class(f); {
		case c == Must && !seen[f]:
			missing = append(missing, f.Idx)
		case c == MustNot && seen[f]:
			extra = append(extra, f.Idx)
		}
	}
	if len(missing) > 0 {
		rep(e.Missing, "%d %s frames are missing: %v (%d of %d are there)", len(missing), e.Kind, ranges(missing), len(got), len(e.Sent))
	}
	if len(extra) > 0 {
		rep(e.Extra, "%d %s frames are there which should not be: %v", len(extra), e.Kind, ranges(extra))
	}
	if len(got) == 0 {
		return nil
	}
	if e.First != nil {
		if lo, hi, ok := e.First(got[0]); ok && (times[0] < lo || times[0] > hi) {
			tag := e.FirstTag
			if tag == "" {
				tag = "C16"
			}
			rep(tag, "the first %s frame (%d) is at %d ms, not between %d and %d ms", e.Kind, got[0].Idx, times[0], lo, hi)
		}
	}
	tag := e.TimeTag
	if tag == "" {
		tag = "C15"
	}
	bad := 0
	base := 0
	for i, f := range got {
		if i > 0 && f.Ticks-got[i-1].Ticks >= 1<<32 {
			// RTP timestamps do not tell how many times they wrapped around
			base = i
		}
		want := float64(f.Ticks-got[base].Ticks) / float64(e.Clock)
		have := float64(times[i] - times[base])
		// Each frame's time is truncated to ns
		tol := 1.01 + float64(f.Idx)*2e-6
		if d := have - want; d > tol || d < -tol {
			if bad == 0 {
				rep(tag, "%s frame %d is %.0f ms after the first recorded one (%d), by its RTP timestamp it is %.2f ms", e.Kind, f.Idx, have, got[base].Idx, want)
			}
			bad++
		}
	}
	return got
}

func ranges(v []int) string {
	s := ""
	n := 0
	for i := 0; i < len(v); {
		j := i
		for j+1 < len(v) && v[j+1] == v[j]+1 {
			j++
		}
		if n++; n > 8 {
			return s + "..."
		}
		if s != "" {
			s += " "
		}
		if i == j {
			s += fmt.Sprint(v[i])
		} else {
			s += fmt.Sprintf("%d-%d", v[i], v[j])
		}
		i = j + 1
	}
	return s
}

// explain tells what a block which is no frame looks like
func explain(e TrackExpect, d []byte) string {
	for _, f := range e.Sent {
		n := len(d)
		if len(f.Data) < n {
			n = len(f.Data)
		}
		k := 0
		for k < n && d[k] == f.Data[k] {
			k++
		}
		if k >= 12 {
			return fmt.Sprintf("equal to frame %d (%d bytes, %d packets) up to byte %d", f.Idx, len(f.Data), len(f.Pkts), k)
		}
		if len(d) > 20 && bytes.Contains(f.Data, d) {
			return fmt.Sprintf("a part of frame %d", f.Idx)
		}
	}
	if len(d) > 16 {
		d = d[:16]
	}
	return fmt.Sprintf("starts with %x", d)
}

// CheckFile checks what any finalised recording has to be
func CheckFile(rep Report, f *File, hasVideo, hasAudio bool, finalised bool) {
	for _, p := range f.Problems {
		rep("C17", "not a valid WebM file: %s", p)
	}
	if f.Truncated && finalised {
		rep("C17,C03", "the file ends in the middle of an element")
	}
	if len(f.Problems) > 0 {
		return
	}
	if f.DocType != "webm" && !(f.Truncated && f.DocType == "") {
		rep("C17", "the document type is %q", f.DocType)
	}
	if !f.HasInfo {
		if !f.Truncated {
			rep("C17", "there is no segment information")
		}
		return
	}
	if f.Scale != 1000000 {
		rep("C17", "the time scale is %d", f.Scale)
	}
	if len(f.Tracks) == 0 && f.Truncated {
		return
	}
	nv, na := 0, 0
	numbers, uids := map[uint64]bool{}, map[uint64]bool{}
	for _, t := range f.Tracks {
		if uids[t.UID] || t.UID == 0 {
			rep("C17", "the track UID %d is not unique", t.UID)
		}
		uids[t.UID] = true
		if numbers[t.Number] || t.Number == 0 {
			rep("C17", "track number %d is not unique", t.Number)
		}
		numbers[t.Number] = true
		switch t.Type {
		case 1:
			nv++
			if t.Codec != "V_VP8" {
				rep("C17", "the video codec is %q", t.Codec)
			}
		case 2:
			na++
			if t.Codec != "A_OPUS" || t.Rate != 48000 || t.Channels != 2 {
				rep("C17", "the audio track is %q at %v Hz with %d channels", t.Codec, t.Rate, t.Channels)
			}
		default:
			rep("C17", "track of type %d", t.Type)
		}
	}
	b2i := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	if nv != b2i(hasVideo) || na != b2i(hasAudio) {
		rep("C17", "there are %d video and %d audio tracks, expected %d and %d", nv, na, b2i(hasVideo), b2i(hasAudio))
	}
}

// CheckDims checks the dimensions which the file declares
func CheckDims(rep Report, f *File, first *Frame) {
	if t := f.Video(); t != nil && first != nil && first.Key && (int(t.W) != first.W || int(t.H) != first.H) {
		rep("C17", "the video track is %dx%d, the keyframe it starts with is %dx%d", t.W, t.H, first.W, first.H)
	}
}

// CheckIVF compares an IVF copy with the recording's video
func CheckIVF(rep Report, v *IVF, frames []*Frame, blocks []Block) {
	if v.Problem != "" {
		rep("C19", "not a valid IVF file: %s", v.Problem)
		return
	}
	if v.FourCC != "VP80" {
		rep("C19", "the IVF format is %q", v.FourCC)
	}
	if v.Den != 90000 || v.Num != 1 {
		rep("C19", "the IVF time base is %d/%d", v.Num, v.Den)
	}
	if len(v.Frames) != len(blocks) {
		rep("C19", "the IVF copy has %d frames, the recording has %d", len(v.Frames), len(blocks))
	}
	if int(v.Count) != len(v.Frames) {
		rep("C19", "the IVF header says %d frames, there are %d", v.Count, len(v.Frames))
	}
	for i := range v.Frames {
		if i >= len(blocks) {
			break
		}
		if !bytes.Equal(v.Frames[i], blocks[i].Data) {
			rep("C19", "frame %d of the IVF copy is not the recording's", i)
			return
		}
		if i < len(frames) && bytes.Equal(frames[i].Data, v.Frames[i]) && v.Times[i] != uint64(frames[i].TS) {
			rep("C19", "frame %d of the IVF copy is at %d, its RTP timestamp is %d", i, v.Times[i], frames[i].TS)
			return
		}
	}
	// Dimensions: those of the last keyframe
	var last []byte
	for _, d := range v.Frames {
		if len(d) >= 10 && d[0]&1 == 0 {
			last = d
		}
	}
	if last == nil {
		return
	}
	w, h := binary.LittleEndian.Uint16(last[6:])&0x3FFF, binary.LittleEndian.Uint16(last[8:])&0x3FFF
	if v.W != w || v.H != h {
		rep("C19", "the header of the IVF copy says %dx%d, its last keyframe is %dx%d", v.W, v.H, w, h)
	}
}

// VideoModel is the reference for the default sample builder: given which
// packets get to it (in order), which frames get recorded
type VideoModel struct {
	recording bool
	prev      int // last frame looked at
	started   bool
}

// Step tells whether a complete frame is recorded. broken: a packet of a frame
// between this and the last complete one did not arrive; padLost: only padding
// between them did not.
func (m *VideoModel) Step(f *Frame, broken, padLost bool) bool {
	if broken || f.Skip {
		m.recording = false
	}
	if padLost && !f.Key && f.PID < 0 {
		m.recording = false
	}
	if !m.recording && f.Key {
		m.recording = true
	}
	return m.recording
}
func (m *VideoModel) Recording() bool { return m.recording }
func (m *VideoModel) Lose()           { m.recording = false }
