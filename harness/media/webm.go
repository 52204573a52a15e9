package media

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
)

type Track struct {
	Number, Type, UID uint64
	Codec             string
	W, H              uint64
	Rate              float64
	Channels          uint64
}

type Block struct {
	Track uint64
	Time  int64 // ms since the beginning of the file
	Key   bool
	Data  []byte
}

type File struct {
	DocType   string
	Scale     uint64
	HasInfo   bool
	Tracks    []Track
	Blocks    []Block
	Clusters  int
	Truncated bool // ends in the middle of an element
	Size      int
	Problems  []string
}

func (f *File) problem(format string, a ...interface{}) {
	if len(f.Problems) < 10 {
		f.Problems = append(f.Problems, fmt.Sprintf(format, a...))
	}
}

func (f *File) Video() *Track { return f.track(1) }
func (f *File) Audio() *Track { return f.track(2) }
func (f *File) track(t uint64) *Track {
	for i := range f.Tracks {
		if f.Tracks[i].Type == t {
			return &f.Tracks[i]
		}
	}
	return nil
}

// Of returns the blocks of the (first) track of that type
func (f *File) Of(typ uint64) []Block {
	t := f.track(typ)
	if t == nil {
		return nil
	}
	var bs []Block
	for _, b := range f.Blocks {
		if b.Track == t.Number {
			bs = append(bs, b)
		}
	}
	return bs
}
func (f *File) VideoBlocks() []Block { return f.Of(1) }
func (f *File) AudioBlocks() []Block { return f.Of(2) }

// LastTime is the time of the last block of any track, 0 if there is none
func (f *File) LastTime() int64 {
	last := int64(0)
	for _, b := range f.Blocks {
		if b.Time > last {
			last = b.Time
		}
	}
	return last
}

const (
	idEBML        = 0x1A45DFA3
	idDocType     = 0x4282
	idSegment     = 0x18538067
	idInfo        = 0x1549A966
	idScale       = 0x2AD7B1
	idTracks      = 0x1654AE6B
	idTrackEntry  = 0xAE
	idCluster     = 0x1F43B675
	idTimecode    = 0xE7
	idSimpleBlock = 0xA3
	idBlockGroup  = 0xA0
	idVoid        = 0xEC
	idCRC         = 0xBF
	idSeekHead    = 0x114D9B74
	idCues        = 0x1C53BB6B
	idTags        = 0x1254C367
)

const unknown = math.MaxInt64

type cursor struct {
	b   []byte
	pos int
}

func (c *cursor) id() (uint32, bool) {
	if c.pos >= len(c.b) {
		return 0, false
	}
	b0 := c.b[c.pos]
	n := 1
	for m := byte(0x80); n <= 4 && b0&m == 0; n++ {
		m >>= 1
	}
	if n > 4 || c.pos+n > len(c.b) {
		return 0, false
	}
	v := uint32(0)
	for i := 0; i < n; i++ {
		v = v<<8 | uint32(c.b[c.pos+i])
	}
	c.pos += n
	return v, true
}

func (c *cursor) size() (int64, bool) {
	if c.pos >= len(c.b) {
		return 0, false
	}
	b0 := c.b[c.pos]
	if b0 == 0 {
		return 0, false
	}
	n := 1
	m := byte(0x80)
	for b0&m == 0 {
		m >>= 1
		n++
	}
	if c.pos+n > len(c.b) {
		return 0, false
	}
	v := uint64(b0 &^ m)
	all := b0|m == 0xFF>>(n-1) && b0&^m == m-1
	for i := 1; i < n; i++ {
		v = v<<8 | uint64(c.b[c.pos+i])
		all = all && c.b[c.pos+i] == 0xFF
	}
	c.pos += n
	if all {
		return unknown, true
	}
	if v > 1<<40 {
		return 0, false
	}
	return int64(v), true
}

func be(b []byte) uint64 {
	v := uint64(0)
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func ParseFile(path string) (*File, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return Parse(b), nil
}

// Parse reads a WebM file. A file which ends in the middle of an element is
// reported as truncated, with everything before that element.
func Parse(b []byte) *File {
	f := &File{Size: len(b)}
	c := &cursor{b: b}
	id, ok := c.id()
	if !ok || id != idEBML {
		if len(b) < 4 {
			f.Truncated = true
		} else {
			f.problem("no EBML header")
		}
		return f
	}
	n, ok := c.size()
	if !ok || n == unknown || c.pos+int(n) > len(b) {
		f.Truncated = true
		return f
	}
	f.header(b[c.pos : c.pos+int(n)])
	c.pos += int(n)
	if c.pos == len(b) {
		f.Truncated = true
		return f
	}
	id, ok = c.id()
	if !ok {
		f.Truncated = true
		return f
	}
	if id != idSegment {
		f.problem("no segment after the header: %x", id)
		return f
	}
	n, ok = c.size()
	if !ok {
		f.Truncated = true
		return f
	}
	end := len(b)
	if n != unknown {
		if c.pos+int(n) > len(b) {
			f.Truncated = true
		} else {
			end = c.pos + int(n)
			if end != len(b) {
				f.problem("data after the segment")
			}
		}
	}
	f.segment(b[:end], c.pos)
	return f
}

func (f *File) header(b []byte) {
	c := &cursor{b: b}
	for c.pos < len(b) {
		id, ok1 := c.id()
		n, ok2 := c.size()
		if !ok1 || !ok2 || n == unknown || c.pos+int(n) > len(b) {
			f.problem("malformed header")
			return
		}
		if id == idDocType {
			f.DocType = string(b[c.pos : c.pos+int(n)])
		}
		c.pos += int(n)
	}
}

func (f *File) segment(b []byte, pos int) {
	c := &cursor{b: b, pos: pos}
	clusterTime := int64(-1)
	clusterEnd := -1 // end of the current cluster, if known
	inCluster := false
	for c.pos < len(b) {
		if inCluster && clusterEnd >= 0 && c.pos >= clusterEnd {
			inCluster = false
		}
		start := c.pos
		id, ok1 := c.id()
		if !ok1 {
			if len(b)-start < 4 {
				f.Truncated = true
			} else {
				f.problem("invalid element id at %d", start)
			}
			return
		}
		n, ok2 := c.size()
		if !ok2 {
			if len(b)-start < 12 {
				f.Truncated = true
			} else {
				f.problem("invalid element size at %d", start)
			}
			return
		}
		if id == idCluster {
			f.Clusters++
			inCluster = true
			clusterTime = -1
			clusterEnd = -1
			if n != unknown {
				clusterEnd = c.pos + int(n)
			}
			if len(f.Tracks) == 0 {
				f.problem("cluster before tracks")
			}
			continue
		}
		if n == unknown {
			f.problem("element %x of unknown size at %d", id, start)
			return
		}
		if c.pos+int(n) > len(b) {
			f.Truncated = true
			return
		}
		d := b[c.pos : c.pos+int(n)]
		c.pos += int(n)
		switch id {
		case idInfo:
			f.HasInfo = true
			f.Scale = 1000000
			ic := &cursor{b: d}
			for ic.pos < len(d) {
				iid, ok1 := ic.id()
				in, ok2 := ic.size()
				if !ok1 || !ok2 || in == unknown || ic.pos+int(in) > len(d) {
					f.problem("malformed segment information")
					return
				}
				if iid == idScale {
					f.Scale = be(d[ic.pos : ic.pos+int(in)])
				}
				ic.pos += int(in)
			}
		case idTracks:
			if len(f.Tracks) > 0 {
				f.problem("several track lists")
			}
			f.tracks(d)
		case idTimecode:
			if !inCluster {
				f.problem("timecode outside of a cluster")
				return
			}
			clusterTime = int64(be(d))
		case idSimpleBlock:
			if !inCluster || clusterTime < 0 {
				f.problem("block without cluster time at %d", start)
				return
			}
			f.block(d, clusterTime, start)
		case idVoid, idCRC, idSeekHead, idCues, idTags, 0xA7, 0xAB: // position, previous size
		default:
			f.problem("unexpected element %x at %d", id, start)
			return
		}
	}
}

func (f *File) block(d []byte, clusterTime int64, pos int) {
	c := &cursor{b: d}
	t, ok := c.size()
	if !ok || t == unknown || c.pos+3 > len(d) {
		f.problem("malformed block at %d", pos)
		return
	}
	rel := int16(binary.BigEndian.Uint16(d[c.pos:]))
	flags := d[c.pos+2]
	if flags&0x06 != 0 {
		f.problem("block with lacing at %d", pos)
		return
	}
	known := false
	for _, tr := range f.Tracks {
		known = known || tr.Number == uint64(t)
	}
	if !known {
		f.problem("block of undeclared track %d at %d", t, pos)
	}
	scale := int64(f.Scale)
	if scale == 0 {
		scale = 1000000
	}
	f.Blocks = append(f.Blocks, Block{
		Track: uint64(t),
		Time:  (clusterTime + int64(rel)) * scale / 1000000,
		Key:   flags&0x80 != 0,
		Data:  d[c.pos+3:],
	})
}

func (f *File) tracks(b []byte) {
	c := &cursor{b: b}
	for c.pos < len(b) {
		id, ok1 := c.id()
		n, ok2 := c.size()
		if !ok1 || !ok2 || n == unknown || c.pos+int(n) > len(b) {
			f.problem("malformed track list")
			return
		}
		if id == idTrackEntry {
			var t Track
			t.Channels = 1
			f.trackEntry(b[c.pos:c.pos+int(n)], &t)
			f.Tracks = append(f.Tracks, t)
		}
		c.pos += int(n)
	}
}

func (f *File) trackEntry(b []byte, t *Track) {
	c := &cursor{b: b}
	for c.pos < len(b) {
		id, ok1 := c.id()
		n, ok2 := c.size()
		if !ok1 || !ok2 || n == unknown || c.pos+int(n) > len(b) {
			f.problem("malformed track entry")
			return
		}
		d := b[c.pos : c.pos+int(n)]
		switch id {
		case 0xD7:
			t.Number = be(d)
		case 0x73C5:
			t.UID = be(d)
		case 0x83:
			t.Type = be(d)
		case 0x86:
			t.Codec = string(d)
		case 0xE0, 0xE1:
			f.trackEntry(d, t)
		case 0xB0:
			t.W = be(d)
		case 0xBA:
			t.H = be(d)
		case 0xB5:
			if len(d) == 4 {
				t.Rate = float64(math.Float32frombits(uint32(be(d))))
			} else if len(d) == 8 {
				t.Rate = math.Float64frombits(be(d))
			}
		case 0x9F:
			t.Channels = be(d)
		}
		c.pos += int(n)
	}
}

// IVF is a parsed IVF file
type IVF struct {
	FourCC   string
	W, H     uint16
	Den, Num uint32
	Count    uint32
	Times    []uint64
	Frames   [][]byte
	Problem  string
}

func ParseIVF(path string) (*IVF, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	v := &IVF{}
	if len(b) < 32 || string(b[:4]) != "DKIF" || binary.LittleEndian.Uint16(b[4:]) != 0 || binary.LittleEndian.Uint16(b[6:]) != 32 {
		v.Problem = "no valid header"
		return v, nil
	}
	v.FourCC = string(b[8:12])
	v.W, v.H = binary.LittleEndian.Uint16(b[12:]), binary.LittleEndian.Uint16(b[14:])
	v.Den, v.Num = binary.LittleEndian.Uint32(b[16:]), binary.LittleEndian.Uint32(b[20:])
	v.Count = binary.LittleEndian.Uint32(b[24:])
	for p := 32; p < len(b); {
		if p+12 > len(b) {
			v.Problem = "truncated frame header"
			break
		}
		n := int(binary.LittleEndian.Uint32(b[p:]))
		ts := binary.LittleEndian.Uint64(b[p+4:])
		p += 12
		if p+n > len(b) {
			v.Problem = "truncated frame"
			break
		}
		v.Times = append(v.Times, ts)
		v.Frames = append(v.Frames, b[p:p+n])
		p += n
	}
	return v, nil
}
