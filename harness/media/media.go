// Package media generates VP8 and Opus RTP streams whose every byte is known,
// reads recordings back with parsers of its own, and has the oracles which
// compare the two. It needs pion/rtp only, because it is shared between the
// driver and the in-package harnesses (through an overlay).
package media

import (
	"encoding/binary"
	"math/rand"

	"github.com/pion/rtp"
)

// Frame is a video frame (or an audio packet) which is sent
type Frame struct {
	Idx  int
	Key  bool
	W, H int
	Data []byte
	TS   uint32
	// Ticks since the first frame of the stream, not wrapped
	Ticks int64
	PID   int  // -1: none
	Skip  bool // its picture id tells that others are missing
	Pkts  []*rtp.Packet
	// Padding packets right before this frame
	Pads []*rtp.Packet
}

// VideoCfg describes a stream. The zero value of a field is its plain variant.
type VideoCfg struct {
	Frames   int
	KeyEvery int // 0: only the first
	KeyProb  float64
	PIDBits  int // 0, 7 or 15
	StartPID int
	StartSeq uint16
	StartTS  uint32
	TSSteps  []uint32 // one of these between frames
	MinSize  int
	MaxSize  int
	KeyScale int // keyframes are that many times bigger
	MinPkt   int
	MaxPkt   int
	Parts    bool // several VP8 partitions
	Extended bool // TL0PICIDX, TID, KEYIDX
	PadProb  float64
	NoSBit   bool
	W, H     int
	VaryDims bool
	SSRC     uint32
	PT       uint8
	FirstIdx int // frames are numbered from here
	Tag      uint32
	Huge     int     // size of one of the frames
	Tiny     float64 // some have 10 bytes
	SkipProb float64 // with 15 bits: picture ids skip
}

// GenVideo generates the frames of a stream
func GenVideo(rng *rand.Rand, c VideoCfg) []*Frame {
	if c.PT == 0 {
		c.PT = 96
	}
	if c.SSRC == 0 {
		c.SSRC = 0x1234
	}
	if c.MinSize == 0 {
		c.MinSize = 20
	}
	if c.MaxSize < c.MinSize {
		c.MaxSize = c.MinSize + 1
	}
	if c.MaxPkt == 0 {
		c.MaxPkt = 1100
	}
	if c.MinPkt == 0 {
		c.MinPkt = c.MaxPkt
	}
	if len(c.TSSteps) == 0 {
		c.TSSteps = []uint32{3000}
	}
	if c.W == 0 {
		c.W, c.H = 640, 480
	}
	if c.KeyScale == 0 {
		c.KeyScale = 1
	}
	seq := c.StartSeq
	ts := c.StartTS
	ticks := int64(0)
	pid := c.StartPID
	w, h := c.W, c.H
	tl0 := uint8(rng.Intn(256))
	var frames []*Frame
	huge := -1
	if c.Huge > 0 {
		huge = rng.Intn(c.Frames)
	}
	tiny := map[string]bool{}
	for i := 0; i < c.Frames; i++ {
		f := &Frame{Idx: c.FirstIdx + i, PID: -1}
		f.Key = i == 0 || (c.KeyEvery > 0 && i%c.KeyEvery == 0) || rng.Float64() < c.KeyProb
		if f.Key && c.VaryDims && i > 0 {
			w, h = 16+rng.Intn(4000), 16+rng.Intn(4000)
			if rng.Intn(8) == 0 {
				w = []int{16, 8192}[rng.Intn(2)]
			}
			if rng.Intn(8) == 0 {
				h = []int{16, 8192}[rng.Intn(2)]
			}
		}
		f.W, f.H = w, h
		if i > 0 {
			step := c.TSSteps[rng.Intn(len(c.TSSteps))]
			ts += step
			ticks += int64(step)
		}
		f.TS, f.Ticks = ts, ticks
		size := c.MinSize + rng.Intn(c.MaxSize-c.MinSize+1)
		if f.Key {
			size *= c.KeyScale
		}
		if i == huge {
			size = c.Huge
		}
		f.Data = VP8Data(rng, f.Key, w, h, size, c.Tag, f.Idx)
		if c.Tiny > 0 && rng.Float64() < c.Tiny && i != huge {
			// The smallest there are
			if d := tinyFrame(rng, f.Key, w, h); !tiny[string(d)] {
				tiny[string(d)] = true
				f.Data = d
			}
		}
		if c.PIDBits == 15 && i > 0 && c.SkipProb > 0 && rng.Float64() < c.SkipProb {
			// Others were dropped on the way by somebody who renumbers packets
			f.Skip = true
			pid += []int{1, 1, 2, 100}[rng.Intn(4)]
		}
		if c.PIDBits > 0 {
			f.PID = pid
			if c.PIDBits == 7 {
				f.PID &= 0x7F
				pid = (pid + 1) & 0x7F
			} else {
				f.PID &= 0x7FFF
				pid = (pid + 1) & 0x7FFF
			}
		}
		if rng.Float64() < c.PadProb && i > 0 {
			for n := 1 + rng.Intn(3); n > 0; n-- {
				f.Pads = append(f.Pads, &rtp.Packet{Header: rtp.Header{
					Version: 2, PayloadType: c.PT, SequenceNumber: seq, SSRC: c.SSRC,
					// Padding repeats the timestamp of the frame before
					Timestamp: frames[i-1].TS,
				}})
				seq++
			}
		}
		tl0++
		f.Pkts = packetize(rng, c, f, &seq, tl0)
		frames = append(frames, f)
	}
	return frames
}

// tinyFrame makes a frame of 10 bytes
func tinyFrame(rng *rand.Rand, key bool, w, h int) []byte {
	d := make([]byte, 10)
	rng.Read(d)
	d[0] |= 1
	if key {
		d[0] &^= 1
		d[3], d[4], d[5] = 0x9d, 0x01, 0x2a
		binary.LittleEndian.PutUint16(d[6:], uint16(w)|uint16(rng.Intn(4))<<14)
		binary.LittleEndian.PutUint16(d[8:], uint16(h)|uint16(rng.Intn(4))<<14)
	}
	return d
}

// VP8Data makes frame contents which are unique by (tag, idx) and look like VP8
func VP8Data(rng *rand.Rand, key bool, w, h, size int, tag uint32, idx int) []byte {
	min := 12
	if key {
		min = 18
	}
	if size < min {
		size = min
	}
	d := make([]byte, size)
	rng.Read(d)
	if key {
		d[0] &^= 1
		d[3], d[4], d[5] = 0x9d, 0x01, 0x2a
		// The upper two bits of each are the scaling
		binary.LittleEndian.PutUint16(d[6:], uint16(w)|uint16(rng.Intn(4))<<14)
		binary.LittleEndian.PutUint16(d[8:], uint16(h)|uint16(rng.Intn(4))<<14)
		binary.BigEndian.PutUint32(d[10:], tag)
		binary.BigEndian.PutUint32(d[14:], uint32(idx))
	} else {
		d[0] |= 1
		binary.BigEndian.PutUint32(d[3:], tag)
		binary.BigEndian.PutUint32(d[7:], uint32(idx))
	}
	return d
}

func packetize(rng *rand.Rand, c VideoCfg, f *Frame, seq *uint16, tl0 uint8) []*rtp.Packet {
	var pkts []*rtp.Packet
	part := uint8(0)
	for off := 0; off < len(f.Data); {
		n := c.MinPkt + rng.Intn(c.MaxPkt-c.MinPkt+1)
		if n < 1 {
			n = 1
		}
		if off+n > len(f.Data) {
			n = len(f.Data) - off
		}
		start := off == 0
		if c.Parts && off > 0 && part < 7 && rng.Intn(3) == 0 {
			part++
			start = true
		}
		var d []byte
		b0 := part & 7
		if start {
			b0 |= 0x10
		}
		if rng.Intn(4) == 0 {
			b0 |= 0x20 // N: non-reference
		}
		ext := byte(0)
		var tail []byte
		if f.PID >= 0 {
			ext |= 0x80
			if c.PIDBits == 7 {
				tail = append(tail, byte(f.PID&0x7F))
			} else {
				tail = append(tail, 0x80|byte(f.PID>>8), byte(f.PID))
			}
		}
		if c.Extended {
			ext |= 0x40 | 0x20 | 0x10
			tail = append(tail, tl0, byte(f.Idx%2)<<6|byte(f.Idx&0x1F))
		}
		if ext != 0 {
			b0 |= 0x80
			d = append(d, b0, ext)
			d = append(d, tail...)
		} else {
			d = append(d, b0)
		}
		d = append(d, f.Data[off:off+n]...)
		off += n
		pkts = append(pkts, &rtp.Packet{
			Header: rtp.Header{
				Version: 2, PayloadType: c.PT, SequenceNumber: *seq, Timestamp: f.TS, SSRC: c.SSRC,
				Marker: off == len(f.Data),
			},
			Payload: d,
		})
		*seq++
	}
	return pkts
}

// AudioCfg describes an Opus stream
type AudioCfg struct {
	Packets  int
	StartSeq uint16
	StartTS  uint32
	TSSteps  []uint32
	MinSize  int
	MaxSize  int
	SSRC     uint32
	PT       uint8
	Tag      uint32
	FirstIdx int
}

func GenAudio(rng *rand.Rand, c AudioCfg) []*Frame {
	if c.PT == 0 {
		c.PT = 111
	}
	if c.SSRC == 0 {
		c.SSRC = 0x5678
	}
	if c.MinSize == 0 {
		c.MinSize = 12
	}
	if c.MaxSize < c.MinSize {
		c.MaxSize = c.MinSize + 100
	}
	if len(c.TSSteps) == 0 {
		c.TSSteps = []uint32{960}
	}
	seq, ts, ticks := c.StartSeq, c.StartTS, int64(0)
	var frames []*Frame
	for i := 0; i < c.Packets; i++ {
		if i > 0 {
			step := c.TSSteps[rng.Intn(len(c.TSSteps))]
			ts += step
			ticks += int64(step)
		}
		d := make([]byte, c.MinSize+rng.Intn(c.MaxSize-c.MinSize+1))
		rng.Read(d)
		d[0] = 0x78
		binary.BigEndian.PutUint32(d[1:], c.Tag)
		binary.BigEndian.PutUint32(d[5:], uint32(c.FirstIdx+i))
		frames = append(frames, &Frame{Idx: c.FirstIdx + i, Key: true, Data: d, TS: ts, Ticks: ticks, PID: -1, Pkts: []*rtp.Packet{{
			Header:  rtp.Header{Version: 2, PayloadType: c.PT, SequenceNumber: seq, Timestamp: ts, SSRC: c.SSRC, Marker: i == 0},
			Payload: d,
		}}})
		seq++
	}
	return frames
}
