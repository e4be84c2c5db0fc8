package props

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"slices"
	"testing/synctest"
	"time"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/webm"
	"pgregory.net/rapid"
)

// C36: what was written to a WebM file is read back by an independent reader.

type c36Frame struct {
	Sz    int `json:"s"`
	Pause int `json:"p,omitempty"` // ms slept before this frame
	Bad   int `json:"b,omitempty"` // generic frames: 1 refuses to serialise, 2 fills less than Size
}

type c36Plan struct {
	Kind  string     `json:"kind"` // opus, pcm, bytes
	Codec string     `json:"codec,omitempty"`
	Rate  int        `json:"rate"`
	Ch    int        `json:"ch"`
	DurUs int        `json:"dur"`
	Slow  int        `json:"slow,omitempty"` // ms each write to the file takes
	Reuse bool       `json:"reuse"`
	Fr    []c36Frame `json:"fr"`
}

type c36File struct {
	buf    []byte
	slow   time.Duration
	closed int
	after  int
}

func (f *c36File) Write(p []byte) (int, error) {
	if f.slow > 0 {
		time.Sleep(f.slow)
	}
	if f.closed > 0 {
		f.after++
	}
	f.buf = append(f.buf, p...)
	return len(p), nil
}

func (f *c36File) Close() error { f.closed++; return nil }

// --- a small EBML reader

type ebmlElem struct {
	id   uint32
	data []byte // nil for elements of unknown size
	unk  bool
}

func ebmlID(b []byte) (uint32, int, error) {
	if len(b) == 0 || b[0] == 0 {
		return 0, 0, errors.New("no element id")
	}
	n := 1
	for m := byte(0x80); b[0]&m == 0; m >>= 1 {
		n++
	}
	if n > 4 || len(b) < n {
		return 0, 0, errors.New("bad element id")
	}
	var v uint32
	for _, c := range b[:n] {
		v = v<<8 | uint32(c)
	}
	return v, n, nil
}

func ebmlSize(b []byte) (v uint64, unk bool, n int, err error) {
	if len(b) == 0 || b[0] == 0 {
		return 0, false, 0, errors.New("bad element size")
	}
	n = 1
	m := byte(0x80)
	for ; b[0]&m == 0; m >>= 1 {
		n++
	}
	if len(b) < n {
		return 0, false, 0, io.ErrUnexpectedEOF
	}
	v = uint64(b[0] &^ m)
	unk = b[0]&^m == m-1
	for _, c := range b[1:n] {
		v = v<<8 | uint64(c)
		unk = unk && c == 0xff
	}
	return v, unk, n, nil
}

// ebmlParse splits b into elements; the children of elements of unknown size
// follow them in the list.
func ebmlParse(b []byte) (out []ebmlElem, err error) {
	for len(b) > 0 {
		id, n, err := ebmlID(b)
		if err != nil {
			return nil, err
		}
		sz, unk, k, err := ebmlSize(b[n:])
		if err != nil {
			return nil, err
		}
		b = b[n+k:]
		if unk {
			out = append(out, ebmlElem{id: id, unk: true})
			continue
		}
		if uint64(len(b)) < sz {
			return nil, fmt.Errorf("element %x of %d bytes, %d left", id, sz, len(b))
		}
		out = append(out, ebmlElem{id: id, data: b[:sz]})
		b = b[sz:]
	}
	return out, nil
}

func ebmlUint(b []byte) (v uint64) {
	for _, c := range b {
		v = v<<8 | uint64(c)
	}
	return v
}

func ebmlFloat(b []byte) float64 {
	switch len(b) {
	case 4:
		return float64(math.Float32frombits(binary.BigEndian.Uint32(b)))
	case 8:
		return math.Float64frombits(binary.BigEndian.Uint64(b))
	}
	return math.NaN()
}

type webmTrack struct {
	num, typ, dur, ch uint64
	codec             string
	freq              float64
}

type webmBlock struct {
	track uint64
	ts    int64
	key   bool
	data  []byte
}

type webmDoc struct {
	doctype string
	scale   uint64
	tracks  []webmTrack
	blocks  []webmBlock
	closers int
	cls     int
}

func webmRead(b []byte) (*webmDoc, error) {
	d := &webmDoc{scale: 1000000}
	var cluster int64
	inCluster := false
	var walk func(b []byte, parent uint32) error
	walk = func(b []byte, parent uint32) error {
		els, err := ebmlParse(b)
		if err != nil {
			return err
		}
		for _, e := range els {
			switch e.id {
			case 0x1A45DFA3, 0x18538067, 0x1549A966, 0x1654AE6B: // EBML, Segment, Info, Tracks
				if !e.unk {
					if err := walk(e.data, e.id); err != nil {
						return err
					}
				}
			case 0x1F43B675: // Cluster
				inCluster = false
				d.cls++
				if !e.unk {
					if err := walk(e.data, e.id); err != nil {
						return err
					}
				}
			case 0x4282:
				d.doctype = string(e.data)
			case 0x2AD7B1:
				d.scale = ebmlUint(e.data)
			case 0xAE:
				d.tracks = append(d.tracks, webmTrack{})
				if err := walk(e.data, e.id); err != nil {
					return err
				}
			case 0xE7:
				cluster = int64(ebmlUint(e.data))
				inCluster = true
			case 0xA3: // SimpleBlock
				if !inCluster {
					return errors.New("a block outside a cluster")
				}
				num, _, n, err := ebmlSize(e.data)
				if err != nil || len(e.data) < n+3 {
					return errors.New("short block")
				}
				fl := e.data[n+2]
				if fl&0x06 != 0 {
					return errors.New("laced block")
				}
				d.blocks = append(d.blocks, webmBlock{
					track: num,
					ts:    cluster + int64(int16(binary.BigEndian.Uint16(e.data[n:]))),
					key:   fl&0x80 != 0,
					data:  e.data[n+3:],
				})
			case 0xA0:
				return errors.New("block group")
			case 0xD7, 0x83, 0x86, 0x23E383, 0xE1, 0xB5, 0x9F:
				if len(d.tracks) == 0 {
					return fmt.Errorf("element %x outside a track", e.id)
				}
				t := &d.tracks[len(d.tracks)-1]
				switch e.id {
				case 0xD7:
					t.num = ebmlUint(e.data)
				case 0x83:
					t.typ = ebmlUint(e.data)
				case 0x86:
					t.codec = string(e.data)
				case 0x23E383:
					t.dur = ebmlUint(e.data)
				case 0xE1:
					if err := walk(e.data, e.id); err != nil {
						return err
					}
				case 0xB5:
					t.freq = ebmlFloat(e.data)
				case 0x9F:
					t.ch = ebmlUint(e.data)
				}
			}
		}
		return nil
	}
	return d, walk(b, 0)
}

func c36Write[T media.Frame](p c36Plan, w media.WriteCloser[T], f *c36File, codec string, mk func(i int) (T, []byte, error), scribble func(T)) Out {
	if r := w.SampleRate(); r != p.Rate {
		return bad("SampleRate()=%d of a writer for %d", r, p.Rate)
	}
	var want [][]byte
	for i, fr := range p.Fr {
		if fr.Pause > 0 {
			time.Sleep(time.Duration(fr.Pause) * time.Millisecond)
		}
		s, b, serr := mk(i)
		err := w.WriteSample(s)
		if !errors.Is(err, serr) {
			return bad("frame %d: error %v, expected %v", i, err, serr)
		}
		if serr == nil {
			want = append(want, b)
		}
		if p.Reuse {
			scribble(s)
		}
	}
	if err := w.Close(); err != nil {
		return bad("Close: %v", err)
	}
	synctest.Wait()
	if f.slow > 0 {
		time.Sleep(time.Minute)
		synctest.Wait()
	}
	if f.closed != 1 || f.after != 0 {
		return bad("the file was closed %d times, %d writes after that", f.closed, f.after)
	}
	d, err := webmRead(f.buf)
	if err != nil {
		return bad("the file does not parse: %v", err)
	}
	if d.doctype != "webm" || d.scale == 0 || len(d.tracks) != 1 {
		return bad("document type %q, time scale %d, %d tracks", d.doctype, d.scale, len(d.tracks))
	}
	t := d.tracks[0]
	if t.typ != 2 || t.codec != codec || t.freq != float64(p.Rate) || t.ch != uint64(p.Ch) || t.dur != uint64(p.DurUs)*1000 {
		return bad("track %+v, expected codec %q, %d Hz, %d channels, %d us", t, codec, p.Rate, p.Ch, p.DurUs)
	}
	if len(d.blocks) != len(want) {
		return bad("%d frames in the file, %d written", len(d.blocks), len(want))
	}
	for i, b := range d.blocks {
		if b.track != t.num || !b.key {
			return bad("frame %d: track %d of %d, key frame %v", i, b.track, t.num, b.key)
		}
		if !slices.Equal(b.data, want[i]) {
			return bad("frame %d: wrong content, %s", i, diffAt(b.data, want[i]))
		}
		// Times have the precision of the container, a millisecond.
		exact := int64(i) * int64(p.DurUs) * 1000
		if at := b.ts * int64(d.scale); at > exact+500_000 || at <= exact-1_000_000 {
			return bad("frame %d is at %v, expected %v", i, time.Duration(at), time.Duration(exact))
		}
	}
	o := Out{NT: len(want) >= 2}.cls(p.Kind)
	if d.cls > 2 {
		o = o.cls("several-clusters")
	}
	if f.slow > 0 {
		o = o.cls("slow-file")
	}
	if slices.ContainsFunc(want, func(b []byte) bool { return len(b) == 0 }) {
		o = o.cls("empty-frame")
	}
	if p.DurUs%1000 != 0 {
		o = o.cls("fractional-duration")
	}
	return o
}

func c36Run(p c36Plan) Out {
	return bubble(func() Out {
		f := &c36File{slow: time.Duration(p.Slow) * time.Millisecond}
		dur := time.Duration(p.DurUs) * time.Microsecond
		switch p.Kind {
		case "opus":
			var buf opus.Sample
			return c36Write(p, opus.NewWebmWriter(f, p.Rate, p.Ch, dur), f, "A_OPUS", func(i int) (opus.Sample, []byte, error) {
				b := c04Bytes(i, p.Fr[i].Sz)
				buf = append(buf[:0], b...)
				return buf, b, nil
			}, func(s opus.Sample) {
				for i := range s {
					s[i] = 0xEE
				}
			})
		case "pcm":
			return c36Write(p, webm.NewPCM16Writer(f, p.Rate, p.Ch, dur), f, "A_PCM/INT/LIT", func(i int) (media.PCM16Sample, []byte, error) {
				return c04PCM(i, p.Fr[i].Sz), c04Bytes(i, 2*p.Fr[i].Sz), nil
			}, func(s media.PCM16Sample) { s.Clear() })
		default:
			return c36Write(p, webm.NewWriter[oddSample](f, p.Codec, p.Ch, p.Rate, dur), f, p.Codec, func(i int) (oddSample, []byte, error) {
				b := c04Bytes(i, p.Fr[i].Sz)
				switch p.Fr[i].Bad {
				case 1:
					return oddSample{size: p.Fr[i].Sz, err: errSink}, nil, errSink
				case 2:
					return oddSample{data: slices.Clone(b), size: p.Fr[i].Sz + 3}, b, nil
				}
				return oddSample{data: slices.Clone(b), size: p.Fr[i].Sz}, b, nil
			}, func(s oddSample) { clear(s.data) })
		}
	})
}

func init() {
	gen := func(long bool) func(t *rapid.T) c36Plan {
		return func(t *rapid.T) c36Plan {
			p := c36Plan{
				Kind:  rapid.SampledFrom([]string{"opus", "pcm", "bytes"}).Draw(t, "kind"),
				Rate:  rapid.SampledFrom([]int{8000, 12000, 16000, 24000, 44100, 48000, 11025, 96000}).Draw(t, "rate"),
				Ch:    rapid.IntRange(1, 6).Draw(t, "ch"),
				DurUs: 1000 * rapid.SampledFrom([]int{20, 20, 10, 40, 60, 5, 1, 120}).Draw(t, "dur"),
				Reuse: rapid.Bool().Draw(t, "reuse"),
			}
			if rapid.IntRange(0, 3).Draw(t, "frac") == 0 {
				p.DurUs = rapid.SampledFrom([]int{2500, 21333, 23220, 500, 7500, 1001}).Draw(t, "durus")
			}
			if p.Kind == "bytes" {
				p.Codec = rapid.SampledFrom([]string{"A_MS/ACM", "A_FLAC", "A_AAC", "X"}).Draw(t, "codec")
			}
			n := rapid.IntRange(0, 30).Draw(t, "n")
			if long {
				p.DurUs = rapid.OneOf(rapid.SampledFrom([]int{500_000, 1_000_000, 4_000_000, 32_767_000, 32_768_000, 32_766_000, 40_000_000, 100_000, 250_500}), rapid.IntRange(1000, 60_000_000)).Draw(t, "longdur")
				n = rapid.IntRange(2, 200).Draw(t, "ln")
			} else if rapid.IntRange(0, 3).Draw(t, "slow?") == 0 {
				p.Slow = rapid.IntRange(1, 50).Draw(t, "slow")
			}
			for i := range n {
				fr := c36Frame{Sz: rapid.OneOf(rapid.IntRange(1, 40), rapid.SampledFrom([]int{0, 0, 1, 126, 127, 128, 160, 960, 1275}), rapid.IntRange(1, 20000)).Draw(t, "sz")}
				if i < 20 && rapid.IntRange(0, 9).Draw(t, "pause?") == 0 {
					fr.Pause = rapid.IntRange(1, 100).Draw(t, "pause")
				}
				if p.Kind == "bytes" && rapid.IntRange(0, 5).Draw(t, "bad?") == 0 {
					fr.Bad = rapid.IntRange(1, 2).Draw(t, "bad")
				}
				p.Fr = append(p.Fr, fr)
			}
			if !long {
				p.Fr = laps(t, p.Fr, 4000)
			}
			return p
		}
	}
	reg("C36", "short", opts{sec: [2]float64{5, 70}, rule: "at least two frames in the file"}, gen(false), c36Run)
	reg("C36", "clusters", opts{sec: [2]float64{4, 60}, rule: "at least two frames in the file"}, gen(true), c36Run)
	reg("C36", "race", opts{build: "race", sec: [2]float64{3, 25}, rule: "at least two frames in the file"}, gen(false), c36Run)
}
