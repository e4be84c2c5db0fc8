package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/opus"
	"pgregory.net/rapid"
)

// C04: raw file writer and dump writer.

type c04Plan struct {
	Kind   string `json:"kind"` // file-pcm, file-ulaw, file-alaw, file-g722, file-opus, dump-pcm, dump-g722
	Sizes  []int  `json:"sizes"`
	BadAt  []int  `json:"bad,omitempty"` // samples that refuse to serialise
	FailAt int    `json:"fail"`          // byte offset at which the file starts failing, -1 never
	Short  bool   `json:"short,omitempty"`
	CloseF bool   `json:"closef,omitempty"`
	Rate   int    `json:"rate"`
	WFail  []int  `json:"wfail,omitempty"` // dump: wrapped writer failures
}

func init() {
	gen := func(dump bool) func(t *rapid.T) c04Plan {
		return func(t *rapid.T) c04Plan {
			var p c04Plan
			if dump {
				p.Kind = rapid.SampledFrom([]string{"dump-pcm", "dump-pcm-generic", "dump-g722"}).Draw(t, "kind")
				p.WFail = rapid.SliceOfNDistinct(rapid.IntRange(0, 15), 0, 4, rapid.ID[int]).Draw(t, "wfail")
			} else {
				p.Kind = rapid.SampledFrom([]string{"file-pcm", "file-ulaw", "file-alaw", "file-g722", "file-opus", "file-odd"}).Draw(t, "kind")
			}
			p.Sizes = huge(t, laps(t, rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, 400), rapid.SampledFrom([]int{160, 320, 960, 2048, 4096, 5000})), 0, 25).Draw(t, "sizes"), 600))
			p.FailAt = -1
			if !dump && rapid.IntRange(0, 2).Draw(t, "fails") == 0 {
				p.FailAt = rapid.OneOf(rapid.IntRange(0, 3000), rapid.SampledFrom([]int{0, 4096, 8192, 4095, 4097})).Draw(t, "failat")
				p.Short = rapid.Bool().Draw(t, "short")
			}
			if p.Kind == "file-odd" {
				p.BadAt = rapid.SliceOfNDistinct(rapid.IntRange(0, 15), 0, 4, rapid.ID[int]).Draw(t, "bad")
			}
			p.CloseF = !dump && rapid.IntRange(0, 5).Draw(t, "closef") == 0
			p.Rate = rapid.SampledFrom([]int{8000, 16000, 48000, 44100, 11025}).Draw(t, "rate")
			return p
		}
	}
	reg("C04", "file", opts{sec: [2]float64{5, 60}, rule: "at least one non-empty sample was written"}, gen(false), c04Run)
	reg("C04", "dump", opts{sec: [2]float64{4, 40}, rule: "at least one non-empty sample was written"}, gen(true), c04Run)
}

// oddSample is a Frame that fills fewer bytes than its Size reports, or refuses to serialise.
type oddSample struct {
	data []byte
	size int
	err  error
}

func (s oddSample) Size() int { return s.size }
func (s oddSample) CopyTo(dst []byte) (int, error) {
	if s.err != nil {
		return 0, s.err
	}
	if len(dst) < s.size {
		return 0, io.ErrShortBuffer
	}
	return copy(dst, s.data), nil
}

type faultyFile struct {
	buf    bytes.Buffer
	failAt int
	short  bool
	closed int
	cerr   error
	failed bool
}

func (f *faultyFile) Write(p []byte) (int, error) {
	if f.closed > 0 {
		return 0, os.ErrClosed
	}
	if f.failAt >= 0 && f.buf.Len()+len(p) > f.failAt {
		f.failed = true
		n := 0
		if f.short {
			n = max(0, f.failAt-f.buf.Len())
			f.buf.Write(p[:n])
		}
		return n, errSink
	}
	return f.buf.Write(p)
}

func (f *faultyFile) Close() error {
	f.closed++
	if f.cerr != nil {
		f.failed = true
	}
	return f.cerr
}

func c04Bytes(i, n int) []byte {
	b := make([]byte, n)
	switch i & 31 {
	case 7: // silence, or nothing but zeros
		return b
	case 19:
		for j := range b {
			b[j] = 0xff
		}
		return b
	}
	x := uint32(i*2654435761 + 12345)
	for j := range b {
		x = x*1664525 + 1013904223
		b[j] = byte(x >> 24)
	}
	return b
}

func c04PCM(i, n int) media.PCM16Sample {
	b := c04Bytes(i, 2*n)
	s := make(media.PCM16Sample, n)
	for j := range s {
		s[j] = int16(uint16(b[2*j]) | uint16(b[2*j+1])<<8)
	}
	return s
}

func c04Run(p c04Plan) Out {
	badAt := map[int]bool{}
	for _, i := range p.BadAt {
		badAt[i] = true
	}
	switch p.Kind {
	case "file-pcm":
		return c04File(p, func(i int) (media.PCM16Sample, []byte, error) {
			return c04PCM(i, p.Sizes[i]), c04Bytes(i, 2*p.Sizes[i]), nil
		}, func(s media.PCM16Sample) { s.Clear() })
	case "file-ulaw":
		return c04File(p, func(i int) (g711.ULawSample, []byte, error) {
			return c04Bytes(i, p.Sizes[i]), c04Bytes(i, p.Sizes[i]), nil
		}, func(s g711.ULawSample) { clear(s) })
	case "file-alaw":
		return c04File(p, func(i int) (g711.ALawSample, []byte, error) {
			return c04Bytes(i, p.Sizes[i]), c04Bytes(i, p.Sizes[i]), nil
		}, func(s g711.ALawSample) { clear(s) })
	case "file-g722":
		return c04File(p, func(i int) (g722.Sample, []byte, error) {
			return c04Bytes(i, p.Sizes[i]), c04Bytes(i, p.Sizes[i]), nil
		}, func(s g722.Sample) { clear(s) })
	case "file-opus":
		return c04File(p, func(i int) (opus.Sample, []byte, error) {
			return c04Bytes(i, p.Sizes[i]), c04Bytes(i, p.Sizes[i]), nil
		}, func(s opus.Sample) { clear(s) })
	case "file-odd":
		return c04File(p, func(i int) (oddSample, []byte, error) {
			if badAt[i] {
				return oddSample{size: p.Sizes[i], err: errClose}, nil, errClose
			}
			b := c04Bytes(i, p.Sizes[i])
			return oddSample{data: b, size: p.Sizes[i] + i%3}, c04Bytes(i, p.Sizes[i]), nil
		}, func(s oddSample) { clear(s.data) })
	case "dump-pcm":
		return c04Dump(p, "s16le", media.DumpWriterPCM16, func(i int) (media.PCM16Sample, []byte) {
			return c04PCM(i, p.Sizes[i]), c04Bytes(i, 2*p.Sizes[i])
		}, func(s media.PCM16Sample) []byte { b := make([]byte, s.Size()); _, _ = s.CopyTo(b); return b })
	case "dump-pcm-generic":
		return c04Dump(p, "raw", func(name string, w media.PCM16Writer) media.PCM16Writer {
			return media.DumpWriter[media.PCM16Sample]("raw", name, w)
		}, func(i int) (media.PCM16Sample, []byte) {
			return c04PCM(i, p.Sizes[i]), c04Bytes(i, 2*p.Sizes[i])
		}, func(s media.PCM16Sample) []byte { b := make([]byte, s.Size()); _, _ = s.CopyTo(b); return b })
	default:
		return c04Dump(p, "g722", func(name string, w media.WriteCloser[g722.Sample]) media.WriteCloser[g722.Sample] {
			return media.DumpWriter[g722.Sample]("g722", name, w)
		}, func(i int) (g722.Sample, []byte) {
			return c04Bytes(i, p.Sizes[i]), c04Bytes(i, p.Sizes[i])
		}, func(s g722.Sample) []byte { return append([]byte(nil), s...) })
	}
}

func c04File[T media.Frame](p c04Plan, mk func(i int) (T, []byte, error), scribble func(T)) Out {
	f := &faultyFile{failAt: p.FailAt, short: p.Short}
	if p.CloseF {
		f.cerr = errClose
	}
	w := media.NewFileWriter[T](f, p.Rate)
	if w.SampleRate() != p.Rate {
		return bad("SampleRate=%d want %d", w.SampleRate(), p.Rate)
	}
	var want []byte
	reported := false
	any := false
	for i := range p.Sizes {
		s, b, serr := mk(i)
		err := w.WriteSample(s)
		scribble(s)
		if serr != nil {
			if !errors.Is(err, serr) && !f.failed {
				return bad("sample %d does not serialise, WriteSample returned %v", i, err)
			}
			continue
		}
		if err != nil {
			reported = true
			if !f.failed {
				return bad("sample %d: WriteSample returned %v although nothing failed", i, err)
			}
		}
		any = any || len(b) > 0
		want = append(want, b...)
	}
	err := w.Close()
	if err != nil {
		reported = true
	}
	if f.closed != 1 {
		return bad("file closed %d times", f.closed)
	}
	if reported != f.failed {
		return bad("file failed: %v, but an error was reported: %v (Close: %v)", f.failed, reported, err)
	}
	if f.failed {
		if !bytes.HasPrefix(want, f.buf.Bytes()) {
			return bad("stored bytes are not a prefix of the written samples")
		}
		if p.FailAt < 0 && !bytes.Equal(want, f.buf.Bytes()) {
			return bad("only the close failed, but %d of %d bytes were stored", f.buf.Len(), len(want))
		}
		return Out{NT: any}.cls("fault")
	}
	if !bytes.Equal(want, f.buf.Bytes()) {
		return bad("stored bytes differ: %s", diffAt(f.buf.Bytes(), want))
	}
	return Out{NT: any}
}

type recWriter[T any] struct {
	rate   int
	enc    func(T) []byte
	got    [][]byte
	calls  int
	fail   map[int]error
	closed int
	cerr   error
}

func (r *recWriter[T]) String() string  { return "rec" }
func (r *recWriter[T]) SampleRate() int { return r.rate }
func (r *recWriter[T]) Close() error    { r.closed++; return r.cerr }
func (r *recWriter[T]) WriteSample(s T) error {
	i := r.calls
	r.calls++
	r.got = append(r.got, r.enc(s))
	return r.fail[i]
}

func c04Dump[T media.Frame](p c04Plan, ext string, mkw func(string, media.WriteCloser[T]) media.WriteCloser[T], mk func(i int) (T, []byte), enc func(T) []byte) Out {
	dir, err := os.MkdirTemp("", "c04")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	r := &recWriter[T]{rate: p.Rate, enc: enc, fail: map[int]error{}}
	for _, i := range p.WFail {
		r.fail[i] = errSink
	}
	name := filepath.Join(dir, "dump")
	w := mkw(name, r)
	if w.SampleRate() != p.Rate {
		return bad("SampleRate=%d want %d", w.SampleRate(), p.Rate)
	}
	var want []byte
	for i := range p.Sizes {
		s, b := mk(i)
		err := w.WriteSample(s)
		if (err != nil) != (r.fail[i] != nil) {
			return bad("sample %d: WriteSample returned %v, wrapped writer failed: %v", i, err, r.fail[i] != nil)
		}
		want = append(want, b...)
		if r.calls != i+1 || !bytes.Equal(r.got[i], b) {
			return bad("sample %d was not forwarded unchanged (%d calls)", i, r.calls)
		}
	}
	if err := w.Close(); err != nil {
		return bad("Close: %v", err)
	}
	if r.closed != 1 {
		return bad("wrapped writer closed %d times", r.closed)
	}
	got, err := os.ReadFile(fmt.Sprintf("%s_ar%d.%s", name, p.Rate, ext))
	if err != nil {
		return bad("dump file: %v", err)
	}
	if !bytes.Equal(got, want) {
		return bad("dump differs: %s", diffAt(got, want))
	}
	return Out{NT: len(want) > 0}
}
