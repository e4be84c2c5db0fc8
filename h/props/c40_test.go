package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"testing"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	prtp "github.com/pion/rtp"
	"pgregory.net/rapid"
)

// C40: dumps of the passing media.

// direct -------------------------------------------------------------------

type c40Direct struct {
	Type string `json:"type"` // pcm, pcmu, g722, opus
	Ext  string `json:"ext"`
	Name string `json:"name"`
	Rate int    `json:"rate"`
	Lens []int  `json:"lens"`
	Fail int    `json:"fail"` // the write that the destination refuses, or -1
	FCl  bool   `json:"fcl,omitempty"`
	Old  int    `json:"old,omitempty"` // length of a file that is already there
}

type c40Sink[T ~[]E, E byte | int16] struct {
	rate, fail int
	failClose  bool
	got        []T
	closed     int
}

func (s *c40Sink[T, E]) String() string  { return "sink" }
func (s *c40Sink[T, E]) SampleRate() int { return s.rate }
func (s *c40Sink[T, E]) Close() error {
	s.closed++
	if s.failClose {
		return errSink
	}
	return nil
}
func (s *c40Sink[T, E]) WriteSample(x T) error {
	s.got = append(s.got, slices.Clone(x))
	if len(s.got)-1 == s.fail {
		return errSink
	}
	return nil
}

func c40LE(s media.PCM16Sample) []byte {
	b := make([]byte, 0, 2*len(s))
	for _, v := range s {
		b = append(b, byte(uint16(v)), byte(uint16(v)>>8))
	}
	return b
}

func c40DirectOne[T interface {
	~[]E
	media.Frame
}, E byte | int16](p c40Direct, dir string, mk func(i, n int) (T, []byte), pcm bool) Out {
	sink := &c40Sink[T, E]{rate: p.Rate, fail: p.Fail, failClose: p.FCl}
	ext := p.Ext
	var dst media.WriteCloser[T] = sink
	name := filepath.Join(dir, p.Name)
	if pcm {
		ext = "s16le"
	}
	file := fmt.Sprintf("%s_ar%d.%s", name, p.Rate, ext)
	if p.Old > 0 {
		if err := os.WriteFile(file, c04Bytes(77, p.Old), 0o600); err != nil {
			panic(err)
		}
	}
	var w media.WriteCloser[T]
	if pcm {
		w = any(media.DumpWriterPCM16(name, any(dst).(media.PCM16Writer))).(media.WriteCloser[T])
	} else {
		w = media.DumpWriter[T](ext, name, dst)
	}
	if w.SampleRate() != p.Rate {
		return bad("sample rate %d, want %d", w.SampleRate(), p.Rate)
	}
	var want []byte
	for i, n := range p.Lens {
		x, raw := mk(i, n)
		want = append(want, raw...)
		err := w.WriteSample(x)
		if (err != nil) != (i == p.Fail) {
			return bad("write %d returns %v", i, err)
		}
		for j := range x {
			x[j] = 0x55
		}
	}
	if err := w.Close(); (err != nil) != p.FCl {
		return bad("Close returns %v", err)
	}
	if sink.closed != 1 {
		return bad("the destination is closed %d times", sink.closed)
	}
	if len(sink.got) != len(p.Lens) {
		return bad("%d samples forwarded, want %d", len(sink.got), len(p.Lens))
	}
	for i, n := range p.Lens {
		if x, _ := mk(i, n); !slices.Equal(sink.got[i], x) {
			return bad("sample %d was changed", i)
		}
	}
	ls, _ := os.ReadDir(dir)
	if len(ls) != 1 {
		return bad("%d files in the directory, want 1", len(ls))
	}
	got, err := os.ReadFile(file)
	if err != nil {
		return bad("%v; the directory holds %v", err, ls)
	}
	if !bytes.Equal(got, want) {
		return bad("the dump: %s", diffAt(got, want))
	}
	return Out{NT: len(want) > 0}.cls(p.Type)
}

func c40DirectRun(p c40Direct) Out {
	dir, err := os.MkdirTemp("", "c40-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	raw := func(i, n int) []byte { return c04Bytes(i, n) }
	switch p.Type {
	case "pcm":
		return c40DirectOne(p, dir, func(i, n int) (media.PCM16Sample, []byte) { s := c04PCM(i, n); return s, c40LE(s) }, true)
	case "pcmu":
		return c40DirectOne(p, dir, func(i, n int) (g711.ULawSample, []byte) { return raw(i, n), raw(i, n) }, false)
	case "pcma":
		return c40DirectOne(p, dir, func(i, n int) (g711.ALawSample, []byte) { return raw(i, n), raw(i, n) }, false)
	case "g722":
		return c40DirectOne(p, dir, func(i, n int) (g722.Sample, []byte) { return raw(i, n), raw(i, n) }, false)
	}
	return c40DirectOne(p, dir, func(i, n int) (opus.Sample, []byte) { return raw(i, n), raw(i, n) }, false)
}

// environment --------------------------------------------------------------

type c40Pipe struct {
	Kind  string `json:"kind"`            // resample, g722dec, g722enc, dec, enc
	Codec string `json:"codec,omitempty"` // of dec and enc
	Rate  int    `json:"rate"`            // of the destination
	In    int    `json:"in,omitempty"`    // of the source, when resampling
	Lens  []int  `json:"lens"`
	Fail  int    `json:"fail"`
}

type c40Plan struct {
	Env   [3]string `json:"env"` // LK_DUMP_RESAMPLE, _G722, _MEDIA
	Pipes []c40Pipe `json:"pipes"`
}

var c40Env = [3]string{"LK_DUMP_RESAMPLE", "LK_DUMP_G722", "LK_DUMP_MEDIA"}

// c40Res is what the destination of a pipeline got.
type c40Res struct {
	Frames [][]byte `json:"frames"`
	Errs   []bool   `json:"errs"`
	Closed int      `json:"closed"`
	CErr   bool     `json:"cerr"`
}

func c40In(p c40Pipe, i int) []byte {
	n := p.Lens[i]
	if p.Kind == "g722dec" || p.Kind == "dec" {
		return c04Bytes(i, n)
	}
	return c40LE(c04PCM(i, n))
}

// c40Plain is a codec that does not name a file extension.
const c40Plain = "X-PLAIN/8000"

func c40Codec(name string) rtp.AudioCodec {
	if name == c40Plain {
		return rtp.NewAudioCodec(media.CodecInfo{SDPName: name, SampleRate: 8000, RTPClockRate: 8000}, g711.DecodeULaw, g711.EncodeULaw)
	}
	return sdp.CodecByName(name).(rtp.AudioCodec)
}

func c40Exec(p c40Plan) []c40Res {
	type pipe struct {
		write func(i int) error
		close func() error
		res   func(*c40Res)
	}
	var pipes []pipe
	for _, q := range p.Pipes {
		pcm := &c40Sink[media.PCM16Sample, int16]{rate: q.Rate, fail: q.Fail}
		pcmRes := func(r *c40Res) {
			for _, f := range pcm.got {
				r.Frames = append(r.Frames, c40LE(f))
			}
			r.Closed = pcm.closed
		}
		pcmWrite := func(w media.PCM16Writer) func(int) error {
			return func(i int) error {
				s := c04PCM(i, q.Lens[i])
				err := w.WriteSample(s)
				clear(s)
				return err
			}
		}
		switch q.Kind {
		case "resample":
			w := media.ResampleWriter(pcm, q.In)
			pipes = append(pipes, pipe{pcmWrite(w), w.Close, pcmRes})
		case "g722dec":
			w := g722.Decode(pcm)
			pipes = append(pipes, pipe{func(i int) error {
				s := g722.Sample(c04Bytes(i, q.Lens[i]))
				err := w.WriteSample(s)
				clear(s)
				return err
			}, w.Close, pcmRes})
		case "g722enc":
			sink := &c40Sink[g722.Sample, byte]{rate: q.Rate, fail: q.Fail}
			w := g722.Encode(sink)
			pipes = append(pipes, pipe{pcmWrite(w), w.Close, func(r *c40Res) {
				for _, f := range sink.got {
					r.Frames = append(r.Frames, f)
				}
				r.Closed = sink.closed
			}})
		case "dec":
			h := c40Codec(q.Codec).DecodeRTP(pcm, 9)
			pipes = append(pipes, pipe{func(i int) error {
				s := c04Bytes(i, q.Lens[i])
				err := h.HandleRTP(&prtp.Header{Version: 2, SequenceNumber: uint16(i)}, s)
				clear(s)
				return err
			}, func() error { return nil }, pcmRes})
		case "enc":
			var b rtp.Buffer
			c := c40Codec(q.Codec)
			w := c.EncodeRTP(rtp.NewSeqWriter(&b).NewStream(9, c.Info().RTPClockRate))
			pipes = append(pipes, pipe{pcmWrite(w), w.Close, func(r *c40Res) {
				for _, k := range b {
					r.Frames = append(r.Frames, k.Payload)
				}
			}})
		}
	}
	out := make([]c40Res, len(pipes))
	for i := 0; ; i++ {
		any := false
		for k, q := range p.Pipes {
			if i < len(q.Lens) {
				any = true
				out[k].Errs = append(out[k].Errs, pipes[k].write(i) != nil)
			}
		}
		if !any {
			break
		}
	}
	for k := range pipes {
		out[k].CErr = pipes[k].close() != nil
		pipes[k].res(&out[k])
	}
	return out
}

// TestC40Child executes a plan given on the standard input.
func TestC40Child(t *testing.T) {
	if os.Getenv("VP_C40") == "" {
		t.Skip()
	}
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		t.Fatal(err)
	}
	var p c40Plan
	if err := json.Unmarshal(b, &p); err != nil {
		t.Fatal(err)
	}
	r, _ := json.Marshal(c40Exec(p))
	fmt.Printf("\nC40-RESULT %s\n", r)
}

type c40File struct {
	name   string
	data   []byte
	prefix bool // the pipeline is not closed, so that some data may be missing
}

func c40Run(p c40Plan) Out {
	dir, err := os.MkdirTemp("", "c40-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	in, _ := json.Marshal(p)
	cmd := exec.Command(os.Args[0], "-test.run=^TestC40Child$", "-test.v=false")
	cmd.Env = append(os.Environ(), "VP_C40=1", "VP_PROP=", "GOMAXPROCS=1", "GOGC=off")
	on := [3]bool{}
	for i, v := range p.Env {
		cmd.Env = append(cmd.Env, c40Env[i]+"="+v)
		on[i] = v == "true"
	}
	cmd.Dir = dir
	cmd.Stdin = bytes.NewReader(in)
	b, err := cmd.CombinedOutput()
	i := bytes.Index(b, []byte("C40-RESULT "))
	if i < 0 {
		return bad("the process ended without a result: %v: %.2000s", err, b)
	}
	line, _, _ := bytes.Cut(b[i+11:], []byte("\n"))
	var got []c40Res
	if err := json.Unmarshal(line, &got); err != nil {
		return bad("harness: %v", err)
	}
	want := c40Exec(p) // this process does not dump

	var files []c40File
	ids := map[string]int{}
	add := func(stage string, id int, dir string, rate int, ext string, data []byte, prefix bool) {
		if dir != "" {
			dir = "_" + dir
		}
		files = append(files, c40File{fmt.Sprintf("sip_%s_%d%s_ar%d.%s", stage, id, dir, rate, ext), data, prefix})
	}
	for k, q := range p.Pipes {
		g, w := got[k], want[k]
		if !slices.Equal(g.Errs, w.Errs) || g.CErr != w.CErr || g.Closed != w.Closed {
			return bad("pipeline %d: errors %v, %v, closed %d times; without dumps %v, %v, %d", k, g.Errs, g.CErr, g.Closed, w.Errs, w.CErr, w.Closed)
		}
		if len(g.Frames) != len(w.Frames) {
			return bad("pipeline %d: %d frames, without dumps %d", k, len(g.Frames), len(w.Frames))
		}
		pcmOut := q.Kind != "enc" && q.Kind != "g722enc"
		resampled := q.Kind == "resample" && q.In != q.Rate || q.Kind == "g722dec" && q.Rate == 48000 || q.Kind == "dec" && !(q.Rate == 8000 || q.Rate == 16000 && strings.HasPrefix(q.Codec, "G722"))
		for f := range g.Frames {
			same := bytes.Equal(g.Frames[f], w.Frames[f])
			if pcmOut && resampled {
				same = eqDither(c40Samples(g.Frames[f]), c40Samples(w.Frames[f]), false)
			}
			if !same {
				return bad("pipeline %d: frame %d (%d bytes) differs from the one without dumps (%d bytes)", k, f, len(g.Frames[f]), len(w.Frames[f]))
			}
		}
		var src []byte
		for i := range q.Lens {
			src = append(src, c40In(q, i)...)
		}
		leaf := bytes.Join(g.Frames, nil)
		// resample adds the files of one resampler with the given source.
		resample := func(from int, data []byte, prefix bool) {
			if from == q.Rate || !on[0] {
				return
			}
			ids["resample"]++
			id := ids["resample"]
			add("resample", id, "out", q.Rate, "s16le", leaf, prefix)
			add("resample", id, "in", from, "s16le", data, prefix)
		}
		g722dec := func(prefix bool) {
			r, x := min(q.Rate, 16000), leaf
			if q.Rate > 16000 {
				ref := c40Exec(c40Plan{Pipes: []c40Pipe{{Kind: "g722dec", Rate: 16000, Lens: q.Lens, Fail: -1}}})
				x = bytes.Join(ref[0].Frames, nil)
				resample(16000, x, prefix)
			}
			if on[1] {
				ids["g722"]++
				add("g722_dec", ids["g722"], "out", r, "s16le", x, prefix)
				add("g722_dec", ids["g722"], "in", r, "g722", src, prefix)
			}
		}
		switch q.Kind {
		case "resample":
			resample(q.In, src, false)
		case "g722dec":
			g722dec(false)
		case "g722enc":
			if on[1] {
				ids["g722"]++
				add("g722_enc", ids["g722"], "out", q.Rate, "g722", leaf, false)
				add("g722_enc", ids["g722"], "in", q.Rate, "s16le", src, false)
			}
		case "dec":
			ext := map[string]string{"PCMU/8000": "g711u", "PCMA/8000": "g711a", "G722/8000": "g722", c40Plain: "raw"}[q.Codec]
			if ext == "g722" {
				g722dec(true)
			} else if q.Rate != 8000 {
				ref := c40Exec(c40Plan{Pipes: []c40Pipe{{Kind: "dec", Codec: q.Codec, Rate: 8000, Lens: q.Lens, Fail: -1}}})
				resample(8000, bytes.Join(ref[0].Frames, nil), true)
			}
			if on[2] {
				ids["rtp"]++
				add("rtp_in", ids["rtp"], "", 0, ext, src, true)
			}
		case "enc":
			ext := map[string]string{"PCMU/8000": "g711u", "PCMA/8000": "g711a", "G722/8000": "g722", c40Plain: "raw"}[q.Codec]
			if on[2] {
				ids["rtp"]++
				add("rtp_out", ids["rtp"], "", 0, ext, leaf, false)
			}
			if ext == "g722" && on[1] {
				ids["g722"]++
				add("g722_enc", ids["g722"], "out", 16000, "g722", leaf, false)
				add("g722_enc", ids["g722"], "in", 16000, "s16le", src, false)
			}
		}
	}
	ls, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	have := map[string]string{}
	for _, e := range ls {
		n := e.Name()
		have[n] = n
		// The rate of a codec's own stream is not part of the property.
		if strings.HasPrefix(n, "sip_rtp_") {
			a, b, _ := strings.Cut(n, "_ar")
			_, c, _ := strings.Cut(b, ".")
			have[a+"_ar0."+c] = n
		}
	}
	for _, f := range files {
		n, ok := have[f.name]
		if !ok {
			return bad("no dump %s; the directory holds %v", f.name, ls)
		}
		data, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return bad("%v", err)
		}
		if f.prefix && len(data) < len(f.data) && len(f.data)-len(data) <= 1<<14 {
			f.data = f.data[:len(data)]
		}
		if !bytes.Equal(data, f.data) {
			return bad("dump %s: %s", f.name, diffAt(data, f.data))
		}
	}
	if len(ls) != len(files) {
		return bad("dumps %v, want %d", ls, len(files))
	}
	o := Out{NT: len(files) > 1}
	for i, v := range on {
		if v {
			o = o.cls(c40Env[i])
		}
	}
	return o
}

func c40Samples(b []byte) media.PCM16Sample {
	s := make(media.PCM16Sample, len(b)/2)
	for i := range s {
		s[i] = int16(uint16(b[2*i]) | uint16(b[2*i+1])<<8)
	}
	return s
}

func init() {
	reg("C40", "direct", opts{sec: [2]float64{4, 40}, rule: "the dump is not empty"},
		func(t *rapid.T) c40Direct {
			p := c40Direct{
				Type: rapid.SampledFrom([]string{"pcm", "pcmu", "pcma", "g722", "opus"}).Draw(t, "type"),
				Ext:  rapid.SampledFrom([]string{"raw", "g722", "x", "s16le"}).Draw(t, "ext"),
				Name: rapid.SampledFrom([]string{"a", "dump_1", "x y", "%d", "a.b"}).Draw(t, "name"),
				Rate: rapid.SampledFrom([]int{8000, 16000, 48000, 44100, 1}).Draw(t, "rate"),
				Lens: huge(t, laps(t, rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 400), rapid.IntRange(1000, 9000)), 0, 14).Draw(t, "lens"), 600)),
				Fail: -1,
				FCl:  rapid.IntRange(0, 4).Draw(t, "fcl") == 0,
			}
			if len(p.Lens) > 0 && rapid.IntRange(0, 3).Draw(t, "fail?") == 0 {
				p.Fail = rapid.IntRange(0, len(p.Lens)-1).Draw(t, "fail")
			}
			if rapid.IntRange(0, 2).Draw(t, "old?") == 0 {
				p.Old = rapid.IntRange(1, 100000).Draw(t, "old")
			}
			return p
		}, c40DirectRun)
	reg("C40", "environment", opts{sec: [2]float64{10, 100}, rule: "at least two dumps are written"},
		func(t *rapid.T) c40Plan {
			p := c40Plan{}
			for i := range p.Env {
				p.Env[i] = rapid.SampledFrom([]string{"true", "true", "true", "true", "", "false", "1", "TRUE", "true "}).Draw(t, "env")
			}
			for range rapid.IntRange(1, 5).Draw(t, "pipes") {
				q := c40Pipe{Kind: rapid.SampledFrom([]string{"resample", "g722dec", "g722enc", "dec", "enc"}).Draw(t, "kind"), Fail: -1}
				unit := 1
				switch q.Kind {
				case "resample":
					q.In = rapid.SampledFrom([]int{8000, 16000, 48000, 24000}).Draw(t, "in")
					q.Rate = rapid.SampledFrom([]int{8000, 16000, 48000}).Draw(t, "rate")
				case "g722dec":
					q.Rate = rapid.SampledFrom([]int{8000, 16000, 48000}).Draw(t, "rate")
				case "g722enc":
					q.Rate = rapid.SampledFrom([]int{8000, 16000}).Draw(t, "rate")
					unit = 2
				case "dec", "enc":
					q.Codec = rapid.SampledFrom([]string{"PCMU/8000", "PCMA/8000", "G722/8000", c40Plain}).Draw(t, "codec")
					q.Rate = rapid.SampledFrom([]int{8000, 16000, 48000}).Draw(t, "rate")
					unit = 2
				}
				q.Lens = huge(t, laps(t, rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(1, 600)), 0, 25).Draw(t, "lens"), 600))
				for i := range q.Lens {
					q.Lens[i] *= unit
				}
				if len(q.Lens) > 0 && q.Kind != "enc" && q.Kind != "resample" && q.Rate < 48000 && rapid.IntRange(0, 5).Draw(t, "fail?") == 0 {
					q.Fail = rapid.IntRange(0, len(q.Lens)-1).Draw(t, "fail")
				}
				p.Pipes = append(p.Pipes, q)
			}
			return p
		}, c40Run)
}
