package props

import (
	"fmt"
	"runtime"
	"slices"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/protocol/logger"
	prtp "github.com/pion/rtp"
	"pgregory.net/rapid"
)

// C39: the textual description of a pipeline.

type c39Leaf struct {
	name string
	rate int
	mu   sync.Mutex
	got  []media.PCM16Sample
}

func (l *c39Leaf) String() string  { return l.name }
func (l *c39Leaf) SampleRate() int { return l.rate }
func (l *c39Leaf) Close() error    { return nil }
func (l *c39Leaf) WriteSample(s media.PCM16Sample) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.got = append(l.got, slices.Clone(s))
	return nil
}

type c39Stage struct {
	Kind string `json:"k"` // frames, resample, switch, multi, nop
	N    int    `json:"n,omitempty"`
}

type c39Plan struct {
	Rate   int        `json:"rate"`
	Stages []c39Stage `json:"stages"`
	Head   string     `json:"head,omitempty"` // codec in front of the stages
	Front  []string   `json:"front,omitempty"`
	Writes []int      `json:"writes"`
	Every  int        `json:"every"` // describe before every n-th write
	Mixer  bool       `json:"mixer,omitempty"`
}

type c39Desc interface{ String() string }

// c39Chain is a pipeline with all its parts, the last one first.
type c39Chain struct {
	leaf  *c39Leaf
	extra []*c39Leaf // other destinations of multi writers
	parts []c39Desc
	sw    []*media.SwitchWriter
	write func(i, n int) error
	close func() error
}

func c39Build(p c39Plan, name string) *c39Chain {
	c := &c39Chain{leaf: &c39Leaf{name: name, rate: p.Rate}}
	c.parts = append(c.parts, c.leaf)
	var w media.PCM16Writer = c.leaf
	if p.Mixer {
		m, err := mixer.NewMixer(w, 20*time.Millisecond, 1)
		if err != nil {
			panic(err)
		}
		in := m.NewInput()
		w = in
		c.parts = append(c.parts, m, in)
		defer func() {
			cl := c.close
			c.close = func() error {
				err := cl()
				m.Stop()
				return err
			}
		}()
	}
	for i, s := range p.Stages {
		switch s.Kind {
		case "frames":
			w = media.FullFrames(w, s.N)
		case "resample":
			w = media.ResampleWriter(w, s.N)
		case "switch":
			sw := media.NewSwitchWriter(w.SampleRate())
			if s.N > 0 {
				// The rate is set later.
				sw = media.NewSwitchWriter(-1)
				if s.N > 1 && sw.String() == "" {
					panic("no description of a switch without a rate")
				}
				sw.SetSampleRate(w.SampleRate())
			}
			if s.N > 2 && sw.String() == "" {
				panic("no description of a switch without a destination")
			}
			sw.Swap(w)
			c.sw = append(c.sw, sw)
			w = sw
		case "multi":
			mw := media.MultiWriter[media.PCM16Sample]{w}
			for k := range s.N {
				l := &c39Leaf{name: fmt.Sprintf("%s/%d.%d", name, i, k), rate: w.SampleRate()}
				c.extra = append(c.extra, l)
				mw = append(mw, l)
			}
			w = mw
		case "nop":
			w = media.NopCloser[media.PCM16Sample](w)
		}
		c.parts = append(c.parts, w)
	}
	c.close = w.Close
	c.write = func(i, n int) error { return w.WriteSample(c04PCM(i, n)) }
	var h rtp.Handler
	switch p.Head {
	case "pcmu":
		d := g711.DecodeULaw(w)
		h, c.close = rtp.NewMediaStreamIn[g711.ULawSample](d), d.Close
		c.parts = append(c.parts, d, h)
	case "pcma":
		d := g711.DecodeALaw(w)
		h, c.close = rtp.NewMediaStreamIn[g711.ALawSample](d), d.Close
		c.parts = append(c.parts, d, h)
	case "g722":
		d := g722.Decode(w)
		h, c.close = rtp.NewMediaStreamIn[g722.Sample](d), d.Close
		c.parts = append(c.parts, d, h)
	case "opus":
		d, err := opus.Decode(w, 1, logger.GetLogger())
		if err != nil {
			panic(err)
		}
		h, c.close = rtp.NewMediaStreamIn[opus.Sample](d), d.Close
		c.parts = append(c.parts, d, h)
	}
	if h == nil {
		return c
	}
	for _, f := range p.Front {
		switch f {
		case "mux":
			m := rtp.NewMux(nil)
			m.Register(8, h)
			h = m
		case "muxdyn":
			m := rtp.NewMux(nil)
			m.Register(8, h)
			m.Register(101, h)
			h = m
		case "muxdef":
			h = rtp.NewMux(h)
		case "jitter":
			j := rtp.HandleJitter(rtp.NewNopCloser(h))
			cl := c.close
			c.close = func() error {
				j.Close()
				return cl()
			}
			h = j
		}
		c.parts = append(c.parts, h)
	}
	c.write = func(i, n int) error {
		b := c04Bytes(i, n)
		if p.Head == "opus" {
			b = []byte{0x08, byte(i)} // a 20 ms packet
		}
		return h.HandleRTP(&rtp.Header{Version: 2, PayloadType: 8, SequenceNumber: uint16(i)}, b)
	}
	return c
}

// c39Check describes every part, which must name what it forwards to.
func c39Check(c *c39Chain, leaf bool) string {
	prev := ""
	for i, s := range c.parts {
		d := s.String()
		if i > 0 && !strings.Contains(d, prev) {
			return fmt.Sprintf("part %d (%T) is described as %q, it forwards to %q", i, s, d, prev)
		}
		if leaf && !strings.Contains(d, c.leaf.name) {
			return fmt.Sprintf("part %d (%T) is described as %q, it leads to %q", i, s, d, c.leaf.name)
		}
		if i > 0 && len(d) <= len(prev) {
			if _, ok := s.(media.WriteCloser[media.PCM16Sample]); !ok {
				return fmt.Sprintf("part %d (%T) adds nothing to the description %q", i, s, prev)
			}
		}
		prev = d
	}
	for _, l := range c.extra {
		if !strings.Contains(prev, l.name) {
			return fmt.Sprintf("the pipeline is described as %q, it also leads to %q", prev, l.name)
		}
	}
	return ""
}

func c39Run(p c39Plan) Out {
	return bubble(func() Out {
		a, b := c39Build(p, "leaf-of-c39"), c39Build(p, "leaf-of-c39")
		defer b.close()
		time.Sleep(5 * time.Millisecond) // between the ticks of the mixers
		top := a.parts[len(a.parts)-1].String()
		for i, n := range p.Writes {
			if i%p.Every == 0 {
				if e := c39Check(a, true); e != "" {
					a.close()
					return bad("before write %d: %s", i, e)
				}
				if d := a.parts[len(a.parts)-1].String(); d != top {
					a.close()
					return bad("the description changed from %q to %q", top, d)
				}
			}
			ea, eb := a.write(i, n), b.write(i, n)
			if (ea == nil) != (eb == nil) {
				a.close()
				return bad("write %d: %v, and without descriptions %v", i, ea, eb)
			}
			if i%3 == 2 {
				time.Sleep(20 * time.Millisecond)
			}
		}
		time.Sleep(203 * time.Millisecond)
		synctest.Wait()
		ea, eb := a.close(), b.close()
		if (ea == nil) != (eb == nil) {
			return bad("Close: %v, and without descriptions %v", ea, eb)
		}
		synctest.Wait()
		for _, s := range a.parts {
			_ = s.String() // closed; a switch has nothing attached
		}
		var ga, gb media.PCM16Sample
		for _, s := range a.leaf.got {
			ga = append(ga, s...)
		}
		for _, s := range b.leaf.got {
			gb = append(gb, s...)
		}
		// Every resampler of a chain adds its own random dither.
		far := -1
		for k := range min(len(ga), len(gb)) {
			if d := int(ga[k]) - int(gb[k]); d > 64 || d < -64 {
				far = k
				break
			}
		}
		if len(ga) != len(gb) || far >= 0 {
			return bad("describing the pipeline changed the audio: %s", diffAt(ga, gb))
		}
		return Out{NT: len(a.parts) > 2 && len(p.Writes) > 0}.cls("head-" + p.Head)
	})
}

// concurrent -------------------------------------------------------------

type c39cPlan struct {
	Base  c39Plan `json:"base"`
	Desc  int     `json:"desc"`  // describing goroutines
	Conf  int     `json:"conf"`  // reconfigurations
	Types []int   `json:"types"` // payload types registered
}

func c39Concurrent(p c39cPlan) Out {
	c := c39Build(p.Base, "leaf-of-c39")
	mx := rtp.NewMux(nil)
	out := &c39Leaf{name: "mixed", rate: 8000}
	mix, err := mixer.NewMixer(out, time.Millisecond, 1)
	if err != nil {
		return bad("NewMixer: %v", err)
	}
	sw := media.NewSwitchWriter(8000)
	conn := newC25Conn(4)
	sess := rtp.NewSession(logger.GetLogger(), conn)
	ws, err := sess.OpenWriteStream()
	if err != nil {
		return bad("OpenWriteStream: %v", err)
	}
	seq := rtp.NewSeqWriter(ws)
	st := seq.NewStream(0, 8000)
	all := append(slices.Clone(c.parts), mx, mix, sw, ws, seq, rtp.NewMediaStreamOut[g711.ULawSample](st, 8000))
	stop := make(chan struct{})
	var wg, rec sync.WaitGroup
	fail := make(chan string, 16)
	for g := range p.Desc {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				d := all[i%len(all)].String()
				if d == "" {
					select {
					case fail <- fmt.Sprintf("%T has an empty description", all[i%len(all)]):
					default:
					}
				}
				runtime.Gosched()
			}
		}()
	}
	run := func(f func(i int)) {
		rec.Add(1)
		go func() {
			defer rec.Done()
			for i := range p.Conf {
				f(i)
				runtime.Gosched()
			}
		}()
	}
	run(func(i int) {
		t := byte(p.Types[i%len(p.Types)])
		if i%3 == 2 {
			mx.Register(t, nil)
		} else {
			mx.Register(t, &muxHandler{id: i})
		}
		if i%4 == 0 {
			mx.SetDefault(&muxHandler{id: i})
		}
	})
	run(func(i int) {
		in := mix.NewInput()
		_ = in.String()
		_ = in.WriteSample(c04PCM(i, 8))
		if i%2 == 0 {
			_ = in.Close()
		}
	})
	run(func(i int) {
		if i%3 == 2 {
			sw.Swap(nil)
		} else {
			sw.Swap(&c39Leaf{name: "x", rate: 8000 * (1 + i%2)})
		}
		_ = sw.WriteSample(c04PCM(i, 16))
	})
	run(func(i int) { _ = st.WritePayload([]byte{1, 2}, false) })
	run(func(i int) { _ = c.write(i, 40) })
	rec.Wait()
	close(stop)
	wg.Wait()
	mix.Stop()
	_ = c.close()
	_ = sess.Close()
	select {
	case e := <-fail:
		return bad("%s", e)
	default:
	}
	return Out{NT: p.Conf > 10 && p.Desc > 0}
}

// reconfiguration ----------------------------------------------------------

type c39Op struct {
	Op   string `json:"op"` // register, default, swap, input, remove
	Type int    `json:"t,omitempty"`
	Nil  bool   `json:"nil,omitempty"`
}

type c39rPlan struct {
	Ops  []c39Op `json:"ops"`
	Def  bool    `json:"def"`
	Wrap int     `json:"wrap"` // parts around the mux
	Enc  int     `json:"enc"`  // encoder
	Rate int     `json:"rate"` // source rate of a resampler around the switch
}

// c39Name is a handler that only has a name.
type c39Name string

func (n c39Name) String() string                             { return string(n) }
func (n c39Name) HandleRTP(*prtp.Header, []byte) error       { return nil }
func (n c39Name) Close()                                     {}
func (n c39Name) WriteRTP(*prtp.Header, []byte) (int, error) { return 0, nil }

// c39Bytes is a named destination of encoded samples.
type c39Bytes[T any] struct {
	name string
	rate int
}

func (l c39Bytes[T]) String() string      { return l.name }
func (l c39Bytes[T]) SampleRate() int     { return l.rate }
func (l c39Bytes[T]) Close() error        { return nil }
func (l c39Bytes[T]) WriteSample(T) error { return nil }

func c39Reconfig(p c39rPlan) Out {
	names := 0
	name := func() string {
		names++
		return fmt.Sprintf("<%d>", names)
	}
	// The current destinations.
	reg := map[int]string{}
	def := ""
	var defH rtp.Handler
	if p.Def {
		def = name()
		defH = c39Name(def)
	}
	mx := rtp.NewMux(defH)
	var top rtp.Handler = mx
	for k := range p.Wrap {
		if k%2 == 0 {
			j := rtp.HandleJitter(rtp.NewNopCloser(top))
			defer j.Close()
			top = j
		} else {
			top = rtp.NewMux(top)
		}
	}
	sw := media.NewSwitchWriter(8000)
	swTop := media.PCM16Writer(sw)
	if p.Rate != 8000 {
		swTop = media.ResampleWriter(sw, p.Rate)
		defer swTop.Close()
	}
	dst := ""
	out := &c39Leaf{name: "<mixed>", rate: 8000}
	mix, err := mixer.NewMixer(out, time.Minute, 1)
	if err != nil {
		return bad("NewMixer: %v", err)
	}
	defer mix.Stop()
	var ins []*mixer.Input

	var enc interface{ String() string }
	switch p.Enc {
	case 0:
		enc = g711.EncodeULaw(c39Bytes[g711.ULawSample]{"<leaf>", 8000})
	case 1:
		enc = g711.EncodeALaw(c39Bytes[g711.ALawSample]{"<leaf>", 8000})
	case 2:
		enc = g722.Encode(c39Bytes[g722.Sample]{"<leaf>", 16000})
	case 3:
		e, err := opus.Encode(c39Bytes[opus.Sample]{"<leaf>", 48000}, 1, logger.GetLogger())
		if err != nil {
			return bad("opus.Encode: %v", err)
		}
		defer e.Close()
		enc = e
	case 4:
		enc = rtp.NewSeqWriter(c39Name("<leaf>"))
	case 5:
		enc = rtp.NewMediaStreamIn[g711.ULawSample](c39Bytes[g711.ULawSample]{"<leaf>", 8000})
	}
	if d := enc.String(); !strings.Contains(d, "<leaf>") {
		return bad("%T is described as %q, it forwards to <leaf>", enc, d)
	}

	check := func() string {
		want := map[string]bool{}
		for _, n := range reg {
			want[n] = true
		}
		if def != "" {
			want[def] = true
		}
		d := top.String()
		ds := swTop.String()
		for i := 1; i <= names; i++ {
			n := fmt.Sprintf("<%d>", i)
			if got := strings.Contains(d, n); got != want[n] {
				return fmt.Sprintf("the mux with handlers %v and default %q is described as %q", reg, def, d)
			}
			if got := strings.Contains(ds, n); got != (n == dst) {
				return fmt.Sprintf("the switch to %q is described as %q", dst, ds)
			}
		}
		for _, x := range append([]interface{ String() string }{mix}, func() (o []interface{ String() string }) {
			for _, in := range ins {
				o = append(o, in)
			}
			return
		}()...) {
			if d := x.String(); !strings.Contains(d, "<mixed>") {
				return fmt.Sprintf("%T is described as %q, it leads to <mixed>", x, d)
			}
		}
		return ""
	}
	if e := check(); e != "" {
		return bad("at the start: %s", e)
	}
	for i, op := range p.Ops {
		switch op.Op {
		case "register":
			if op.Nil {
				mx.Register(byte(op.Type), nil)
				delete(reg, op.Type)
			} else {
				reg[op.Type] = name()
				mx.Register(byte(op.Type), c39Name(reg[op.Type]))
			}
		case "default":
			if op.Nil {
				mx.SetDefault(nil)
				def = ""
			} else {
				def = name()
				mx.SetDefault(c39Name(def))
			}
		case "swap":
			if op.Nil {
				if old := sw.Swap(nil); old != nil {
					_ = old.Close()
				}
				dst = ""
			} else {
				dst = name()
				// Another rate is adapted by a resampler in between.
				if old := sw.Swap(&c39Leaf{name: dst, rate: []int{8000, 16000}[op.Type%2]}); old != nil {
					_ = old.Close()
				}
			}
		case "input":
			ins = append(ins, mix.NewInput())
		case "remove":
			if len(ins) > 0 {
				k := op.Type % len(ins)
				if op.Nil {
					mix.RemoveInput(ins[k])
				} else if err := ins[k].Close(); err != nil {
					return bad("Close of a mixer input: %v", err)
				}
			}
		}
		if e := check(); e != "" {
			return bad("after operation %d (%+v): %s", i, op, e)
		}
	}
	return Out{NT: len(p.Ops) > 2}
}

func init() {
	gen := func(t *rapid.T, mix bool) c39Plan {
		p := c39Plan{
			Rate:  rapid.SampledFrom([]int{8000, 16000, 48000, 24000}).Draw(t, "rate"),
			Head:  rapid.SampledFrom([]string{"", "pcmu", "pcma", "g722", "opus"}).Draw(t, "head"),
			Every: rapid.IntRange(1, 4).Draw(t, "every"),
			Mixer: mix && rapid.IntRange(0, 2).Draw(t, "mixer") == 0,
		}
		for range rapid.IntRange(0, 5).Draw(t, "stages") {
			s := c39Stage{Kind: rapid.SampledFrom([]string{"frames", "resample", "switch", "multi", "nop"}).Draw(t, "kind")}
			switch s.Kind {
			case "frames":
				s.N = rapid.IntRange(1, 500).Draw(t, "frame")
			case "resample":
				s.N = rapid.SampledFrom([]int{8000, 16000, 48000}).Draw(t, "to")
			case "switch":
				s.N = rapid.IntRange(0, 3).Draw(t, "late")
			case "multi":
				s.N = rapid.IntRange(0, 2).Draw(t, "more")
			}
			p.Stages = append(p.Stages, s)
		}
		if p.Head == "opus" {
			// It decodes to the rate of its destination.
			p.Stages = append(p.Stages, c39Stage{Kind: "resample", N: 48000})
		}
		if p.Head != "" {
			p.Front = rapid.SliceOfN(rapid.SampledFrom([]string{"mux", "muxdyn", "muxdef", "jitter"}), 0, 3).Draw(t, "front")
		}
		p.Writes = laps(t, rapid.SliceOfN(rapid.IntRange(1, 200), 0, 12).Draw(t, "writes"), 300)
		return p
	}
	reg("C39", "chain", opts{sec: [2]float64{5, 60}, rule: "at least two stages and a write"},
		func(t *rapid.T) c39Plan { return gen(t, true) }, c39Run)
	reg("C39", "concurrent", opts{build: "race", racy: true, reps: 20, sec: [2]float64{5, 60}, rule: "more than ten reconfigurations while being described"},
		func(t *rapid.T) c39cPlan {
			p := c39cPlan{
				Base:  gen(t, false),
				Desc:  rapid.IntRange(1, 3).Draw(t, "desc"),
				Conf:  rapid.IntRange(1, 60).Draw(t, "conf"),
				Types: rapid.SliceOfN(rapid.IntRange(0, 127), 1, 5).Draw(t, "types"),
			}
			return p
		}, c39Concurrent)
	reg("C39", "reconfig", opts{sec: [2]float64{3, 30}, rule: "more than two reconfigurations"},
		func(t *rapid.T) c39rPlan {
			p := c39rPlan{Def: rapid.Bool().Draw(t, "def"), Wrap: rapid.IntRange(0, 3).Draw(t, "wrap"), Enc: rapid.IntRange(0, 5).Draw(t, "enc"), Rate: rapid.SampledFrom([]int{8000, 16000, 48000}).Draw(t, "rate")}
			for range rapid.IntRange(0, 12).Draw(t, "n") {
				p.Ops = append(p.Ops, c39Op{
					Op:   rapid.SampledFrom([]string{"register", "register", "register", "default", "swap", "swap", "input", "remove"}).Draw(t, "op"),
					Type: rapid.OneOf(rapid.SampledFrom([]int{0, 8, 95, 96, 101, 127}), rapid.IntRange(0, 127)).Draw(t, "type"),
					Nil:  rapid.IntRange(0, 2).Draw(t, "nil") == 0,
				})
			}
			p.Ops = laps(t, p.Ops, 100)
			return p
		}, c39Reconfig)
}
