package props

import (
	"fmt"
	"runtime"
	"slices"
	"sort"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/mixer"
	"pgregory.net/rapid"
)

// C33, C34: the mixer in virtual time against a reference simulation.
// Times are in microseconds; ticks and delays are multiples of 10 of them,
// events are not, so that they never coincide.

type mixEv struct {
	At   int    `json:"at"`
	Op   string `json:"op"` // add, write, remove, again (remove a removed one), foreign
	In   int    `json:"in,omitempty"`
	Len  int    `json:"len,omitempty"`
	Kind int    `json:"kind,omitempty"`
	Seed int    `json:"seed,omitempty"`
}

type mixPlan struct {
	Rate   int     `json:"rate"`
	Period int     `json:"period"`
	Frames int     `json:"frames"` // input buffer; 0: default
	Chan   int     `json:"chan"`   // 0: no channel, -1: WithOutputChannel
	Events []mixEv `json:"events"`
	Hold   []int   `json:"hold,omitempty"` // delay of each write, repeated
	Fail   []int   `json:"fail,omitempty"` // writes that fail
	Stop   int     `json:"stop"`
	Stops  int     `json:"stops"` // number of Stop calls
	NoOpt  bool    `json:"noopt,omitempty"`
	Keep   bool    `json:"keep,omitempty"` // the writer keeps the frames instead of overwriting them
}

func (p mixPlan) size() int { return p.Rate * p.Period / 1000000 }
func (p mixPlan) bufFrames() int {
	if p.Frames <= 0 {
		return 5
	}
	return p.Frames
}

func mixSamples(e mixEv) media.PCM16Sample {
	out := make(media.PCM16Sample, e.Len)
	for i := range out {
		x := e.Seed*7919 + i
		switch e.Kind {
		case 0:
			out[i] = int16(x%2000 + 1)
		case 1:
			out[i] = []int16{32767, -32768, 32767, -32768, 1, -1, -32767, 20000}[(x>>3)%8]
		case 2:
			out[i] = int16(uint32(x) * 2654435761 >> 16)
		case 3:
			out[i] = -32768
		case 4:
			out[i] = 32767
		case 5:
			out[i] = 0
		}
	}
	return out
}

func (p mixPlan) hold(i int) int {
	if len(p.Hold) == 0 {
		return 0
	}
	if i >= len(p.Hold) {
		return 0
	}
	return p.Hold[i]
}

type mixFrame struct {
	at int
	f  media.PCM16Sample
}

type mixModel struct {
	frames                       []mixFrame // by start of the write
	in, dropped, mixed, restarts int
	writes                       int
	removed                      int
	tracks, total                int
	left                         int
	blocked                      bool // the mixer was held up at Stop
	pendingEnd                   int  // the last write before Stop ended
	bursts, resets, maxBurst     int
	sat                          bool
	starved                      int
	partial                      int
	cnt                          map[string][2]int // statistics at Stop, from the least to the most
}

type mixIn struct {
	q         []int16
	buffering bool
	active    bool
	added     bool
}

// simulate runs the reference mixer until Stop.
func (p mixPlan) simulate() *mixModel {
	m := &mixModel{cnt: map[string][2]int{}}
	size, nb := p.size(), p.bufFrames()
	count := func(k string, n int) { c := m.cnt[k]; m.cnt[k] = [2]int{c[0] + n, c[1] + n} }
	evs := slices.Clone(p.Events)
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].At < evs[j].At })
	ins := map[int]*mixIn{}
	var order []*mixIn
	ei := 0
	advance := func(t int) {
		for ; ei < len(evs) && evs[ei].At < t && evs[ei].At < p.Stop; ei++ {
			e := evs[ei]
			x := ins[e.In]
			switch e.Op {
			case "add":
				if x == nil {
					x = &mixIn{buffering: true, active: true, added: true}
					ins[e.In] = x
					order = append(order, x)
					m.tracks++
					m.total++
				}
			case "write":
				if x == nil {
					continue
				}
				s := mixSamples(e)
				m.in += len(s)
				count("InputFrames", 1)
				count("InputSamples", len(s))
				x.q = append(x.q, s...)
				if d := len(x.q) - size*nb; d > 0 {
					m.dropped += d
					count("InputFramesDropped", 1)
					count("InputSamplesDropped", d)
					x.q = x.q[d:]
				}
			case "remove":
				if x != nil && x.active {
					x.active = false
					m.tracks--
					m.removed++
				}
			}
		}
	}
	mix := func(t int) media.PCM16Sample {
		advance(t)
		sum := make([]int, size)
		for _, x := range order {
			if !x.active {
				continue
			}
			if x.buffering {
				if len(x.q) < (nb/2+1)*size {
					continue
				}
				x.buffering = false
			}
			n := min(size, len(x.q))
			if n == 0 {
				x.buffering = true
				m.starved++
				count("Restarts", 1)
				continue
			}
			if n < size {
				m.partial++
			}
			m.mixed += n
			count("MixedFrames", 1)
			count("MixedSamples", n)
			for i := range n {
				sum[i] += int(x.q[i])
			}
			x.q = x.q[n:]
		}
		out := make(media.PCM16Sample, size)
		for i, v := range sum {
			if v > 32767 || v < -32767 {
				m.sat = true
				v = min(max(v, -32767), 32767)
			}
			out[i] = int16(v)
		}
		return out
	}
	ch := p.Chan
	if ch < 0 {
		ch = 1
	}
	var start []int // of the writes
	end := func(i int) int { return start[i] + p.hold(i) }
	free, last := 0, 0 // mixer goroutine, last tick it received
	sched := -1        // end of the last mixed frame
	for {
		// One tick may be waiting.
		k := last/p.Period + 1
		t := k * p.Period
		if t < free {
			t = free
		}
		if t > p.Stop {
			m.blocked = free > p.Stop
			break
		}
		last = t
		n := 1
		if sched < 0 {
			sched = t
			count("TimedMixes", 1)
		} else {
			d := t - sched
			if d < 0 {
				count("NegativeMixes", 1)
				continue
			}
			n = (d + p.Period/4) / p.Period
			sched += n * p.Period
			switch n {
			case 0:
				count("ZeroMixes", 1)
			case 1:
				count("TimedMixes", 1)
			default:
				count("JumpMixes", n)
			}
		}
		if n > nb {
			n, sched = nb, t
			m.resets++
			count("TimingResets", n)
		}
		if n > 1 {
			m.bursts++
		}
		m.maxBurst = max(m.maxBurst, n)
		for range n {
			if t > p.Stop {
				break
			}
			f := mix(t)
			count("Mixes", 1)
			count("OutputFrames", 1)
			count("OutputSamples", size)
			i := len(start)
			if ch > 0 && i-ch >= 0 && i-ch < len(start) {
				if c := m.cnt["BlockedMixes"]; start[i-ch] > t {
					m.cnt["BlockedMixes"] = [2]int{c[0] + 1, c[1] + 1}
				} else if start[i-ch] == t {
					// Both at the same time.
					m.cnt["BlockedMixes"] = [2]int{c[0], c[1] + 1}
				}
				t = max(t, start[i-ch])
			}
			s := t
			if i > 0 {
				s = max(s, end(i-1))
			}
			start = append(start, s)
			m.frames = append(m.frames, mixFrame{s, f})
			if ch == 0 {
				t = end(i)
			}
		}
		free = t
	}
	advance(p.Stop)
	for _, x := range order {
		m.left += len(x.q)
	}
	for i, s := range start {
		if s < p.Stop {
			m.pendingEnd = end(i)
			m.writes++
		}
	}
	return m
}

type mixSink struct {
	mu    sync.Mutex
	p     mixPlan
	start time.Time
	got   []mixFrame
	kept  []media.PCM16Sample
	fails int
}

func (s *mixSink) String() string  { return "mixsink" }
func (s *mixSink) SampleRate() int { return s.p.Rate }
func (s *mixSink) WriteSample(f media.PCM16Sample) error {
	s.mu.Lock()
	i := len(s.got)
	fail := slices.Contains(s.p.Fail, i)
	if fail {
		s.fails++
	}
	s.got = append(s.got, mixFrame{int(time.Since(s.start) / time.Microsecond), slices.Clone(f)})
	s.mu.Unlock()
	// The mixer does not touch a frame while it is being written.
	if d := s.p.hold(i); d > 0 {
		time.Sleep(time.Duration(d) * time.Microsecond)
		s.mu.Lock()
		s.got[i].f = slices.Clone(f)
		s.mu.Unlock()
	}
	if s.p.Keep {
		s.mu.Lock()
		s.kept = append(s.kept, f)
		s.mu.Unlock()
	} else {
		for j := range f {
			f[j] = 12345
		}
	}
	if fail {
		return errSink
	}
	return nil
}

func (s *mixSink) frames() []mixFrame {
	s.mu.Lock()
	defer s.mu.Unlock()
	return slices.Clone(s.got)
}

func mixStats(st *mixer.Stats) map[string]int {
	return map[string]int{
		"Tracks": int(st.Tracks.Load()), "TracksTotal": int(st.TracksTotal.Load()), "Restarts": int(st.Restarts.Load()), "TimingResets": int(st.TimingResets.Load()),
		"Mixes": int(st.Mixes.Load()), "TimedMixes": int(st.TimedMixes.Load()), "JumpMixes": int(st.JumpMixes.Load()), "ZeroMixes": int(st.ZeroMixes.Load()), "NegativeMixes": int(st.NegativeMixes.Load()),
		"InputSamples": int(st.InputSamples.Load()), "InputFrames": int(st.InputFrames.Load()), "InputSamplesDropped": int(st.InputSamplesDropped.Load()), "InputFramesDropped": int(st.InputFramesDropped.Load()),
		"MixedSamples": int(st.MixedSamples.Load()), "MixedFrames": int(st.MixedFrames.Load()),
		"OutputSamples": int(st.OutputSamples.Load()), "OutputFrames": int(st.OutputFrames.Load()),
		"WriteErrors": int(st.WriteErrors.Load()), "BlockedMixes": int(st.BlockedMixes.Load()),
	}
}

func mixRun(p mixPlan, mode string) Out {
	return bubble(func() Out {
		st := new(mixer.Stats)
		sink := &mixSink{p: p, start: time.Now()}
		o := []mixer.MixerOptions{mixer.WithStats(st)}
		if p.Chan == -1 {
			o = append(o, mixer.WithOutputChannel())
		} else if p.Chan < 0 {
			o = append(o, mixer.WithOutputChannelSize((p.Chan+2)*3)) // one frame, too
		} else if p.Chan > 0 {
			o = append(o, mixer.WithOutputChannelSize(p.Chan))
		}
		if !p.NoOpt {
			o = append(o, mixer.WithInputBufferFrames(p.Frames))
		} else {
			p.Frames = 0
		}
		want := p.simulate()
		m, err := mixer.NewMixer(sink, time.Duration(p.Period)*time.Microsecond, 1, o...)
		if err != nil {
			return bad("NewMixer: %v", err)
		}
		if m.SampleRate() != p.Rate {
			return bad("SampleRate is %d, want %d", m.SampleRate(), p.Rate)
		}
		ins := map[int]*mixer.Input{}
		foreign := (*mixer.Mixer)(nil)
		at := func(us int) { time.Sleep(time.Duration(us)*time.Microsecond - time.Since(sink.start)) }
		evs := slices.Clone(p.Events)
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].At < evs[j].At })
		for _, e := range evs {
			if e.At >= p.Stop {
				continue
			}
			at(e.At)
			x := ins[e.In]
			switch e.Op {
			case "add":
				if x == nil {
					x = m.NewInput()
					if x == nil {
						m.Stop()
						return bad("NewInput returned nil")
					}
					if x.SampleRate() != p.Rate {
						m.Stop()
						return bad("SampleRate of an input is %d, want %d", x.SampleRate(), p.Rate)
					}
					ins[e.In] = x
				}
			case "write":
				if x != nil {
					s := mixSamples(e)
					if err := x.WriteSample(s); err != nil {
						m.Stop()
						return bad("WriteSample: %v", err)
					}
					for i := range s {
						s[i] = -9999 // the buffer is the caller's
					}
				}
			case "remove":
				if x != nil {
					if e.Kind == 0 {
						m.RemoveInput(x)
					} else if err := x.Close(); err != nil {
						m.Stop()
						return bad("Close: %v", err)
					}
				}
			case "foreign":
				m.RemoveInput(nil)
				if foreign == nil {
					foreign, _ = mixer.NewMixer(&mixSink{p: mixPlan{Rate: p.Rate}, start: time.Now()}, 20*time.Millisecond, 1)
					defer foreign.Stop()
				}
				m.RemoveInput(foreign.NewInput())
			}
		}
		at(p.Stop)
		got := sink.frames()
		stats := map[string][2]int{
			"samples in":      {int(st.InputSamples.Load()), want.in},
			"samples dropped": {int(st.InputSamplesDropped.Load()), want.dropped},
			"tracks":          {int(st.Tracks.Load()), want.tracks},
			"tracks in total": {int(st.TracksTotal.Load()), want.total},
		}
		if p.Chan == 0 {
			// With a channel, mixing runs ahead of the writes.
			stats["samples mixed"] = [2]int{int(st.MixedSamples.Load()), want.mixed}
			if !want.blocked {
				stats["write errors"] = [2]int{int(st.WriteErrors.Load()), sink.fails}
			}
		}
		if mode == "stats" {
			count := func(k string, n int) { c := want.cnt[k]; want.cnt[k] = [2]int{c[0] + n, c[1] + n} }
			count("Tracks", want.tracks)
			count("TracksTotal", want.total)
			for i := range want.writes {
				if slices.Contains(p.Fail, i) {
					switch e := want.frames[i].at + p.hold(i); {
					case e < p.Stop:
						count("WriteErrors", 1)
					case e == p.Stop:
						c := want.cnt["WriteErrors"]
						want.cnt["WriteErrors"] = [2]int{c[0], c[1] + 1}
					}
				}
			}
			have := mixStats(st)
			m.Stop()
			settle := 20 * p.Period
			for i := range p.Hold {
				settle += p.hold(i)
			}
			time.Sleep(time.Duration(settle) * time.Microsecond)
			for k, v := range have {
				if c := want.cnt[k]; v < c[0] || v > c[1] {
					return bad("statistics: %s is %d, want %d to %d", k, v, c[0], c[1])
				}
			}
			for k := range want.cnt {
				if _, ok := have[k]; !ok {
					return bad("harness: no %s", k)
				}
			}
			o := Out{NT: len(want.frames) > 2}
			for k, v := range have {
				if v > 0 {
					o = o.cls(k)
				}
			}
			return o
		}
		for range max(1, p.Stops) {
			m.Stop()
		}
		x := m.NewInput()
		sent := len(got)
		settle := 0
		for i := range p.Hold {
			settle += p.hold(i)
		}
		time.Sleep(time.Duration(settle+20*p.Period) * time.Microsecond)
		synctest.Wait()
		for i, f := range sink.kept {
			if g := sink.got[i].f; !slices.Equal(f, g) {
				return bad("frame %d has changed after it was written: %s", i, diffAt(f, g))
			}
		}
		after := sink.frames()[sent:]
		for i := range max(len(got), want.writes) {
			if i >= len(got) || i >= want.writes {
				return bad("%d frames were written until %d us, want %d (the last at %v and %v us)", len(got), p.Stop, want.writes, lastAt(got), lastAt(want.frames[:want.writes]))
			}
			if got[i].at != want.frames[i].at {
				return bad("frame %d was written at %d us, want %d us", i, got[i].at, want.frames[i].at)
			}
			if !slices.Equal(got[i].f, want.frames[i].f) {
				return bad("frame %d (%d us): %s", i, got[i].at, diffAt(got[i].f, want.frames[i].f))
			}
		}
		for k, v := range stats {
			if v[0] != v[1] {
				return bad("statistics: %s: %d, want %d", k, v[0], v[1])
			}
		}
		if x != nil {
			return bad("NewInput works on a stopped mixer")
		}
		limit := 0
		ch := p.Chan
		if ch < 0 {
			ch = 1
		}
		if p.Chan != 0 && (want.blocked || want.pendingEnd > p.Stop) {
			limit = ch + 1 // what had been mixed before
		}
		if len(after) > limit {
			return bad("%d frames were written after Stop (held up: %v, channel %d)", len(after), want.blocked || want.pendingEnd > p.Stop, p.Chan)
		}
		if n := int(st.WriteErrors.Load()); n != sink.fails {
			return bad("statistics: %d write errors, want %d", n, sink.fails)
		}
		if mixes := int(st.Mixes.Load()); mixes > sent+limit+ch+1 {
			return bad("%d frames mixed, %d written until Stop", mixes, sent)
		}
		if in, rest := int(st.InputSamples.Load()), int(st.InputSamplesDropped.Load()+st.MixedSamples.Load()); p.Chan == 0 && !want.blocked && in-rest != want.left {
			return bad("statistics: %d samples in, %d mixed or dropped, %d left", in, rest, want.left)
		}
		out := Out{NT: want.mixed > 0 && (want.total > 1 || want.dropped > 0 || want.starved > 0)}
		if mode == "cadence" {
			out.NT = want.bursts > 0 || want.resets > 0 || len(p.Fail) > 0
		}
		for c, ok := range map[string]bool{"saturated": want.sat, "dropped": want.dropped > 0, "starved": want.starved > 0, "partial": want.partial > 0, "removed": want.removed > 0, "channel": p.Chan != 0, "burst": want.bursts > 0, "reset": want.resets > 0, "over-500-frames": len(want.frames) > 500, "stopped-held-up": want.blocked || want.pendingEnd > p.Stop, "many-inputs": want.total > 3, "failing": sink.fails > 0} {
			if ok {
				out = out.cls(c)
			}
		}
		return out
	})
}

func lastAt(f []mixFrame) int {
	if len(f) == 0 {
		return -1
	}
	return f[len(f)-1].at
}

func genMixBase(t *rapid.T) mixPlan {
	p := mixPlan{
		Rate:   rapid.SampledFrom([]int{8000, 8000, 16000, 48000, 44100, 11025}).Draw(t, "rate"),
		Period: rapid.OneOf(rapid.SampledFrom([]int{20000, 10000, 5000, 1000}), rapid.Map(rapid.IntRange(50, 3000), func(i int) int { return i * 10 })).Draw(t, "period"),
		Frames: rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 5, 7, 10, -1}).Draw(t, "frames"),
		Stops:  rapid.IntRange(1, 2).Draw(t, "stops"),
		Keep:   rapid.Bool().Draw(t, "keep"),
	}
	p.NoOpt = p.Frames == 0 && rapid.Bool().Draw(t, "noopt")
	return p
}

func genMixEvents(t *rapid.T, p *mixPlan, horizon int) {
	size, nb := p.size(), p.bufFrames()
	n := crowd(t, 1, 5, 70, "inputs")
	for i := range n {
		at := rapid.IntRange(0, horizon/2).Draw(t, "add")
		p.Events = append(p.Events, mixEv{At: at/10*10 + 3, Op: "add", In: i})
		kind := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4}).Draw(t, "kind")
		switch rapid.IntRange(0, 2).Draw(t, "pace") {
		case 0: // a steady stream, possibly with gaps
			for x := at; x < horizon; x += p.Period {
				if rapid.IntRange(0, 9).Draw(t, "gap") == 0 {
					x += p.Period * rapid.IntRange(1, 2*nb).Draw(t, "gaplen")
				}
				j := rapid.IntRange(0, p.Period-1).Draw(t, "jitter")
				p.Events = append(p.Events, mixEv{At: (x+j)/10*10 + 5, Op: "write", In: i, Len: size, Kind: kind, Seed: len(p.Events)})
			}
		default:
			for range rapid.IntRange(0, 25).Draw(t, "writes") {
				l := rapid.OneOf(rapid.Just(size), rapid.IntRange(0, 2*size), rapid.IntRange(0, size*nb+size), rapid.Just(size*(nb/2+1)), rapid.Just(size*nb), rapid.Just(size*(nb/2+1)-1)).Draw(t, "len")
				p.Events = append(p.Events, mixEv{At: rapid.IntRange(at, horizon).Draw(t, "at")/10*10 + 5, Op: "write", In: i, Len: l, Kind: kind, Seed: len(p.Events)})
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "remove?") == 0 {
			r := rapid.IntRange(at, horizon).Draw(t, "remove")
			p.Events = append(p.Events, mixEv{At: r/10*10 + 7, Op: "remove", In: i, Kind: rapid.IntRange(0, 1).Draw(t, "how")})
			if rapid.IntRange(0, 2).Draw(t, "twice") == 0 {
				p.Events = append(p.Events, mixEv{At: rapid.IntRange(r, horizon).Draw(t, "again")/10*10 + 9, Op: "remove", In: i})
			}
		}
	}
	if rapid.IntRange(0, 4).Draw(t, "foreign") == 0 {
		p.Events = append(p.Events, mixEv{At: rapid.IntRange(0, horizon).Draw(t, "fat")/10*10 + 1, Op: "foreign"})
	}
}

func genC33(t *rapid.T) mixPlan {
	p := genMixBase(t)
	ticks := crowd(t, 3, 30, 300, "ticks")
	p.Stop = ticks*p.Period + rapid.IntRange(1, p.Period-1).Draw(t, "stop")/10*10 + 2
	p.Chan = rapid.SampledFrom([]int{0, 0, 0, -1, 1, 2, 5, -2, -3}).Draw(t, "chan")
	genMixEvents(t, &p, p.Stop)
	if rapid.IntRange(0, 3).Draw(t, "slow") == 0 {
		for range rapid.IntRange(1, 12).Draw(t, "holds") {
			p.Hold = append(p.Hold, rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5}).Draw(t, "hold")*p.Period/20*10)
		}
	}
	return p
}

func genC34(t *rapid.T) mixPlan {
	p := genMixBase(t)
	p.Chan = rapid.SampledFrom([]int{0, 0, 0, -1, 1, 2, 5, -2, -3}).Draw(t, "chan")
	ticks := crowd(t, 3, 60, 3000, "ticks")
	nb := p.bufFrames()
	for range rapid.IntRange(0, 25).Draw(t, "holds") {
		h := 0
		switch rapid.IntRange(0, 4).Draw(t, "hold?") {
		case 0: // less than the buffer
			h = rapid.IntRange(1, nb*p.Period).Draw(t, "hold")
		case 1:
			h = rapid.IntRange(1, (3*nb+3)*p.Period).Draw(t, "hold")
		case 2:
			h = rapid.IntRange(1, p.Period).Draw(t, "hold")
		}
		p.Hold = append(p.Hold, h/10*10)
	}
	if ticks > 60 {
		p.Hold = slices.Repeat(p.Hold, rapid.IntRange(0, 100).Draw(t, "again"))
	}
	p.Fail = rapid.SliceOfN(rapid.IntRange(0, ticks), 0, 6).Draw(t, "fail")
	p.Stop = ticks*p.Period + rapid.IntRange(1, p.Period-1).Draw(t, "stop")/10*10 + 2
	if rapid.Bool().Draw(t, "inputs?") {
		genMixEvents(t, &p, p.Stop)
	}
	return p
}

// C35: the mixer with concurrent inputs, in real time under the race detector.

type c35In struct {
	Frames []int `json:"frames"` // lengths
	Every  int   `json:"every"`  // microseconds between writes
	After  int   `json:"after"`  // microseconds until it is added
	Late   int   `json:"late"`   // writes after the removal
	Close  int   `json:"close"`  // number of concurrent removals
}

type c35Plan struct {
	Frames int     `json:"frames"`
	Chan   int     `json:"chan"`
	Ins    []c35In `json:"ins"` // the first three are identifiable in the output
	Churn  int     `json:"churn"`
	Stop   int     `json:"stop"`  // stop after so many frames, else at the end
	Spin   int     `json:"spin"`  // writer's work
	Procs  int     `json:"procs"` // GOMAXPROCS
}

type c35Sink struct {
	mu   sync.Mutex
	out  media.PCM16Sample
	n    atomic.Int64
	spin int
}

func (s *c35Sink) String() string  { return "c35" }
func (s *c35Sink) SampleRate() int { return 8000 }
func (s *c35Sink) WriteSample(f media.PCM16Sample) error {
	for range s.spin {
		runtime.Gosched()
	}
	s.mu.Lock()
	s.out = append(s.out, f...)
	s.mu.Unlock()
	s.n.Add(1)
	clear(f) // the frame is ours now
	return nil
}

func c35Run(p c35Plan) Out {
	if p.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(p.Procs))
	}
	st := new(mixer.Stats)
	sink := &c35Sink{spin: p.Spin}
	o := []mixer.MixerOptions{mixer.WithStats(st), mixer.WithInputBufferFrames(p.Frames)}
	if p.Chan > 0 {
		o = append(o, mixer.WithOutputChannelSize(p.Chan))
	}
	const period = time.Millisecond
	m, err := mixer.NewMixer(sink, period, 1, o...)
	if err != nil {
		return bad("NewMixer: %v", err)
	}
	defer m.Stop()
	var wg, churn sync.WaitGroup
	type id struct {
		written int
		removed bool
	}
	ids := make([]id, len(p.Ins))
	ins := make([]*mixer.Input, len(p.Ins))
	var viol atomic.Value
	var total, tracks atomic.Int64
	for i, c := range p.Ins {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if c.After > 0 {
				time.Sleep(time.Duration(c.After) * time.Microsecond)
			}
			x := m.NewInput()
			if x == nil {
				return
			}
			ins[i] = x
			tracks.Add(1)
			buf := make(media.PCM16Sample, 0, 64)
			for _, l := range c.Frames {
				buf = buf[:0]
				for range l {
					v := int16(0)
					if i < 3 {
						// 1 to 31, in five bits of the output for each input
						v = int16(ids[i].written%31+1) << (5 * i)
					}
					buf = append(buf, v)
					ids[i].written++
				}
				if err := x.WriteSample(buf); err != nil {
					viol.Store(fmt.Sprintf("WriteSample: %v", err))
				}
				total.Add(int64(l))
				for j := range buf {
					buf[j] = 0x2ad
				}
				switch {
				case c.Every > 0:
					time.Sleep(time.Duration(c.Every) * time.Microsecond)
				case c.Every < 0:
					runtime.Gosched()
				}
			}
			if c.Close > 0 {
				ids[i].removed = true
				var rm sync.WaitGroup
				for k := range c.Close {
					rm.Add(1)
					go func() {
						defer rm.Done()
						if k%2 == 0 {
							_ = x.Close()
						} else {
							m.RemoveInput(x)
						}
					}()
				}
				rm.Wait()
				tracks.Add(-1)
				for range c.Late {
					_ = x.WriteSample(media.PCM16Sample{0, 0, 0})
					total.Add(3)
				}
			}
		}()
	}
	stop := make(chan struct{})
	for range p.Churn {
		churn.Add(1)
		go func() {
			defer churn.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if x := m.NewInput(); x != nil {
					_ = x.WriteSample(media.PCM16Sample{0, 0, 0, 0, 0})
					total.Add(5)
					m.RemoveInput(nil)
					_ = x.Close()
					_ = x.Close()
				}
				_ = st.Tracks.Load()
				time.Sleep(200 * time.Microsecond)
			}
		}()
	}
	stopped := false
	if p.Stop > 0 {
		for t0 := time.Now(); int(sink.n.Load()) < p.Stop && time.Since(t0) < 5*time.Second; {
			time.Sleep(200 * time.Microsecond)
		}
		m.Stop()
		stopped = true
	}
	wg.Wait()
	if !stopped {
		// Let it drain.
		n := sink.n.Load()
		for t0 := time.Now(); sink.n.Load() < n+int64(st2frames(p.Frames))+4 && time.Since(t0) < 5*time.Second; {
			time.Sleep(time.Millisecond)
		}
	}
	close(stop)
	churn.Wait()
	m.Stop()
	// Wait until it is quiet.
	for q := 0; q < 4; {
		n := sink.n.Load()
		time.Sleep(2 * period)
		if sink.n.Load() == n {
			q++
		} else {
			q = 0
		}
	}
	if v := viol.Load(); v != nil {
		return bad("%s", v)
	}
	in, drop, mixed := int(st.InputSamples.Load()), int(st.InputSamplesDropped.Load()), int(st.MixedSamples.Load())
	if in != int(total.Load()) {
		return bad("statistics: %d samples in, %d were written", in, total.Load())
	}
	if n := st.Tracks.Load(); n != tracks.Load() {
		return bad("statistics: %d tracks, %d inputs are there", n, tracks.Load())
	}
	left := in - drop - mixed
	if left < 0 {
		return bad("statistics: %d samples in, but %d mixed and %d dropped", in, mixed, drop)
	}
	if !stopped {
		// Inputs that are still there have been drained below the level at which they start.
		bound := (st2frames(p.Frames)/2 + 1) * 8
		for i, x := range ins {
			if x != nil && ids[i].removed {
				left -= st2frames(p.Frames) * 8 // whatever was left, at most a full buffer
			} else if x != nil {
				left -= bound - 1
			}
		}
		if p.Churn == 0 && left > 0 {
			return bad("statistics: %d samples in, %d mixed, %d dropped: %d too many are left", in, mixed, drop, left)
		}
	}
	sink.mu.Lock()
	out := sink.out
	sink.mu.Unlock()
	heardAny := 0
	for i := range min(3, len(p.Ins)) {
		prev, heard, skipped := -1, 0, 0
		for k, v := range out {
			d := int(v)>>(5*i)&31 - 1
			if v < 0 {
				return bad("output sample %d is %d: not a sum of what was written", k, v)
			}
			if d < 0 {
				continue
			}
			heard++
			if step := (d - prev + 31 + 30) % 31; step != 0 {
				skipped += step
			}
			prev = d
		}
		heardAny += heard
		if heard > ids[i].written {
			return bad("input %d: %d samples written, %d heard", i, ids[i].written, heard)
		}
		// What is skipped has been dropped. With a backward jump this is exceeded.
		if skipped > drop {
			return bad("input %d: %d of %d samples heard, gaps of at least %d samples in total, but only %d samples were dropped: out of order or lost", i, heard, ids[i].written, skipped, drop)
		}
		if len(p.Ins) <= 1 && p.Churn == 0 && heard != mixed && p.Chan == 0 {
			return bad("input %d: %d samples heard, %d mixed", i, heard, mixed)
		}
	}
	o2 := Out{NT: len(p.Ins) > 1 && heardAny > 0}
	for c, ok := range map[string]bool{"dropped": drop > 0, "lossless": drop == 0, "stopped-early": stopped, "channel": p.Chan > 0, "churn": p.Churn > 0} {
		if ok {
			o2 = o2.cls(c)
		}
	}
	return o2
}

func st2frames(n int) int {
	if n <= 0 {
		return 5
	}
	return n
}

func init() {
	reg("C33", "history", opts{sec: [2]float64{10, 100}, rule: "samples are mixed, with several inputs, an overflow or an input running dry"},
		genC33, func(p mixPlan) Out { return mixRun(p, "history") })
	reg("C33", "long", opts{sec: [2]float64{2, 30}, rule: "samples are mixed, with several inputs, an overflow or an input running dry"},
		func(t *rapid.T) mixPlan {
			p := genMixBase(t)
			p.Rate, p.NoOpt = 8000, false
			p.Period = rapid.SampledFrom([]int{20000, 10000, 5000}).Draw(t, "p")
			ticks := rapid.IntRange(300, 2000).Draw(t, "ticks")
			p.Stop = ticks*p.Period + 2
			for i := range rapid.IntRange(1, 3).Draw(t, "inputs") {
				p.Events = append(p.Events, mixEv{At: 3, Op: "add", In: i})
				lens := rapid.SliceOfN(rapid.OneOf(rapid.Just(p.size()), rapid.Just(p.size()), rapid.IntRange(0, 2*p.size())), 1, 9).Draw(t, "lens")
				late := rapid.SliceOfN(rapid.IntRange(0, 3*p.Period), 1, 7).Draw(t, "late")
				for x := range ticks {
					p.Events = append(p.Events, mixEv{At: (x*p.Period+late[x%len(late)])/10*10 + 5, Op: "write", In: i, Len: lens[x%len(lens)], Kind: 1 + i, Seed: x})
				}
			}
			return p
		}, func(p mixPlan) Out { return mixRun(p, "history") })
	reg("C34", "long", opts{sec: [2]float64{3, 40}, rule: "the mixer has to catch up, restarts its schedule, or writes fail"},
		func(t *rapid.T) mixPlan {
			p := genMixBase(t)
			p.Rate = 8000
			ticks := rapid.IntRange(200, 4000).Draw(t, "ticks")
			p.Stop = ticks*p.Period + rapid.IntRange(1, p.Period-1).Draw(t, "stop")/10*10 + 2
			some := rapid.SliceOfN(rapid.OneOf(rapid.Just(0), rapid.IntRange(0, p.Period), rapid.IntRange(0, p.bufFrames()*p.Period)), 1, 20).Draw(t, "holds")
			for range ticks {
				p.Hold = append(p.Hold, some[len(p.Hold)%len(some)]/10*10)
			}
			return p
		}, func(p mixPlan) Out { return mixRun(p, "cadence") })
	reg("C34", "cadence", opts{sec: [2]float64{10, 100}, rule: "the mixer has to catch up, restarts its schedule, or writes fail"},
		genC34, func(p mixPlan) Out { return mixRun(p, "cadence") })
	reg("C41", "stats", opts{sec: [2]float64{10, 100}, rule: "more than two frames are mixed"},
		func(t *rapid.T) mixPlan {
			if rapid.Bool().Draw(t, "history?") {
				return genC33(t)
			}
			return genC34(t)
		}, func(p mixPlan) Out { return mixRun(p, "stats") })
	reg("C35", "stress", opts{build: "race", sec: [2]float64{12, 120}, racy: true, reps: 60, rule: "several inputs at once, and something was heard"},
		func(t *rapid.T) c35Plan {
			p := c35Plan{
				Frames: rapid.SampledFrom([]int{0, 1, 2, 3, 5, 20}).Draw(t, "frames"),
				Chan:   rapid.SampledFrom([]int{0, 0, 1, 4}).Draw(t, "chan"),
				Churn:  rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "churn"),
				Spin:   rapid.SampledFrom([]int{0, 0, 3, 50}).Draw(t, "spin"),
				Procs:  rapid.SampledFrom([]int{0, 0, 2, 4}).Draw(t, "procs"),
			}
			if rapid.IntRange(0, 3).Draw(t, "stop?") == 0 {
				p.Stop = rapid.IntRange(1, 12).Draw(t, "stop")
			}
			for range crowd(t, 1, 8, 60, "n") {
				c := c35In{
					Frames: rapid.SliceOfN(rapid.SampledFrom([]int{8, 8, 8, 8, 3, 0, 16, 11, 40}), 0, 16).Draw(t, "lens"),
					Every:  rapid.SampledFrom([]int{0, -1, 300, 900, 1000, 1000}).Draw(t, "every"),
					After:  rapid.SampledFrom([]int{0, 0, 500, 3000}).Draw(t, "after"),
				}
				if rapid.IntRange(0, 2).Draw(t, "close?") == 0 {
					c.Close = rapid.IntRange(1, 3).Draw(t, "close")
					c.Late = rapid.IntRange(0, 2).Draw(t, "late")
				}
				p.Ins = append(p.Ins, c)
			}
			return p
		}, c35Run)
}
