package props

import (
	"bytes"
	"slices"
	"sort"
	"sync"
	"time"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/opus"
	mrtp "github.com/livekit/media-sdk/rtp"
	prtp "github.com/pion/rtp"
	pmedia "github.com/pion/webrtc/v4/pkg/media"
	"pgregory.net/rapid"
)

// C05: in-memory sinks and sources.

type c05Plan struct {
	Kind    string `json:"kind"`
	Lens    []int  `json:"lens"`
	CloseAt int    `json:"close"` // buffer sink: index at which it is closed, -1 never
	Rate    int    `json:"rate"`
	DurUs   int    `json:"dur,omitempty"`
	Init    int    `json:"init,omitempty"`  // samples present in the target beforehand
	Data    int    `json:"data,omitempty"`  // reader: source length
	Takes   []int  `json:"takes,omitempty"` // frames, buffer: writes before which the caller takes what was collected
}

func init() {
	reg("C05", "sinks", opts{sec: [2]float64{6, 60}, rule: "at least two non-empty writes or reads"},
		func(t *rapid.T) c05Plan {
			p := c05Plan{
				Kind: rapid.SampledFrom([]string{"frames", "buffer", "reader", "samples-opus", "samples-g722", "rtpbuffer"}).Draw(t, "kind"),
				Lens: huge(t, laps(t, rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(0, 300), rapid.SampledFrom([]int{480, 960, 1500, 1920, 5000})), 0, 20).Draw(t, "lens"), 600)),
				Rate: rapid.SampledFrom([]int{8000, 16000, 48000, 44100, 1}).Draw(t, "rate"),
				Init: rapid.IntRange(0, 5).Draw(t, "init"),
			}
			p.CloseAt = -1
			if rapid.Bool().Draw(t, "closes") {
				p.CloseAt = rapid.IntRange(0, 20).Draw(t, "close")
			}
			if p.Kind == "reader" {
				p.Data = rapid.IntRange(0, 600).Draw(t, "data")
			}
			if p.Kind == "frames" || p.Kind == "buffer" {
				p.Takes = rapid.SliceOfN(rapid.IntRange(0, 20), 0, 3).Draw(t, "takes")
			}
			p.DurUs = rapid.IntRange(0, 100000).Draw(t, "dur")
			return p
		}, c05Run)
	reg("C05", "concurrent-buffer", opts{build: "race", racy: true, reps: 30, sec: [2]float64{3, 30}, rule: "at least two writers with several writes"},
		func(t *rapid.T) c05cPlan {
			return c05cPlan{
				Writers: rapid.IntRange(2, 5).Draw(t, "w"),
				Writes:  rapid.IntRange(1, 40).Draw(t, "n"),
				Len:     rapid.IntRange(1, 20).Draw(t, "len"),
				Close:   rapid.Bool().Draw(t, "close"),
			}
		}, c05Concurrent)
}

type sampleRec struct {
	got []pmedia.Sample
	err error
}

func (s *sampleRec) WriteSample(sm pmedia.Sample) error {
	s.got = append(s.got, sm)
	return s.err
}

func c05Run(p c05Plan) Out {
	nonEmpty := 0
	for _, n := range p.Lens {
		if n > 0 {
			nonEmpty++
		}
	}
	o := Out{NT: nonEmpty >= 2}.cls(p.Kind)
	switch p.Kind {
	case "frames":
		var frames []media.PCM16Sample
		for i := 0; i < p.Init; i++ {
			frames = append(frames, media.PCM16Sample{int16(i)})
		}
		w := media.NewPCM16FrameWriter(&frames, p.Rate)
		if w.SampleRate() != p.Rate {
			return bad("sample rate %d", w.SampleRate())
		}
		var taken []media.PCM16Sample
		for i, n := range p.Lens {
			if slices.Contains(p.Takes, i) {
				taken, frames = append(taken, frames...), nil
			}
			s := c04PCM(i, n)
			if err := w.WriteSample(s); err != nil {
				return bad("write: %v", err)
			}
			for j := range s {
				s[j] = 0x5A5A
			}
		}
		if err := w.Close(); err != nil {
			return bad("close: %v", err)
		}
		frames = append(taken, frames...)
		if len(frames) != p.Init+len(p.Lens) {
			return bad("%d frames, want %d", len(frames), p.Init+len(p.Lens))
		}
		for i := 0; i < p.Init; i++ {
			if !eqSlice(frames[i], media.PCM16Sample{int16(i)}) {
				return bad("existing frame %d changed", i)
			}
		}
		for i, n := range p.Lens {
			if !eqSlice(frames[p.Init+i], c04PCM(i, n)) {
				return bad("frame %d differs: %s", i, diffAt(frames[p.Init+i], c04PCM(i, n)))
			}
		}
		// Every frame is a slice of its own: the consumer may change and extend it.
		for i := range frames[p.Init:] {
			f := append(frames[p.Init+i], 0x1234, 0x1235)
			for j := range f {
				f[j] = int16(0x1000 + i)
			}
			for j := range frames[p.Init+i] {
				frames[p.Init+i][j] = int16(0x1000 + i)
			}
			for k, n := range p.Lens {
				want := c04PCM(k, n)
				if k <= i {
					want = slices.Repeat(media.PCM16Sample{int16(0x1000 + k)}, n)
				}
				if !eqSlice(frames[p.Init+k], want) {
					return bad("frame %d changed when frame %d was extended: %s", k, i, diffAt(frames[p.Init+k], want))
				}
			}
		}
	case "buffer":
		buf := c04PCM(1000, p.Init)
		want := append(media.PCM16Sample{}, buf...)
		w := media.NewPCM16BufferWriter(&buf, p.Rate)
		if w.SampleRate() != p.Rate {
			return bad("sample rate %d", w.SampleRate())
		}
		closed := false
		var taken, wantTaken []media.PCM16Sample
		for i, n := range p.Lens {
			if slices.Contains(p.Takes, i) {
				taken, wantTaken = append(taken, buf), append(wantTaken, want)
				buf, want = nil, nil
			}
			if i == p.CloseAt {
				if err := w.Close(); err != nil {
					return bad("close: %v", err)
				}
				closed = true
			}
			s := c04PCM(i, n)
			if err := w.WriteSample(s); err != nil {
				return bad("write: %v", err)
			}
			if !closed {
				want = append(want, s...)
			}
			for j := range s {
				s[j] = 0x5A5A
			}
			if !eqSlice(buf, want) {
				return bad("after write %d (closed %v): %s", i, closed, diffAt(buf, want))
			}
			for k := range taken {
				if !eqSlice(taken[k], wantTaken[k]) {
					return bad("write %d changed what was taken out before: %s", i, diffAt(taken[k], wantTaken[k]))
				}
			}
		}
		if protect(func() { media.NewPCM16BufferWriter(nil, 8000) }) == nil {
			return bad("nil buffer accepted")
		}
	case "reader":
		src := c04PCM(7, p.Data)
		r := media.NewPCM16BufferReader(src)
		pos := 0
		for i, n := range p.Lens {
			dst := make(media.PCM16Sample, n)
			for j := range dst {
				dst[j] = 0x5A5A
			}
			got, err := r.ReadSample(dst)
			want := min(n, p.Data-pos)
			if got != want || err != nil {
				return bad("read %d of %d at %d/%d: (%d,%v)", i, n, pos, p.Data, got, err)
			}
			if !eqSlice(dst[:got], c04PCM(7, p.Data)[pos:pos+got]) {
				return bad("read %d: wrong data", i)
			}
			for _, v := range dst[got:] {
				if v != 0x5A5A {
					return bad("read %d wrote beyond its result", i)
				}
			}
			pos += got
		}
	case "samples-opus", "samples-g722":
		rec := &sampleRec{}
		dur := time.Duration(p.DurUs) * time.Microsecond
		var write func([]byte) error
		var rate int
		var cl func() error
		if p.Kind == "samples-opus" {
			w := media.FromSampleWriter[opus.Sample](rec, p.Rate, dur)
			write, rate, cl = func(b []byte) error { return w.WriteSample(b) }, w.SampleRate(), w.Close
		} else {
			w := media.FromSampleWriter[g722.Sample](rec, p.Rate, dur)
			write, rate, cl = func(b []byte) error { return w.WriteSample(b) }, w.SampleRate(), w.Close
		}
		if rate != p.Rate {
			return bad("sample rate %d", rate)
		}
		for i, n := range p.Lens {
			if i == p.CloseAt {
				rec.err = errSink
			}
			b := c04Bytes(i, n)
			if err := write(b); err != rec.err {
				return bad("write %d: %v want %v", i, err, rec.err)
			}
			for j := range b {
				b[j] = 0xEE
			}
		}
		if err := cl(); err != nil {
			return bad("close: %v", err)
		}
		if len(rec.got) != len(p.Lens) {
			return bad("%d samples forwarded, want %d", len(rec.got), len(p.Lens))
		}
		// Every sample's data belongs to the receiver, which may extend it.
		for _, sm := range rec.got {
			_ = append(sm.Data, 0xE1, 0xE2)
		}
		for i, n := range p.Lens {
			if !bytes.Equal(rec.got[i].Data, c04Bytes(i, n)) || rec.got[i].Duration != dur {
				return bad("sample %d: %d bytes, duration %v; want %d bytes, %v", i, len(rec.got[i].Data), rec.got[i].Duration, n, dur)
			}
		}
	case "rtpbuffer":
		var b mrtp.Buffer
		var want []prtp.Header
		h := prtp.Header{Version: 2}
		for i, n := range p.Lens {
			pl := c04Bytes(i, n)
			h.SequenceNumber = uint16(i * 3)
			h.Timestamp = uint32(i * 160)
			h.SSRC = uint32(p.Rate)
			h.Marker = i%2 == 0
			h.PayloadType = uint8(i % 128)
			if n%3 > 0 {
				h.CSRC = append(h.CSRC[:0], make([]uint32, n%3)...)
				for j := range h.CSRC {
					h.CSRC[j] = uint32(i*100 + j)
				}
			} else {
				h.CSRC = h.CSRC[:0]
			}
			if n%2 == 1 {
				if err := h.SetExtension(byte(1+i%3), c04Bytes(i+1000, 1+n%16)); err != nil {
					return bad("harness: %v", err)
				}
			}
			want = append(want, h.Clone())
			got, err := b.WriteRTP(&h, pl)
			if got != n || err != nil {
				return bad("WriteRTP=(%d,%v), payload %d", got, err, n)
			}
			for j := range pl {
				pl[j] = 0xEE
			}
			for _, x := range h.GetExtensionIDs() {
				for b, j := h.GetExtension(x), 0; j < len(b); j++ {
					b[j] = 0xEE
				}
			}
		}
		for j := range h.CSRC {
			h.CSRC[j] = 0xEE
		}
		h = prtp.Header{Timestamp: 0xdead}
		if len(b) != len(p.Lens) {
			return bad("%d packets, want %d", len(b), len(p.Lens))
		}
		for _, pk := range b {
			_ = append(pk.Payload, 0xE1, 0xE2)
		}
		for i, n := range p.Lens {
			if !c05Header(b[i].Header, want[i]) || !bytes.Equal(b[i].Payload, c04Bytes(i, n)) {
				return bad("packet %d differs: %+v", i, b[i].Header)
			}
		}
	}
	return o
}

// c05Header compares headers by value.
func c05Header(a, b prtp.Header) bool {
	x, err := a.Marshal()
	y, err2 := b.Marshal()
	return err == nil && err2 == nil && bytes.Equal(x, y)
}

type c05cPlan struct {
	Writers int  `json:"w"`
	Writes  int  `json:"n"`
	Len     int  `json:"len"`
	Close   bool `json:"close"`
}

func c05Concurrent(p c05cPlan) Out {
	var buf media.PCM16Sample
	w := media.NewPCM16BufferWriter(&buf, 8000)
	var wg sync.WaitGroup
	for k := 0; k < p.Writers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := make(media.PCM16Sample, p.Len)
			for i := 0; i < p.Writes; i++ {
				for j := range s {
					s[j] = int16(k*1000 + i)
				}
				_ = w.WriteSample(s)
			}
		}()
	}
	if p.Close {
		wg.Add(1)
		go func() { defer wg.Done(); _ = w.Close() }()
	}
	wg.Wait()
	_ = w.Close()
	if len(buf)%p.Len != 0 {
		return bad("length %d is not a multiple of the write length %d", len(buf), p.Len)
	}
	if !p.Close && len(buf) != p.Writers*p.Writes*p.Len {
		return bad("%d samples stored, want %d", len(buf), p.Writers*p.Writes*p.Len)
	}
	next := map[int]int{}
	var seen []int
	for i := 0; i < len(buf); i += p.Len {
		for j := 1; j < p.Len; j++ {
			if buf[i+j] != buf[i] {
				return bad("write interleaved at %d", i+j)
			}
		}
		k, n := int(buf[i])/1000, int(buf[i])%1000
		if next[k] != n {
			return bad("writer %d: write %d follows, want %d", k, n, next[k])
		}
		next[k]++
		seen = append(seen, k)
	}
	sort.Ints(seen)
	return Out{NT: p.Writes > 1}
}
