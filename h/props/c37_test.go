package props

import (
	"fmt"
	"slices"
	"sort"
	"testing/synctest"
	"time"

	"github.com/gotranspile/g722"
	media "github.com/livekit/media-sdk"
	_ "github.com/livekit/media-sdk/g711"
	_ "github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"
	prtp "github.com/pion/rtp"
	"pgregory.net/rapid"
)

// C37: audio from encoder to decoder, over RTP, jitter stage and mux.

type c37Pkt struct {
	Pause int  `json:"p,omitempty"` // ms of silence before this frame
	Delay int  `json:"d,omitempty"`
	Lost  bool `json:"l,omitempty"`
	Dup   int  `json:"u,omitempty"`
	Codec int  `json:"c,omitempty"` // 0: main codec, 1: second codec
	Kind  int  `json:"k,omitempty"` // 0 noise, 1 tone, 2 extremes, 3 silence
}

type c37Plan struct {
	Codec [2]int   `json:"codec"`
	Type  [2]int   `json:"type"` // payload types, 0: the codec's own
	Rate  int      `json:"rate"` // receiver, 0: the codec's own
	Warm  int      `json:"warm"` // frames sent before the receiver listens
	Pkts  []c37Pkt `json:"pkts"`
}

var c37Names = []string{"PCMU/8000", "PCMA/8000", "G722/8000"}

type c37Codec struct {
	c    rtp.AudioCodec
	kind int
	typ  byte
	info media.CodecInfo
}

func c37Get(kind int) (c c37Codec, err string) {
	for _, x := range media.Codecs() {
		if in := x.Info(); in.SDPName == c37Names[kind] {
			ac, ok := x.(rtp.AudioCodec)
			if !ok {
				return c, in.SDPName + " is not an audio codec"
			}
			return c37Codec{c: ac, kind: kind, typ: in.RTPDefType, info: in}, ""
		}
	}
	return c, c37Names[kind] + " is not registered"
}

func c37Frame(i, kind, n int) media.PCM16Sample {
	switch kind {
	case 1:
		s := c09Signal(i%6, n, n*50)
		return media.PCM16Sample(s)
	case 2:
		s := make(media.PCM16Sample, n)
		for j := range s {
			s[j] = [...]int16{32767, -32768, 0, -1, 1, 32767, 32767, -32768, -32768}[(j/3+i)%9]
		}
		return s
	case 3:
		return make(media.PCM16Sample, n)
	}
	return c04PCM(i, n)
}

type c37Out struct{ pk []*prtp.Packet }

func (o *c37Out) String() string { return "c37" }
func (o *c37Out) WriteRTP(h *prtp.Header, payload []byte) (int, error) {
	o.pk = append(o.pk, &prtp.Packet{Header: h.Clone(), Payload: slices.Clone(payload)})
	return len(payload), nil
}

// c37Ref decodes the payloads that reach one receiver, by the standards.
type c37Ref struct {
	kind int
	g    *g722.Decoder
	mul  int
	dst  *c09Dst
	w    media.PCM16Writer
}

func c37NewRef(kind, rate int) *c37Ref {
	r := &c37Ref{kind: kind, dst: &c09Dst{rate: rate}}
	r.w = r.dst
	native := 8000
	if kind == 2 {
		native = 16000
		var fl g722.Flags
		r.mul = 2
		if rate == 8000 {
			native, fl, r.mul = 8000, g722.FlagSampleRate8000, 1
		}
		r.g = g722.NewDecoder(g722.Rate64000, fl)
	}
	if native != rate {
		r.w = media.ResampleWriter(r.dst, native)
	}
	return r
}

func (r *c37Ref) decode(p []byte) (string, media.PCM16Sample) {
	var s media.PCM16Sample
	switch r.kind {
	case 0, 1:
		s = make(media.PCM16Sample, len(p))
		for i, b := range p {
			if r.kind == 0 {
				s[i] = int16(refULaw(b))
			} else {
				s[i] = int16(refALaw(b))
			}
		}
	default:
		s = make(media.PCM16Sample, len(p)*r.mul)
		s = s[:r.g.Decode(s, slices.Clone(p))]
	}
	if err := r.w.WriteSample(slices.Clone(s)); err != nil {
		return err.Error(), nil
	}
	return "", s
}

func c37Run(p c37Plan) Out {
	return bubble(func() Out {
		start := time.Now()
		var cod [2]c37Codec
		for i := range cod {
			c, e := c37Get(p.Codec[i])
			if e != "" {
				return bad("%s", e)
			}
			if c.info.RTPClockRate != 8000 || c.info.SampleRate != [...]int{8000, 8000, 16000}[c.kind] || !c.info.RTPIsStatic || c.typ != [...]byte{0, 8, 9}[c.kind] {
				return bad("codec info %+v", c.info)
			}
			if p.Type[i] != 0 {
				c.typ = byte(p.Type[i])
			}
			cod[i] = c
		}
		// Sender.
		wire := &c37Out{}
		seq := rtp.NewSeqWriter(wire)
		var enc [2]media.PCM16Writer
		var genc [2]*g722.Encoder
		for i, c := range cod {
			enc[i] = c.c.EncodeRTP(seq.NewStream(c.typ, c.info.RTPClockRate))
			if enc[i].SampleRate() != c.info.SampleRate {
				return bad("encoder of %s runs at %d Hz", c.info.SDPName, enc[i].SampleRate())
			}
			genc[i] = g722.NewEncoder(g722.Rate64000, 0)
		}
		perFrame := func(i int) int { return cod[i].info.SampleRate / rtp.DefFramesPerSec }
		if p.Warm > 0 { // the same frame again and again, only the numbering matters
			f := c37Frame(1, 0, 2) // short, to save time
			for i := range p.Warm {
				if err := enc[0].WriteSample(f); err != nil {
					return bad("sender: %v", err)
				}
				if p.Codec[0] == 2 {
					genc[0].Encode(make([]byte, 160), slices.Clone(f))
				}
				if len(wire.pk) != 1 || wire.pk[0].SequenceNumber != uint16(i) {
					return bad("sender: short frame %d became %d packets", i, len(wire.pk))
				}
				if k := wire.pk[0]; k.Marker || k.Timestamp != uint32(i)*160 || k.PayloadType != cod[0].typ {
					return bad("sender: short frame %d became packet %+v", i, k.Header)
				}
				wire.pk = wire.pk[:0]
			}
		}
		// Receiver.
		mux := rtp.NewMux(nil)
		var rec [2]*c09Dst
		var ref [2]*c37Ref
		for i, c := range cod {
			rate := p.Rate
			if rate == 0 {
				rate = c.info.SampleRate
			}
			rec[i] = &c09Dst{rate: rate}
			ref[i] = c37NewRef(c.kind, rate)
			mux.Register(c.typ, c.c.DecodeRTP(rec[i], c.typ))
		}
		recv := rtp.HandleJitter(rtp.NewNopCloser(mux))
		defer recv.Close()

		type arrival struct {
			at    time.Duration
			order int
			pkt   int
		}
		var arr []arrival
		var pkts []*prtp.Packet
		var which []int
		now := time.Duration(0)
		clean, sw := true, false
		for i, k := range p.Pkts {
			now += time.Duration(20+k.Pause) * time.Millisecond
			n := perFrame(k.Codec)
			f := c37Frame(i, k.Kind, n)
			keep := slices.Clone(f)
			if err := enc[k.Codec].WriteSample(f); err != nil {
				return bad("sender: %v", err)
			}
			if !eqSlice(f, keep) {
				return bad("sender: frame %d was modified", i)
			}
			if len(wire.pk) != 1 {
				return bad("sender: frame %d became %d packets", i, len(wire.pk))
			}
			pk := wire.pk[0]
			wire.pk = wire.pk[:0]
			if pk.PayloadType != cod[k.Codec].typ || pk.SequenceNumber != uint16(p.Warm+i) || pk.Version != 2 || pk.Marker {
				return bad("sender: frame %d became packet %+v, expected type %d and number %d", i, pk.Header, cod[k.Codec].typ, uint16(p.Warm+i))
			}
			if len(pkts) > 0 {
				pr := pkts[len(pkts)-1]
				if pr.SSRC != pk.SSRC {
					return bad("sender: source changed")
				}
				if which[i-1] == k.Codec && pk.Timestamp-pr.Timestamp != 160 {
					return bad("sender: timestamp of frame %d is %d after %d, expected one frame of 160", i, pk.Timestamp, pr.Timestamp)
				}
				sw = sw || which[i-1] != k.Codec
			}
			// Content, by the standards.
			if len(pk.Payload) != 160 {
				return bad("sender: frame %d became %d bytes", i, len(pk.Payload))
			}
			if cod[k.Codec].kind == 2 {
				w := make([]byte, 160)
				w = w[:genc[k.Codec].Encode(w, slices.Clone(keep))]
				if !eqSlice(w, pk.Payload) {
					return bad("sender: frame %d: %s", i, diffAt(pk.Payload, w))
				}
			} else {
				dec := refULaw
				if cod[k.Codec].kind == 1 {
					dec = refALaw
				}
				for j, b := range pk.Payload {
					// Half of the widest step of the law, and never worse than 1/16 of the value.
					if v := dec(b); absI(v-int(keep[j])) > max(16, absI(int(keep[j]))/16) {
						return bad("sender: frame %d: sample %d was encoded as %d", i, keep[j], v)
					}
				}
			}
			pkts = append(pkts, pk)
			which = append(which, k.Codec)
			if k.Lost {
				clean = false
			} else {
				at := now + time.Duration(k.Delay)*time.Millisecond
				if k.Delay > 50 || i == 0 && k.Delay > 0 {
					clean = false
				}
				arr = append(arr, arrival{at, len(arr), i})
				if k.Dup > 0 {
					arr = append(arr, arrival{at + time.Duration(k.Dup)*time.Millisecond, len(arr), i})
				}
			}
		}
		sort.SliceStable(arr, func(a, b int) bool { return arr[a].at < arr[b].at })

		m := &c23Model{lat: 60 * time.Millisecond}
		done := 0
		buf := make([]byte, 0, 1500)
		var hd prtp.Header
		check := func(what string) string {
			synctest.Wait()
			for ; done < len(m.out); done++ {
				x := int(m.out[done].exts[0])
				if which[x] < 0 {
					continue
				}
				if e, _ := ref[which[x]].decode(pkts[x].Payload); e != "" {
					return "harness: " + e
				}
			}
			for i := range rec {
				exact := rec[i].rate == cod[i].info.SampleRate || cod[i].kind == 2 && rec[i].rate == 8000
				if !eqDither(rec[i].got, ref[i].dst.got, exact) {
					return fmt.Sprintf("%s: receiver of %s at %d Hz, %d of %d packets played: %s", what, cod[i].info.SDPName, rec[i].rate, len(m.out), len(pkts), diffAt(rec[i].got, ref[i].dst.got))
				}
			}
			return ""
		}
		for _, a := range arr {
			at := a.at + time.Duration(a.order+1)*time.Microsecond
			if d := at - 300*time.Nanosecond - time.Since(start); d > 0 {
				time.Sleep(d)
			}
			m.advance(at - 300*time.Nanosecond)
			time.Sleep(300 * time.Nanosecond)
			raw, err := pkts[a.pkt].Marshal()
			if err != nil {
				return bad("harness: %v", err)
			}
			// One buffer for everything that is received.
			buf = append(buf[:0], raw...)
			hn, err := hd.Unmarshal(buf)
			if err != nil {
				return bad("harness: %v", err)
			}
			if err := recv.HandleRTP(&hd, buf[hn:]); err != nil {
				return bad("receiver: %v", err)
			}
			m.push(at, c23Pkt{ext: int64(a.pkt), recv: at, start: true, end: true})
			if w := check(fmt.Sprintf("at %v", at)); w != "" {
				return bad("%s", w)
			}
		}
		time.Sleep(2 * time.Second)
		m.advance(time.Since(start))
		if w := check("at the end"); w != "" {
			return bad("%s", w)
		}
		if clean && len(m.out) != len(pkts) {
			return bad("harness: %d of %d frames played without loss", len(m.out), len(pkts))
		}
		o := Out{NT: len(m.out) >= 3}.cls(c37Names[p.Codec[0]])
		if clean {
			o = o.cls("all-delivered")
		}
		if sw {
			o = o.cls("codec-switch")
		}
		if p.Rate != 0 {
			o = o.cls("receiver-rate")
		}
		if p.Warm+len(p.Pkts) > 65536 {
			o = o.cls("wraparound")
		}
		return o
	})
}

func init() {
	gen := func(t *rapid.T) c37Plan {
		var p c37Plan
		p.Codec[0] = rapid.IntRange(0, 2).Draw(t, "codec")
		p.Codec[1] = (p.Codec[0] + rapid.IntRange(1, 2).Draw(t, "codec2")) % 3
		if rapid.Bool().Draw(t, "dyn") {
			p.Type[0] = rapid.IntRange(96, 127).Draw(t, "type")
		}
		if rapid.Bool().Draw(t, "dyn2") {
			p.Type[1] = rapid.IntRange(1, 94).Draw(t, "type2")
			for p.Type[1] == p.Type[0] || p.Type[1] == 8 || p.Type[1] == 9 {
				p.Type[1]++
			}
		}
		if rapid.Bool().Draw(t, "rate?") {
			p.Rate = rapid.SampledFrom([]int{8000, 16000, 24000, 32000, 44100, 48000}).Draw(t, "rate")
		}
		if rapid.IntRange(0, 24).Draw(t, "warm?") == 0 {
			p.Warm = rapid.SampledFrom([]int{65530, 65535, 32760, 100}).Draw(t, "warm")
		}
		if p.Warm == 0 && rapid.Bool().Draw(t, "short?") {
			p.Warm = rapid.IntRange(1, 4).Draw(t, "short")
		}
		net := rapid.IntRange(0, 2).Draw(t, "net")
		two := rapid.IntRange(0, 2).Draw(t, "two") == 0
		n := rapid.IntRange(1, 25).Draw(t, "n")
		for i := range n {
			k := c37Pkt{Kind: rapid.IntRange(0, 3).Draw(t, "kind")}
			if rapid.IntRange(0, 11).Draw(t, "pause?") == 0 {
				k.Pause = rapid.SampledFrom([]int{1, 20, 60, 400, 2000}).Draw(t, "pause")
			}
			if net >= 1 && i > 0 && rapid.IntRange(0, 3).Draw(t, "late?") == 0 {
				k.Delay = rapid.IntRange(1, 45).Draw(t, "delay")
			}
			if net >= 1 && rapid.IntRange(0, 7).Draw(t, "dup?") == 0 {
				k.Dup = rapid.SampledFrom([]int{1, 15, 35, 90}).Draw(t, "dup")
			}
			if net >= 2 && rapid.IntRange(0, 7).Draw(t, "lost?") == 0 {
				k.Lost = true
			}
			if net >= 2 && rapid.IntRange(0, 11).Draw(t, "very?") == 0 {
				k.Delay = rapid.IntRange(0, 200).Draw(t, "vlate")
			}
			if two && i > 0 {
				k.Codec = p.Pkts[i-1].Codec
				if rapid.IntRange(0, 4).Draw(t, "switch") == 0 {
					k.Codec = 1 - k.Codec
				}
			}
			p.Pkts = append(p.Pkts, k)
		}
		p.Pkts = laps(t, p.Pkts, 600)
		return p
	}
	reg("C37", "endtoend", opts{sec: [2]float64{10, 150}, rule: "at least three frames were played"}, gen, c37Run)
}
