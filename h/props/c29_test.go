package props

import (
	"errors"
	"fmt"
	"net/netip"
	"reflect"
	"slices"
	"strings"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	psdp "github.com/pion/sdp/v3"
	"pgregory.net/rapid"
)

// C29: SDP parsing.

type c29Mut struct {
	Op  int    `json:"op"` // 0 flip, 1 delete, 2 insert, 3 duplicate, 4 truncate
	At  int    `json:"at"`
	N   int    `json:"n,omitempty"`
	Str string `json:"s,omitempty"`
}

type c29Plan struct {
	Lines []string `json:"lines"`
	LF    bool     `json:"lf,omitempty"`
	Mut   []c29Mut `json:"mut,omitempty"`
	Raw   []byte   `json:"raw,omitempty"` // used instead of the lines
}

func (p c29Plan) bytes() []byte {
	var b []byte
	if p.Raw != nil {
		b = slices.Clone(p.Raw)
	} else {
		eol := "\r\n"
		if p.LF {
			eol = "\n"
		}
		b = []byte(strings.Join(p.Lines, eol) + eol)
	}
	for _, m := range p.Mut {
		if len(b) == 0 {
			break
		}
		at := m.At % len(b)
		end := min(at+m.N, len(b))
		switch m.Op {
		case 0:
			b[at] ^= byte(m.N)
		case 1:
			b = slices.Delete(b, at, end)
		case 2:
			b = slices.Insert(b, at, []byte(m.Str)...)
		case 3:
			b = slices.Insert(b, end, slices.Clone(b[at:end])...)
		case 4:
			b = b[:at]
		}
	}
	return b
}

var c29Own = func() []byte {
	o, err := sdp.NewOffer(netip.MustParseAddr("1.2.3.4"), 5004, sdp.EncryptionRequire)
	if err != nil {
		panic(err)
	}
	b, _ := o.SDP.Marshal()
	return b
}()

// c29Use does everything that can be done with a parsed description.
func c29Use(d *sdp.Description) string {
	for _, ans := range []bool{false, true} {
		a, err := sdp.SelectAudio(d.MediaDesc, ans)
		if (a == nil) == (err == nil) {
			return fmt.Sprintf("SelectAudio: %v, %v", a, err)
		}
		if err != nil && !errors.Is(err, sdp.ErrNoCommonMedia) {
			return fmt.Sprintf("SelectAudio: %v", err)
		}
		if err == nil {
			if a.Codec == nil || a.Type > 127 || a.DTMFType > 127 || !media.CodecEnabled(a.Codec) {
				return fmt.Sprintf("SelectAudio: %+v", a)
			}
		}
	}
	for _, enc := range []sdp.Encryption{sdp.EncryptionNone, sdp.EncryptionAllow, sdp.EncryptionRequire} {
		ans, mc, err := (*sdp.Offer)(d).Answer(netip.MustParseAddr("5.6.7.8"), 7000, enc)
		if err == nil {
			if mc.Remote != d.Addr || mc.Audio.Codec == nil {
				return fmt.Sprintf("Answer: %+v for %v", mc, d.Addr)
			}
			b, err := ans.SDP.Marshal()
			if err != nil {
				return fmt.Sprintf("marshalling the answer: %v", err)
			}
			a2, err := sdp.ParseAnswer(b)
			if err != nil {
				return fmt.Sprintf("answer %q: %v", b, err)
			}
			if mc2, err := a2.Apply((*sdp.Offer)(d), enc); err != nil {
				return fmt.Sprintf("applying the answer %q: %v", b, err)
			} else if mc2.Audio.Type != mc.Audio.Type || (mc2.Crypto == nil) != (mc.Crypto == nil) {
				return fmt.Sprintf("answer %q: %+v and %+v", b, mc, mc2)
			}
		} else if ans != nil || mc != nil {
			return fmt.Sprintf("Answer: result and error %v", err)
		}
		own, err := sdp.NewOffer(netip.MustParseAddr("5.6.7.8"), 7000, enc)
		if err != nil {
			return err.Error()
		}
		mc, err = (*sdp.Answer)(d).Apply(own, enc)
		if (mc == nil) == (err == nil) {
			return fmt.Sprintf("Apply: %v, %v", mc, err)
		}
		if err == nil && (mc.Remote != d.Addr || enc == sdp.EncryptionRequire && mc.Crypto == nil) {
			return fmt.Sprintf("Apply: %+v", mc)
		}
	}
	return ""
}

// c29Parts: what the attributes and formats of a section mean does not depend on the others.
func c29Parts(audio *psdp.MediaDescription, m *sdp.MediaDesc) string {
	var sum sdp.MediaDesc
	failed, odd := false, ""
	dtmf := map[byte]bool{}
	add := func(d psdp.MediaDescription) {
		x, err := sdp.ParseMedia(&d)
		if err != nil {
			failed = true
			return
		}
		sum.Codecs = append(sum.Codecs, x.Codecs...)
		sum.CryptoProfiles = append(sum.CryptoProfiles, x.CryptoProfiles...)
		d.Attributes = append([]psdp.Attribute{{Key: "rtpmap", Value: "77 telephone-event/8000"}}, d.Attributes...)
		if y, err := sdp.ParseMedia(&d); err != nil || x.DTMFType != 0 && y.DTMFType != x.DTMFType {
			odd = fmt.Sprintf("%v: DTMF type %d, but after another one %v, %v", d.Attributes, x.DTMFType, y, err)
		} else if x.DTMFType != 0 || y.DTMFType == 0 {
			dtmf[y.DTMFType] = true
		}
	}
	for _, a := range audio.Attributes {
		add(psdp.MediaDescription{Attributes: []psdp.Attribute{a}})
	}
	for _, f := range audio.MediaName.Formats {
		add(psdp.MediaDescription{MediaName: psdp.MediaName{Formats: []string{f}}})
	}
	if failed != (m == nil) {
		return fmt.Sprintf("ParseMedia: parts fail: %v, all: %v", failed, m == nil)
	}
	if odd != "" {
		return odd
	}
	if m == nil {
		return ""
	}
	if len(dtmf) > 0 && !dtmf[m.DTMFType] || len(dtmf) == 0 && m.DTMFType != 0 {
		return fmt.Sprintf("ParseMedia: DTMF type %d, listed are %v", m.DTMFType, dtmf)
	}
	sum.DTMFType = m.DTMFType
	if !reflect.DeepEqual(sum, *m) {
		return fmt.Sprintf("ParseMedia: %+v, but part by part %+v", *m, sum)
	}
	return ""
}

func c29Check(data []byte) Out {
	in := slices.Clone(data)
	d, err := sdp.Parse(data)
	if (d == nil) == (err == nil) {
		return bad("Parse(%q): %v, %v", data, d, err)
	}
	of, err2 := sdp.ParseOffer(data)
	an, err3 := sdp.ParseAnswer(data)
	if (err == nil) != (err2 == nil) || (err == nil) != (err3 == nil) || (of == nil) == (err2 == nil) || (an == nil) == (err3 == nil) {
		return bad("%q: Parse, ParseOffer, ParseAnswer: %v, %v, %v", data, err, err2, err3)
	}
	if !slices.Equal(in, data) {
		return bad("Parse(%q) changed its input", in)
	}
	o := Out{}
	// The parts, also for what is refused as a whole.
	var s psdp.SessionDescription
	if s.Unmarshal(data) == nil {
		o.NT = true
		o = o.cls("is-sdp")
		audio := sdp.GetAudio(&s)
		ap, aerr := sdp.GetAudioDest(&s, audio)
		if audio == nil {
			if err == nil {
				return bad("Parse(%q): no audio section, but %+v", data, d)
			}
		} else {
			m, merr := sdp.ParseMedia(audio)
			if (m == nil) == (merr == nil) {
				return bad("ParseMedia of %q: %v, %v", data, m, merr)
			}
			ok := merr == nil && aerr == nil && ap.IsValid() && ap.Port() != 0
			if ok != (err == nil) {
				return bad("Parse(%q): %v, but media: %v, address: %v %v", data, err, merr, ap, aerr)
			}
			if ok && (d.Addr != ap || !reflect.DeepEqual(d.MediaDesc, *m)) {
				return bad("Parse(%q): %v %+v, want %v %+v", data, d.Addr, d.MediaDesc, ap, m)
			}
			if e := c29Parts(audio, m); e != "" {
				return bad("%q: %s", data, e)
			}
			if m != nil {
				for _, c := range m.Codecs {
					if c.Type > 127 {
						return bad("ParseMedia of %q: payload type %d", data, c.Type)
					}
					if c.Codec != nil {
						if _, ok := c.Codec.(rtp.AudioCodec); !ok || !media.CodecEnabled(c.Codec) {
							return bad("ParseMedia of %q: codec %v", data, c.Codec.Info())
						}
					}
				}
			}
		}
	} else if err == nil {
		return bad("Parse(%q): not SDP, but no error", data)
	}
	if err != nil {
		return o.cls("refused")
	}
	if !d.Addr.IsValid() || d.Addr.Port() == 0 {
		return bad("Parse(%q): address %v", data, d.Addr)
	}
	if e := c29Use(d); e != "" {
		return bad("%q: %s", data, e)
	}
	return o.cls("accepted")
}

// genC29Line draws a line of the audio section, with odd values.
func genC29Line(t *rapid.T) string {
	num := func() string {
		return rapid.OneOf(
			rapid.SampledFrom([]string{"0", "8", "9", "96", "101", "127", "128", "255", "256", "-1", "65536", "4294967296", "18446744073709551616", "", "+8", "08", "0x8", "8.0", " 8", "٣"}),
			rapid.Map(rapid.IntRange(0, 300), func(i int) string { return fmt.Sprint(i) }),
		).Draw(t, "num")
	}
	name := func() string {
		return rapid.SampledFrom([]string{"PCMU/8000", "pcma/8000", "G722/8000", "G722/8000/1", "telephone-event/8000", "telephone-event/8000/1", "opus/48000/2", "", " ", "/", "PCMU", "PCMU/8000/2", "PCMU/8000/1/1", "\xff/8000", "telephone-event/16000"}).Draw(t, "name")
	}
	switch rapid.IntRange(0, 9).Draw(t, "line") {
	case 0, 1:
		return "a=rtpmap:" + num() + " " + name()
	case 2:
		return "a=rtpmap:" + rapid.SampledFrom([]string{"", " ", "x", "8", "8  PCMA/8000", "\t8 PCMA/8000"}).Draw(t, "odd")
	case 3, 4:
		suite := rapid.SampledFrom([]string{"AES_CM_128_HMAC_SHA1_80", "AES_CM_128_HMAC_SHA1_32", "AES_256_CM_HMAC_SHA1_80", "AES_256_CM_HMAC_SHA1_32", "F8_128_HMAC_SHA1_80", "", "aes_cm_128_hmac_sha1_80"}).Draw(t, "suite")
		key := strings.Repeat("A", rapid.SampledFrom([]int{40, 40, 61, 62, 64, 0, 1, 4, 39, 41, 100}).Draw(t, "keylen")) + rapid.SampledFrom([]string{"", "", "=", "==", "===", "!"}).Draw(t, "pad")
		tail := rapid.SliceOfN(rapid.SampledFrom([]string{"|", "|2^20", "|2^64", "|2^", "|1:4", "|1:0", "|1:9", "|999:1", "|0", "|-1", "|1:1:1", "|:", "|18446744073709551615:8", "|18446744073709551616", " KDR=1", ";inline:AAAA"}), 0, 3).Draw(t, "tail")
		return "a=crypto:" + num() + " " + suite + " " + rapid.SampledFrom([]string{"inline:", "inline:", "inline:", "inline", "INLINE:", ""}).Draw(t, "inline") + key + strings.Join(tail, "")
	case 5:
		return "c=" + rapid.SampledFrom([]string{"IN", "IN", "IN", "XX", ""}).Draw(t, "net") + " " + rapid.SampledFrom([]string{"IP4", "IP6", "IP5", ""}).Draw(t, "at") + rapid.SampledFrom([]string{" 1.2.3.4", " ::1", " fe80::1%eth0", "", " ", " host.example.com", " 224.0.0.1/127", " 224.0.0.1/127/3", " 1.2.3.4/x", " 999.1.1.1", " 0.0.0.0"}).Draw(t, "addr")
	case 6:
		return "a=fmtp:" + num() + " " + rapid.SampledFrom([]string{"0-16", "", "0-15,66", "x"}).Draw(t, "fmtp")
	case 7:
		return rapid.SampledFrom([]string{"b=AS:64", "i=x", "k=clear:x", "a=", "a=:", "a=x:", "a=ptime:20", "a=sendonly", "t=0 0", "x=1", "", " ", "m=", "m=audio", "v=1", "o=", "s="}).Draw(t, "other")
	default:
		return "m=" + rapid.SampledFrom([]string{"audio", "audio", "audio", "video", "Audio", ""}).Draw(t, "media") + " " + num() + rapid.SampledFrom([]string{"", "", "", "/2", "/0", "/-1", "/x"}).Draw(t, "np") + " " + rapid.SampledFrom([]string{"RTP/AVP", "RTP/SAVP", "udp", "", "RTP//AVP"}).Draw(t, "proto") + " " +
			strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"0", "8", "9", "101", "128", "256", "*", "-1", "264", "", "x"}), 0, 5).Draw(t, "fmts"), " ")
	}
}

type c29Noise struct {
	Base c30Text   `json:"base"`
	With c30Text   `json:"with"`
	IP   [2]string `json:"-"`
}

// c29NoiseRun compares a message to the same message with things that are to be skipped.
func c29NoiseRun(p c29Noise) Out {
	a, err := sdp.Parse([]byte(p.Base.String()))
	if err != nil {
		return bad("Parse(%q): %v", p.Base.String(), err)
	}
	b, err := sdp.Parse([]byte(p.With.String()))
	if err != nil {
		return bad("Parse(%q): %v", p.With.String(), err)
	}
	if a.Addr != b.Addr || a.DTMFType != b.DTMFType || !reflect.DeepEqual(a.CryptoProfiles, b.CryptoProfiles) {
		return bad("%q: %v, DTMF %d, crypto %v\n%q: %v, DTMF %d, crypto %v", p.Base.String(), a.Addr, a.DTMFType, a.CryptoProfiles, p.With.String(), b.Addr, b.DTMFType, b.CryptoProfiles)
	}
	known := func(d *sdp.Description) (out []sdp.CodecInfo) {
		for _, c := range d.Codecs {
			if c.Codec != nil {
				out = append(out, c)
			}
		}
		return
	}
	if !reflect.DeepEqual(known(a), known(b)) {
		return bad("%q: %v\n%q: %v", p.Base.String(), known(a), p.With.String(), known(b))
	}
	for _, ans := range []bool{false, true} {
		x, err := sdp.SelectAudio(a.MediaDesc, ans)
		y, err2 := sdp.SelectAudio(b.MediaDesc, ans)
		if (err == nil) != (err2 == nil) || !reflect.DeepEqual(x, y) {
			return bad("%q: %v %v\n%q: %v %v", p.Base.String(), x, err, p.With.String(), y, err2)
		}
	}
	return Out{NT: len(p.With.Attrs)+len(p.With.Before)+len(p.With.After)+len(p.With.Fmts) > len(p.Base.Fmts)}
}

func init() {
	reg("C29", "grammar", opts{sec: [2]float64{6, 90}, rule: "the bytes are an SDP message for the underlying parser"},
		func(t *rapid.T) c29Plan {
			p := c29Plan{LF: rapid.Bool().Draw(t, "lf")}
			p.Lines = []string{"v=0", "o=- 1 1 IN IP4 " + rapid.SampledFrom([]string{"1.2.3.4", "1.2.3.4", "host", "::1"}).Draw(t, "origin"), "s=-"}
			if rapid.IntRange(0, 3).Draw(t, "c") > 0 {
				p.Lines = append(p.Lines, rapid.SampledFrom([]string{"c=IN IP4 1.2.3.4", "c=IN IP4 1.2.3.4", "c=IN IP6 ::1", "c=IN IP4"}).Draw(t, "sc"))
			}
			p.Lines = append(p.Lines, "t=0 0")
			if rapid.IntRange(0, 9).Draw(t, "m") > 0 {
				p.Lines = append(p.Lines, "m=audio "+rapid.SampledFrom([]string{"5004", "5004", "0", "65535", "65536", "70000"}).Draw(t, "port")+" RTP/AVP "+
					strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"0", "8", "9", "101", "128", "256", "264", "-1", "300"}), 0, 5).Draw(t, "fmts"), " "))
			}
			for range crowd(t, 0, 8, 100, "n") {
				p.Lines = append(p.Lines, genC29Line(t))
			}
			return p
		}, func(p c29Plan) Out { return c29Check(p.bytes()) })
	reg("C29", "mutated", opts{sec: [2]float64{5, 90}, rule: "the bytes are an SDP message for the underlying parser"},
		func(t *rapid.T) c29Plan {
			var p c29Plan
			switch rapid.IntRange(0, 5).Draw(t, "base") {
			case 0:
				p.Raw = c29Own
			case 1:
				p.Raw = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
				if p.Raw == nil {
					p.Raw = []byte{}
				}
			default:
				x := genC30Text(t, func(int) bool { return true })
				c30Noise(t, &x)
				p.Raw = []byte(x.String())
			}
			for range rapid.IntRange(1, 6).Draw(t, "muts") {
				p.Mut = append(p.Mut, c29Mut{
					Op:  rapid.SampledFrom([]int{0, 0, 1, 1, 2, 2, 3, 4}).Draw(t, "op"),
					At:  rapid.IntRange(0, 2000).Draw(t, "at"),
					N:   rapid.SampledFrom([]int{1, 1, 1, 2, 3, 0x80, 0x20, 8, 20, 50}).Draw(t, "n"),
					Str: rapid.SampledFrom([]string{" ", "\r\n", "/", ":", "|", "=", "256", "-", "a=rtpmap:", "c=IN IP4", "\x00", "9999999999", "m=audio 1 RTP/AVP 0\r\n", "inline:", "2^"}).Draw(t, "s"),
				})
			}
			return p
		}, func(p c29Plan) Out { return c29Check(p.bytes()) })
	reg("C29", "skip", opts{sec: [2]float64{4, 40}, rule: "something to be skipped was added"},
		func(t *rapid.T) c29Noise {
			x := genC30Text(t, func(int) bool { return true })
			x.Port = max(x.Port, 1)
			x.Order = nil
			p := c29Noise{Base: x, With: x}
			c30Noise(t, &p.With)
			// Unknown formats between the others.
			var f []c30Fmt
			used := map[int]bool{}
			for _, c := range x.Fmts {
				used[c.Type] = true
			}
			for i := 0; i <= len(x.Fmts); i++ {
				if rapid.IntRange(0, 3).Draw(t, "add") == 0 {
					typ := rapid.IntRange(10, 127).Draw(t, "t")
					if !used[typ] {
						used[typ] = true
						c := c30Fmt{Type: typ, Codec: -1}
						if typ >= 96 {
							c.Name = rapid.SampledFrom(c30Unknown).Draw(t, "unknown")
						}
						f = append(f, c)
					}
				}
				if i < len(x.Fmts) {
					f = append(f, x.Fmts[i])
				}
			}
			p.With.Fmts = f
			return p
		}, c29NoiseRun)
}
