package props

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"

	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/rtp"
	"pgregory.net/rapid"
)

// C14: DTMF event codec.

const c14Digits = "0123456789*#abcd" // RFC 4733 order

var c14Freq = map[byte][2]int{
	'1': {697, 1209}, '2': {697, 1336}, '3': {697, 1477}, 'a': {697, 1633},
	'4': {770, 1209}, '5': {770, 1336}, '6': {770, 1477}, 'b': {770, 1633},
	'7': {852, 1209}, '8': {852, 1336}, '9': {852, 1477}, 'c': {852, 1633},
	'*': {941, 1209}, '0': {941, 1336}, '#': {941, 1477}, 'd': {941, 1633},
}

type c14Plan struct {
	Ev     dtmf.Event `json:"ev"`
	BufLen int        `json:"buf"`
	Fill   byte       `json:"fill"`
	Data   []byte     `json:"data"`
	Marker bool       `json:"m"`
}

func c14Run(p c14Plan) Out {
	// encode -> decode
	buf := make([]byte, p.BufLen)
	for i := range buf {
		buf[i] = p.Fill
	}
	n, err := dtmf.Encode(buf, p.Ev)
	if p.BufLen < 4 {
		if n != 0 || !errors.Is(err, io.ErrShortBuffer) {
			return bad("Encode into %d bytes: %d, %v", p.BufLen, n, err)
		}
		for i := range buf {
			if buf[i] != p.Fill {
				return bad("Encode changed a buffer of %d bytes", p.BufLen)
			}
		}
	} else {
		if n != 4 || err != nil {
			return bad("Encode: %d, %v", n, err)
		}
		for i := 4; i < len(buf); i++ {
			if buf[i] != p.Fill {
				return bad("Encode wrote beyond four bytes")
			}
		}
		want := p.Ev
		if want.Digit != 0 {
			for i := range c14Digits {
				if c14Digits[i] == want.Digit {
					want.Code = byte(i)
				}
			}
		} else if int(want.Code) < len(c14Digits) {
			want.Digit = c14Digits[want.Code]
		}
		wire := []byte{want.Code, want.Volume, byte(want.Dur >> 8), byte(want.Dur)}
		if want.End {
			wire[1] |= 0x80
		}
		if !eqSlice(buf[:4], wire) {
			return bad("Encode(%+v) = %x, want %x", p.Ev, buf[:4], wire)
		}
		got, err := dtmf.Decode(buf)
		if err != nil || got != want {
			return bad("Decode(Encode(%+v)) = %+v, %v", want, got, err)
		}
	}
	// arbitrary payloads
	orig := append([]byte(nil), p.Data...)
	got, err := dtmf.Decode(p.Data)
	if len(p.Data) < 4 {
		if err == nil || got != (dtmf.Event{}) {
			return bad("Decode(%x) = %+v, %v", p.Data, got, err)
		}
	} else {
		want := dtmf.Event{Code: p.Data[0], Volume: p.Data[1] & 0x3f, End: p.Data[1]&0x80 != 0, Dur: uint16(p.Data[2])<<8 | uint16(p.Data[3])}
		if int(want.Code) < len(c14Digits) {
			want.Digit = c14Digits[want.Code]
		}
		if err != nil || got != want {
			return bad("Decode(%x) = %+v, %v, want %+v", p.Data, got, err, want)
		}
	}
	ev, ok := dtmf.DecodeRTP(&rtp.Header{Marker: p.Marker, Version: 2}, p.Data)
	if ok != (p.Marker && len(p.Data) >= 4) || (ok && ev != got) || (!ok && ev != (dtmf.Event{})) {
		return bad("DecodeRTP(marker=%v, %x) = %+v, %v", p.Marker, p.Data, ev, ok)
	}
	if !eqSlice(orig, p.Data) {
		return bad("input modified")
	}
	return Out{NT: p.BufLen >= 4 && len(p.Data) >= 4}
}

type c14TPlan struct {
	From int `json:"from"`
	Seed int `json:"seed,omitempty"`
}

// All 65536 (code, volume/flags) pairs with several durations, and all bytes for Tone.
func c14Table(p c14TPlan) Out {
	if p.From == 0 {
		for b := 0; b < 256; b++ {
			code, freq := dtmf.Tone(byte(b))
			f, ok := c14Freq[byte(b)]
			if !ok {
				if code != 0 || len(freq) != 0 {
					return bad("Tone(%q) = %d %v", b, code, freq)
				}
				continue
			}
			if int(code) >= 16 || c14Digits[code] != byte(b) {
				return bad("Tone(%q) has code %d", b, code)
			}
			s := fmt.Sprint(freq)
			if s != fmt.Sprint([]int{f[0], f[1]}) && s != fmt.Sprint([]int{f[1], f[0]}) {
				return bad("Tone(%q) has frequencies %v, want %v", b, freq, f)
			}
		}
	}
	r := rand.New(rand.NewPCG(uint64(p.Seed), uint64(p.From)))
	for v := 0; v < 256; v++ {
		for _, d := range []int{0, 1, 160, 2080, 65535, r.IntN(65536)} {
			pl := c14Plan{Data: []byte{byte(p.From), byte(v), byte(d >> 8), byte(d)}, Marker: true, BufLen: 4, Fill: 0xee,
				Ev: dtmf.Event{Code: byte(p.From), Volume: byte(v) & 0x3f, End: v&0x80 != 0, Dur: uint16(d)}}
			if v&0x40 != 0 && p.From < 16 {
				pl.Ev.Digit = c14Digits[p.From]
				pl.Ev.Code = byte(v)
			}
			if o := c14Run(pl); o.Viol != "" {
				return o
			}
		}
	}
	return Out{NT: true}
}

func init() {
	regList("C14", "table", opts{only1: true, rule: "every code with every volume/flag byte and six durations; every byte for Tone"},
		func(tier int, seed int64, yield func(c14TPlan) bool) {
			for c := 0; c < 256; c++ {
				if !yield(c14TPlan{c, int(seed)}) {
					return
				}
			}
		}, c14Table)
	reg("C14", "random", opts{sec: [2]float64{3, 40}, rule: "buffer and payload of at least four bytes"},
		func(t *rapid.T) c14Plan {
			p := c14Plan{
				BufLen: rapid.IntRange(0, 9).Draw(t, "buf"),
				Fill:   rapid.Byte().Draw(t, "fill"),
				Data:   rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "data"),
				Marker: rapid.Bool().Draw(t, "m"),
			}
			p.Ev.Volume = byte(rapid.IntRange(0, 63).Draw(t, "vol"))
			p.Ev.End = rapid.Bool().Draw(t, "end")
			p.Ev.Dur = rapid.Uint16().Draw(t, "dur")
			p.Ev.Code = rapid.Byte().Draw(t, "code")
			if rapid.Bool().Draw(t, "d?") {
				p.Ev.Digit = rapid.SampledFrom([]byte(c14Digits)).Draw(t, "digit")
			}
			return p
		}, c14Run)
}
