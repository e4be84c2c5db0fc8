package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/bits"
	"os"
	"slices"

	"github.com/jfreymuth/oggvorbis"
	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/res"
	"github.com/livekit/media-sdk/res/testdata"
	"pgregory.net/rapid"
)

// C38: Ogg prompts. There is no encoder, so files are made of the recordings in
// the repository by cutting them at page boundaries and patching their headers.

type c38Plan struct {
	Src   int `json:"src"`
	Keep  int `json:"keep"` // audio pages kept, -1: all
	Skip  int `json:"skip,omitempty"`
	Gain  int `json:"gain,omitempty"` // the audio is scaled by two to the power of this
	Rate  int `json:"rate"`           // written in the header, 0: unchanged
	Ch    int `json:"ch"`             // written in the header, 0: unchanged
	End   int `json:"end,omitempty"`  // samples cut from the end through the position of the last page; announced beyond it if negative
	Cut   int `json:"cut,omitempty"`  // bytes cut off at the end, mid page
	Flip  int `json:"flip,omitempty"` // 1 + byte to corrupt (permille of the file)
	FlipV int `json:"flipv,omitempty"`
	Junk  int `json:"junk,omitempty"` // not an Ogg file at all: kind
	DRate int `json:"drate,omitempty"`
	DCh   int `json:"dch,omitempty"` // asked for, relative to the file
}

var c38Names = []string{"enter_pin.src.ogg", "room_join.src.ogg", "wrong_pin.src.ogg"}

func c38Src(i int) ([]byte, error) {
	switch i {
	case 0:
		return res.EnterPinOgg, nil
	case 1:
		return res.RoomJoinOgg, nil
	case 2:
		return res.WrongPinOgg, nil
	case 3:
		return testdata.TestAudioOgg, nil
	}
	return os.ReadFile("/repo/res/" + c38Names[i-4])
}

var c38CRC = func() (t [256]uint32) {
	for i := range t {
		r := uint32(i) << 24
		for range 8 {
			if r&0x80000000 != 0 {
				r = r<<1 ^ 0x04c11db7
			} else {
				r <<= 1
			}
		}
		t[i] = r
	}
	return
}()

func c38Seal(page []byte) {
	copy(page[22:26], []byte{0, 0, 0, 0})
	var crc uint32
	for _, b := range page {
		crc = crc<<8 ^ c38CRC[byte(crc>>24)^b]
	}
	binary.LittleEndian.PutUint32(page[22:], crc)
}

func c38Pages(b []byte) (pages [][]byte, err error) {
	for len(b) > 0 {
		if len(b) < 27 || string(b[:4]) != "OggS" {
			return nil, fmt.Errorf("not a page")
		}
		n := 27 + int(b[26])
		sz := n
		for _, s := range b[27:n] {
			sz += int(s)
		}
		pages = append(pages, slices.Clone(b[:sz]))
		b = b[sz:]
	}
	return pages, nil
}

// c38Louder multiplies the values of all vector codebooks in the setup header.
func c38Louder(pages [][]byte, gain int) error {
	type pos struct{ page, off int }
	var packet []pos // of the third packet
	n := 0
	for i, p := range pages {
		off := 27 + int(p[26])
		for _, s := range p[27 : 27+int(p[26])] {
			if n == 2 {
				for j := range int(s) {
					packet = append(packet, pos{i, off + j})
				}
			}
			off += int(s)
			if s < 255 {
				n++
			}
		}
		if n > 2 {
			break
		}
	}
	at := 0
	bit := func(k int) *byte { return &pages[packet[k/8].page][packet[k/8].off] }
	read := func(n int) (v uint32) {
		for j := range n {
			v |= uint32(*bit(at)>>(at%8)&1) << j
			at++
		}
		return
	}
	write := func(k int, v uint32, n int) {
		for j := range n {
			b := bit(k + j)
			*b = *b&^(1<<((k+j)%8)) | byte(v>>j&1)<<((k+j)%8)
		}
	}
	if read(8) != 5 {
		return fmt.Errorf("not a setup header")
	}
	at = 7 * 8
	for range read(8) + 1 {
		if read(24) != 0x564342 {
			return fmt.Errorf("not a codebook at bit %d", at)
		}
		dims, entries := int(read(16)), int(read(24))
		if read(1) == 1 {
			read(5)
			for cur := 0; cur < entries; {
				cur += int(read(bits.Len(uint(entries - cur))))
			}
		} else if sparse := read(1) == 1; sparse {
			for range entries {
				if read(1) == 1 {
					read(5)
				}
			}
		} else {
			at += 5 * entries
		}
		typ := read(4)
		if typ == 0 {
			continue
		}
		for range 2 {
			k := at
			v := read(32)
			if v&0x1fffff != 0 {
				write(k, uint32(int(v)+gain<<21), 32)
			}
		}
		vb := int(read(4)) + 1
		read(1)
		vals := entries * dims
		if typ == 1 {
			for vals = 1; math.Pow(float64(vals+1), float64(dims)) <= float64(entries); vals++ {
			}
		}
		at += vb * vals
	}
	for _, p := range pages[:packet[len(packet)-1].page+1] {
		c38Seal(p)
	}
	return nil
}

// c38Decode is the oracle: everything the decoder gives, read in big portions.
func c38Decode(b []byte) (s []float32, rate, ch int, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("decoder panic: %v", e)
		}
	}()
	r, err := oggvorbis.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, 0, 0, err
	}
	buf := make([]float32, 6*4096)
	idle := 0
	for {
		n, err := r.Read(buf)
		s = append(s, buf[:n]...)
		if err == io.EOF {
			return s, r.SampleRate(), r.Channels(), nil
		} else if err != nil {
			return s, r.SampleRate(), r.Channels(), err
		}
		if idle++; n > 0 {
			idle = 0
		} else if idle > 1000 {
			return nil, 0, 0, fmt.Errorf("decoder makes no progress")
		}
	}
}

func c38Make(p c38Plan) ([]byte, error) {
	switch p.Junk {
	case 1:
		return nil, nil
	case 2:
		return c04Bytes(p.Src, 500), nil
	case 3:
		return []byte("OggS"), nil
	case 4:
		return []byte("RIFF\x24\x08\x00\x00WAVEfmt \x10\x00\x00\x00\x01\x00\x01\x00\x80\xbb\x00\x00\x00w\x01\x00\x02\x00\x10\x00data\x00\x08\x00\x00"), nil
	}
	b, err := c38Src(p.Src)
	if err != nil {
		return nil, err
	}
	pages, err := c38Pages(b)
	if err != nil {
		return nil, err
	}
	// Pages before the first one with an audio position are headers.
	hdr := 0
	for hdr < len(pages) && binary.LittleEndian.Uint64(pages[hdr][6:]) == 0 {
		hdr++
	}
	audio := pages[hdr:]
	if p.Keep >= 0 && p.Keep < len(audio) {
		audio = audio[:p.Keep]
	}
	if p.Skip > 0 && p.Skip < len(audio) {
		audio = slices.Delete(slices.Clone(audio), p.Skip-1, p.Skip)
	}
	pages = append(slices.Clone(pages[:hdr]), audio...)
	id := pages[0]
	off := 27 + int(id[26])
	if p.Gain != 0 {
		if err := c38Louder(pages, p.Gain); err != nil {
			return nil, err
		}
	}
	if p.Rate > 0 {
		binary.LittleEndian.PutUint32(id[off+12:], uint32(p.Rate))
	}
	if p.Ch > 0 {
		id[off+11] = byte(p.Ch)
	}
	c38Seal(id)
	if p.End != 0 && len(audio) > 0 {
		last := audio[len(audio)-1]
		g := binary.LittleEndian.Uint64(last[6:])
		if p.End < 0 || g > uint64(p.End) {
			binary.LittleEndian.PutUint64(last[6:], g-uint64(p.End))
			last[5] |= 4
			c38Seal(last)
		}
	}
	out := slices.Concat(pages...)
	if p.Cut > 0 {
		out = out[:max(0, len(out)-p.Cut)]
	}
	if p.Flip > 0 && len(out) > 0 {
		out[(p.Flip-1)*(len(out)-1)/1000] ^= byte(max(1, p.FlipV))
	}
	return out, nil
}

func c38Run(p c38Plan) Out {
	data, err := c38Make(p)
	if err != nil {
		return bad("harness: %v", err)
	}
	want, rate, ch, derr := c38Decode(slices.Clone(data))
	if p.Src < 3 && p.Junk == 0 && p.Rate == 0 && p.Ch == 0 && p.Flip == 0 && derr == nil && (rate != res.SampleRate || ch != 1) {
		return bad("prompt %d has %d Hz and %d channels", p.Src, rate, ch)
	}
	ar, ac := rate, ch
	if ar == 0 {
		ar, ac = 48000, 1
	}
	ar, ac = ar+p.DRate, ac+p.DCh
	if ar < 500 || ac < 1 || rate > 0 && rate < 500 || ar > 1<<20 || ac > 8 {
		return Out{}.cls("unusual-header") // a corrupted header with an absurd rate
	}
	keep := slices.Clone(data)
	var frames []media.PCM16Sample
	pan := protect(func() { frames = res.ReadOggAudioFile(data, ar, ac) })
	if !eqSlice(data, keep) {
		return bad("the file was modified")
	}
	if derr != nil || ar != rate || ac != ch {
		if pan == nil {
			return bad("a file with error %v, %d Hz and %d channels was read as %d Hz, %d channels: %d frames", derr, rate, ch, ar, ac, len(frames))
		}
		o := Out{NT: true}
		if derr != nil {
			return o.cls("undecodable")
		}
		return o.cls("mismatch")
	}
	if pan != nil {
		return bad("panic for a valid file: %v", pan)
	}
	per := ar / 50 * ac
	var got media.PCM16Sample
	for i, f := range frames {
		if len(f) == 0 || len(f) > per || (len(f) < per && i != len(frames)-1) {
			return bad("frame %d of %d has %d samples, %d channels at %d Hz", i, len(frames), len(f), ac, ar)
		}
		got = append(got, f...)
	}
	if len(got) != len(want) {
		return bad("%d samples, the decoder gives %d", len(got), len(want))
	}
	clip, peak := false, float32(0)
	for i, v := range want {
		if v > 1 || v < -1 {
			clip = true
			want[i] = min(max(v, -1), 1) // saturated
		}
		if v != v {
			return Out{}.cls("not-a-number")
		}
		peak = max(peak, v, -v)
		if w := float64(want[i]) * 0x7fff; math.Abs(float64(got[i])-w) > 1.001 {
			return bad("sample %d is %d, expected %.2f", i, got[i], w)
		}
	}
	// Frames must not alias: appending to one leaves the next intact.
	for i := range frames {
		frames[i].Clear()
		for j := i + 1; j < min(i+2, len(frames)); j++ {
			w := want[j*per:][:len(frames[j])]
			for k, x := range frames[j] {
				if math.Abs(float64(x)-float64(w[k])*0x7fff) > 1.001 {
					return bad("frame %d changes with frame %d", j, i)
				}
			}
		}
	}
	o := Out{NT: len(frames) >= 2}.cls(fmt.Sprintf("%d-channels", ac))
	if len(frames) > 0 && len(frames[len(frames)-1]) == per {
		o = o.cls("full-last-frame")
	}
	if clip {
		o = o.cls("clipped")
	}
	if peak > 0.9 {
		o = o.cls("loud")
	}
	if p.Rate > 0 {
		o = o.cls("patched-rate")
	}
	if len(frames) == 0 {
		o = o.cls("no-audio")
	}
	return o
}

func init() {
	regList("C38", "all", opts{only1: true, rule: "at least two frames, or a refusal"},
		func(tier int, seed int64, yield func(c38Plan) bool) {
			for s := range 7 {
				b, err := c38Src(s)
				if err != nil {
					panic(err)
				}
				pages, _ := c38Pages(b)
				for k := -1; k <= len(pages); k++ {
					if !yield(c38Plan{Src: s, Keep: k}) {
						return
					}
				}
				for _, d := range []c38Plan{{DRate: 1}, {DRate: -8000}, {DRate: 8000}, {DCh: 1}, {Ch: 2, DCh: -1}, {Ch: 2}, {Ch: 2, DCh: 1}} {
					d.Src, d.Keep = s, -1
					if !yield(d) {
						return
					}
				}
			}
			for j := 1; j <= 4; j++ {
				if !yield(c38Plan{Junk: j}) {
					return
				}
			}
		}, c38Run)
	reg("C38", "variants", opts{sec: [2]float64{9, 120}, rule: "at least two frames, or a refusal"}, func(t *rapid.T) c38Plan {
		p := c38Plan{Src: rapid.IntRange(0, 3).Draw(t, "src"), Keep: rapid.SampledFrom([]int{-1, 1, 2, 3, 4, 5, 6, 7, 1, 2, 1}).Draw(t, "keep")}
		if rapid.IntRange(0, 3).Draw(t, "skip?") == 0 {
			p.Skip = rapid.IntRange(1, 6).Draw(t, "skip")
		}
		if rapid.Bool().Draw(t, "gain?") {
			p.Gain = rapid.IntRange(-4, 6).Draw(t, "gain")
		}
		if rapid.Bool().Draw(t, "rate?") {
			p.Rate = rapid.OneOf(rapid.SampledFrom([]int{8000, 11025, 16000, 22050, 24000, 32000, 44100, 48000, 96000, 50_000, 1050, 8049}), rapid.IntRange(1000, 200000)).Draw(t, "rate")
		}
		if rapid.IntRange(0, 3).Draw(t, "ch?") == 0 {
			p.Ch = rapid.IntRange(2, 3).Draw(t, "ch")
		}
		if rapid.Bool().Draw(t, "end?") {
			p.End = rapid.OneOf(rapid.IntRange(1, 3000), rapid.IntRange(-1500, -1)).Draw(t, "end")
		}
		switch rapid.IntRange(0, 9).Draw(t, "damage") {
		case 0:
			p.Cut = rapid.IntRange(1, 3000).Draw(t, "cut")
		case 1:
			p.Flip = rapid.IntRange(1, 1000).Draw(t, "flip")
			p.FlipV = rapid.IntRange(1, 255).Draw(t, "flipv")
		case 2:
			p.DRate = rapid.SampledFrom([]int{-1, 1, 100, -100, 8000, 50}).Draw(t, "drate")
		case 3:
			p.DCh = rapid.SampledFrom([]int{1, -1, 2}).Draw(t, "dch")
		}
		return p
	}, c38Run)
}
