package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	psdp "github.com/pion/sdp/v3"
	"pgregory.net/rapid"
)

// C32: the codec registry. It is global and has no way to unregister, so every
// case runs in a process of its own.

type c32Op struct {
	Op string `json:"op"` // register, enable, disable, many, listen
	// register
	Name   string `json:"name,omitempty"`
	Audio  bool   `json:"audio,omitempty"`
	Static int    `json:"static,omitempty"` // payload type, 0: dynamic
	Rate   int    `json:"rate,omitempty"`
	Clock  int    `json:"clock,omitempty"`
	Prio   int    `json:"prio,omitempty"`
	Off    bool   `json:"off,omitempty"`
	// many
	Many map[string]bool `json:"many,omitempty"`
}

type c32Plan struct {
	Ops  []c32Op `json:"ops"`
	Case uint32  `json:"case"` // letter case of the names in lookups
}

func c32Case(s string, m uint32) string {
	b := []byte(strings.ToLower(s))
	for i := range b {
		if m>>(i%32)&1 == 1 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

type c32Codec struct {
	c    media.Codec
	info media.CodecInfo // as registered
}

func c32Child(p c32Plan) Out {
	var reg []c32Codec
	byName := map[string]media.Codec{}
	for _, c := range media.Codecs() {
		reg = append(reg, c32Codec{c, c.Info()})
	}
	for _, b := range c30Codecs {
		if !slices.ContainsFunc(reg, func(c c32Codec) bool {
			return c.info.SDPName == b.name && c.info.RTPIsStatic && c.info.RTPDefType == b.typ
		}) {
			return bad("%s is not registered with its static type", b.name)
		}
	}
	if len(reg) != 4 {
		return bad("%d codecs at the start", len(reg))
	}
	off := map[string]bool{}
	var seen [][]media.Codec
	listen := func() {
		i := len(seen)
		seen = append(seen, nil)
		media.OnRegister(func(c media.Codec) { seen[i] = append(seen[i], c) })
	}
	var lateSeen []int
	check := func() string {
		var all, en []media.Codec
		for _, c := range reg {
			all = append(all, c.c)
			if !off[strings.ToLower(c.info.SDPName)] {
				en = append(en, c.c)
			}
			byName[strings.ToLower(c.info.SDPName)] = c.c
		}
		if got := media.Codecs(); !slices.Equal(got, all) {
			return fmt.Sprintf("Codecs() has %d codecs, registered are %d", len(got), len(all))
		}
		// The list belongs to the caller.
		if l := media.Codecs(); len(l) > 1 {
			l[0], l[1] = l[1], l[0]
		}
		if got := media.EnabledCodecs(); len(got) != len(en) || !slices.Equal(got, en) {
			return fmt.Sprintf("EnabledCodecs() has %d codecs, enabled are %d", len(got), len(en))
		}
		for i, s := range seen {
			if !slices.Equal(s, all) {
				return fmt.Sprintf("listener %d saw %d of %d codecs", i, len(s), len(all))
			}
		}
		var formats, attrs []string
		for _, c := range reg {
			name := c.info.SDPName
			dis := off[strings.ToLower(name)]
			if media.CodecEnabled(c.c) == dis || media.CodecEnabledByName(c32Case(name, p.Case)) == dis || media.CodecEnabledByName(name) == dis {
				return fmt.Sprintf("%s: enabled: %v, %v", name, media.CodecEnabled(c.c), media.CodecEnabledByName(c32Case(name, p.Case)))
			}
			names := []string{name, c32Case(name, p.Case), c32Case(name, ^p.Case)}
			if strings.Count(name, "/") == 1 {
				names = append(names, name+"/1", c32Case(name, p.Case)+"/1")
			}
			for _, n := range names {
				got := sdp.CodecByName(n)
				if dis && got != nil || !dis && got != c.c {
					return fmt.Sprintf("CodecByName(%q): %v, disabled: %v", n, got, dis)
				}
			}
			if c.info.RTPIsStatic {
				if got := rtp.CodecByPayloadType(c.info.RTPDefType); !dis && got != c.c {
					return fmt.Sprintf("CodecByPayloadType(%d): %v", c.info.RTPDefType, got)
				}
				formats = append(formats, strconv.Itoa(int(c.info.RTPDefType)))
			}
			attrs = append(attrs, name)
			gi := c.c.Info()
			want := c.info
			if want.RTPClockRate == 0 {
				want.RTPClockRate = want.SampleRate
			}
			if gi != want {
				return fmt.Sprintf("Info() is %+v, want %+v", gi, want)
			}
		}
		if sdp.CodecByName("no-such/8000") != nil || !media.CodecEnabledByName("no-such/8000") || media.CodecEnabled(nil) {
			return "unknown codec"
		}
		for typ := range 256 {
			if !slices.ContainsFunc(reg, func(c c32Codec) bool { return c.info.RTPIsStatic && int(c.info.RTPDefType) == typ }) {
				if c := rtp.CodecByPayloadType(byte(typ)); c != nil {
					return fmt.Sprintf("CodecByPayloadType(%d): %v", typ, c)
				}
			}
		}
		// A media description that lists all of them: static types, then names.
		d := &psdp.MediaDescription{MediaName: psdp.MediaName{Formats: formats}}
		m, err := sdp.ParseMedia(d)
		if err != nil || len(m.Codecs) != len(formats) {
			return fmt.Sprintf("ParseMedia(%q): %v, %v", formats, m, err)
		}
		i := 0
		for _, c := range reg {
			if !c.info.RTPIsStatic {
				continue
			}
			var want media.Codec
			if _, ok := c.c.(rtp.AudioCodec); ok && !off[strings.ToLower(c.info.SDPName)] {
				want = c.c
			}
			if m.Codecs[i].Codec != want || m.Codecs[i].Type != c.info.RTPDefType {
				return fmt.Sprintf("format %s: codec %v, want %v", formats[i], m.Codecs[i].Codec, want)
			}
			i++
		}
		// Each static type alone, and in front of another format.
		for _, c := range reg {
			if !c.info.RTPIsStatic {
				continue
			}
			var want media.Codec
			if _, ok := c.c.(rtp.AudioCodec); ok && !off[strings.ToLower(c.info.SDPName)] {
				want = c.c
			}
			for _, more := range [][]string{nil, {"120"}, {"13", "0"}} {
				f := append([]string{strconv.Itoa(int(c.info.RTPDefType))}, more...)
				m, err := sdp.ParseMedia(&psdp.MediaDescription{MediaName: psdp.MediaName{Formats: f}})
				if err != nil || len(m.Codecs) == 0 || m.Codecs[0].Codec != want || m.Codecs[0].Type != c.info.RTPDefType {
					return fmt.Sprintf("formats %q: %v, %v, want %v", f, m, err, want)
				}
				if more != nil {
					continue
				}
				if sel, err := sdp.SelectAudio(*m, false); (err == nil) != (want != nil) {
					return fmt.Sprintf("formats %q: selected %v, %v, want %v", f, sel, err, want)
				}
			}
		}
		for j, c := range reg {
			if strings.EqualFold(c.info.SDPName, dtmf.SDPName) {
				continue
			}
			d := &psdp.MediaDescription{Attributes: []psdp.Attribute{{Key: "rtpmap", Value: "99 " + c32Case(attrs[j], p.Case)}}}
			m, err := sdp.ParseMedia(d)
			var want media.Codec
			if _, ok := c.c.(rtp.AudioCodec); ok && !off[strings.ToLower(c.info.SDPName)] {
				want = c.c
			}
			if err != nil || len(m.Codecs) != 1 || m.Codecs[0].Codec != want || m.Codecs[0].Type != 99 {
				return fmt.Sprintf("rtpmap of %s: %v %v, want %v", attrs[j], m, err, want)
			}
		}
		// The offer.
		offer := sdp.OfferCodecs()
		if len(offer) != len(en) {
			return fmt.Sprintf("%d codecs offered, %d enabled", len(offer), len(en))
		}
		types := map[byte]bool{}
		used := map[media.Codec]bool{}
		dt := byte(0)
		for i, c := range offer {
			if used[c.Codec] || !slices.Contains(en, c.Codec) {
				return fmt.Sprintf("offered codec %d is repeated or not enabled: %v", i, c.Codec)
			}
			used[c.Codec] = true
			inf := c.Codec.Info()
			if i > 0 {
				prev := offer[i-1].Codec.Info()
				if !prev.RTPIsStatic && inf.RTPIsStatic || prev.RTPIsStatic == inf.RTPIsStatic && prev.Priority < inf.Priority {
					return fmt.Sprintf("%s (static %v, priority %d) is offered before %s (static %v, priority %d)", prev.SDPName, prev.RTPIsStatic, prev.Priority, inf.SDPName, inf.RTPIsStatic, inf.Priority)
				}
			}
			if inf.RTPIsStatic && c.Type != inf.RTPDefType || !inf.RTPIsStatic && (c.Type < 101 || c.Type > 127) || types[c.Type] {
				return fmt.Sprintf("%s is offered with type %d (registered: %d, %v)", inf.SDPName, c.Type, inf.RTPDefType, inf.RTPIsStatic)
			}
			types[c.Type] = true
			if inf.SDPName == dtmf.SDPName {
				dt = c.Type
			}
		}
		md, sm, err := sdp.OfferMedia(4000, sdp.EncryptionNone)
		if err != nil || md.DTMFType != dt || len(md.Codecs) != len(offer) || len(sm.MediaName.Formats) != len(offer) {
			return fmt.Sprintf("OfferMedia: %v, %v, %v", md, sm, err)
		}
		maps := map[string]string{}
		for _, a := range sm.Attributes {
			if a.Key == "rtpmap" {
				k, v, _ := strings.Cut(a.Value, " ")
				if maps[k] != "" {
					return fmt.Sprintf("OfferMedia: type %s is mapped twice", k)
				}
				maps[k] = v
			}
		}
		for i, c := range md.Codecs {
			if f := sm.MediaName.Formats[i]; f != strconv.Itoa(int(c.Type)) || maps[f] != c.Codec.Info().SDPName {
				return fmt.Sprintf("OfferMedia: format %s is %q, want %d, %s", f, maps[f], c.Type, c.Codec.Info().SDPName)
			}
		}
		return ""
	}
	_ = lateSeen
	listen()
	if e := check(); e != "" {
		return bad("at the start: %s", e)
	}
	disabledOnes, registered := 0, 0
	for i, op := range p.Ops {
		switch op.Op {
		case "register":
			info := media.CodecInfo{SDPName: op.Name, SampleRate: op.Rate, RTPClockRate: op.Clock, Priority: op.Prio, Disabled: op.Off, RTPIsStatic: op.Static > 0, RTPDefType: byte(op.Static)}
			var c media.Codec
			if op.Audio {
				c = rtp.NewAudioCodec[g711.ULawSample](info, nil, nil)
			} else {
				c = media.NewCodec(info)
			}
			media.RegisterCodec(c)
			reg = append(reg, c32Codec{c, info})
			if op.Off {
				off[strings.ToLower(op.Name)] = true
			}
			registered++
		case "enable":
			media.CodecSetEnabled(op.Name, true)
			delete(off, strings.ToLower(op.Name))
		case "disable":
			media.CodecSetEnabled(op.Name, false)
			off[strings.ToLower(op.Name)] = true
			disabledOnes++
		case "many":
			media.CodecsSetEnabled(op.Many)
			for n, y := range op.Many {
				if y {
					delete(off, strings.ToLower(n))
				} else {
					off[strings.ToLower(n)] = true
					disabledOnes++
				}
			}
		case "listen":
			listen()
		}
		if e := check(); e != "" {
			return bad("after operation %d (%+v): %s", i, op, e)
		}
	}
	return Out{NT: registered > 0 && disabledOnes > 0}
}

// TestC32Child executes a plan given on the standard input.
func TestC32Child(t *testing.T) {
	if os.Getenv("VP_C32") == "" {
		t.Skip()
	}
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		t.Fatal(err)
	}
	var p c32Plan
	if err := json.Unmarshal(b, &p); err != nil {
		t.Fatal(err)
	}
	out := guarded(func() Out { return c32Child(p) })
	r, _ := json.Marshal(out)
	fmt.Printf("\nC32-RESULT %s\n", r)
}

func c32Run(p c32Plan) Out {
	in, _ := json.Marshal(p)
	cmd := exec.Command(os.Args[0], "-test.run=^TestC32Child$", "-test.v=false")
	cmd.Env = append(os.Environ(), "VP_C32=1", "VP_PROP=", "GOMAXPROCS=1", "GOGC=off")
	cmd.Stdin = bytes.NewReader(in)
	b, err := cmd.CombinedOutput()
	i := bytes.Index(b, []byte("C32-RESULT "))
	if i < 0 {
		// A crash of the child, e.g. a fatal error of the runtime.
		return bad("the process ended without a result: %v: %.2000s", err, b)
	}
	line, _, _ := bytes.Cut(b[i+11:], []byte("\n"))
	var out Out
	if err := json.Unmarshal(line, &out); err != nil {
		return bad("harness: %v", err)
	}
	return out
}

func init() {
	reg("C32", "history", opts{sec: [2]float64{12, 120}, rule: "a codec is registered and one is disabled"},
		func(t *rapid.T) c32Plan {
			p := c32Plan{Case: rapid.Uint32().Draw(t, "case")}
			names := []string{"PCMU/8000", "PCMA/8000", "G722/8000", "telephone-event/8000", "new/1"}
			static := map[int]bool{0: true, 8: true, 9: true}
			stem := []string{"opus", "Speex", "x", "L16", "PCMU", "g722", "A-b_c", "telephone-event"}
			dyn := 1
			anyName := func() string {
				return c32Case(rapid.SampledFrom(names).Draw(t, "which"), rapid.SampledFrom([]uint32{0, 1<<32 - 1, 0x5a5a5a5a, 1}).Draw(t, "case"))
			}
			for range rapid.IntRange(1, 14).Draw(t, "ops") {
				op := c32Op{Op: rapid.SampledFrom([]string{"register", "register", "register", "enable", "disable", "disable", "many", "listen"}).Draw(t, "op")}
				switch op.Op {
				case "register":
					n := rapid.SampledFrom(stem).Draw(t, "stem")
					rate := rapid.SampledFrom([]int{8000, 16000, 44100, 48000, 11025}).Draw(t, "rate")
					op.Name = n
					switch rapid.IntRange(0, 4).Draw(t, "form") {
					case 0:
					case 1:
						op.Name += fmt.Sprintf("/%d/2", rate)
					default:
						op.Name += fmt.Sprintf("/%d", rate)
					}
					if slices.ContainsFunc(names, func(s string) bool {
						return strings.EqualFold(s, op.Name) || strings.EqualFold(s, op.Name+"/1") || strings.EqualFold(s+"/1", op.Name)
					}) {
						op.Name = fmt.Sprintf("y%d/%d", len(p.Ops), rate)
					}
					names = append(names, op.Name)
					if rapid.IntRange(0, 3).Draw(t, "early?") == 0 {
						p.Ops = append(p.Ops, c32Op{Op: rapid.SampledFrom([]string{"disable", "disable", "enable"}).Draw(t, "early"), Name: op.Name})
					}
					op.Rate = rate
					op.Audio = rapid.Bool().Draw(t, "audio")
					op.Prio = rapid.OneOf(rapid.IntRange(-30, 30), rapid.Int()).Draw(t, "prio")
					op.Off = rapid.IntRange(0, 3).Draw(t, "off") == 0
					if rapid.Bool().Draw(t, "clock") {
						op.Clock = rapid.SampledFrom([]int{8000, 90000}).Draw(t, "clockrate")
					}
					if rapid.Bool().Draw(t, "static") {
						typ := rapid.IntRange(1, 100).Draw(t, "type")
						if !static[typ] {
							static[typ] = true
							op.Static = typ
						}
					}
					if op.Static == 0 {
						if dyn++; dyn > 20 {
							continue
						}
					}
				case "enable", "disable":
					op.Name = anyName()
				case "many":
					op.Many = map[string]bool{}
					for range rapid.IntRange(0, 4).Draw(t, "many") {
						// No two spellings of a name: the order would matter.
						op.Many[strings.ToUpper(rapid.SampledFrom(names).Draw(t, "which"))] = rapid.Bool().Draw(t, "on")
					}
				}
				p.Ops = append(p.Ops, op)
			}
			return p
		}, c32Run)
}
