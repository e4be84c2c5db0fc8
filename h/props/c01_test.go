package props

import (
	"fmt"
	"io"

	"github.com/livekit/media-sdk/ring"
	"pgregory.net/rapid"
)

// C01: ring buffer against a slice queue.

type c01Op struct {
	Op string `json:"o"`
	N  int    `json:"n,omitempty"` // slice length for read/write
}

type c01Plan struct {
	Size int     `json:"size"`
	Ops  []c01Op `json:"ops"`
}

func init() {
	reg("C01", "model", opts{sec: [2]float64{6, 120}, rule: "the history wrapped around the end of the buffer or overflowed it at least once"},
		func(t *rapid.T) c01Plan {
			var p c01Plan
			p.Size = rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, 64), rapid.SampledFrom([]int{160, 480, 960, 1024, 4800, 1 << 16})).Draw(t, "size")
			lens := rapid.OneOf(
				rapid.IntRange(0, 3),
				rapid.IntRange(0, p.Size*3+2),
				rapid.SampledFrom([]int{p.Size - 1, p.Size, p.Size + 1, 2 * p.Size, p.Size / 2}),
			)
			op := rapid.Custom(func(t *rapid.T) c01Op {
				o := c01Op{Op: rapid.SampledFrom([]string{"push", "push", "trypush", "pop", "trypop", "peek", "trypeek", "read", "read", "write", "write"}).Draw(t, "op")}
				if o.Op == "read" || o.Op == "write" {
					o.N = lens.Draw(t, "n")
				}
				return o
			})
			p.Ops = laps(t, rapid.SliceOfN(op, 1, 120).Draw(t, "ops"), 6000)
			return p
		}, c01Run)
}

func c01Run(p c01Plan) Out {
	b := ring.NewBuffer[int32](p.Size)
	var q []int32
	next := int32(1)
	wrapped := false
	added := 0
	check := func(i int, o c01Op) string {
		if b.Len() != len(q) {
			return fmt.Sprintf("op %d %+v: Len=%d want %d", i, o, b.Len(), len(q))
		}
		if b.Size() != p.Size {
			return fmt.Sprintf("op %d %+v: Size=%d want %d", i, o, b.Size(), p.Size)
		}
		v, ok := b.TryPeek()
		if ok != (len(q) > 0) || (ok && v != q[0]) || (!ok && v != 0) {
			return fmt.Sprintf("op %d %+v: TryPeek=(%d,%v), queue %v", i, o, v, ok, q)
		}
		return ""
	}
	keep := func() {
		if len(q) > p.Size {
			q = q[len(q)-p.Size:]
			wrapped = true
		}
		if added > p.Size {
			wrapped = true
		}
	}
	for i, o := range p.Ops {
		switch o.Op {
		case "push":
			b.Push(next)
			q = append(q, next)
			next++
			added++
			keep()
		case "trypush":
			ok := b.TryPush(next)
			want := len(q) < p.Size
			if ok != want {
				return bad("op %d: TryPush=%v want %v", i, ok, want)
			}
			if ok {
				q = append(q, next)
				added++
			}
			next++
		case "pop", "trypop":
			var v int32
			ok := true
			if o.Op == "pop" {
				v = b.Pop()
				ok = len(q) > 0
			} else {
				v, ok = b.TryPop()
			}
			var want int32
			wok := len(q) > 0
			if wok {
				want = q[0]
				q = q[1:]
			}
			if v != want || ok != wok {
				return bad("op %d %s: got (%d,%v) want (%d,%v)", i, o.Op, v, ok, want, wok)
			}
		case "peek", "trypeek":
			var v int32
			ok := len(q) > 0
			if o.Op == "peek" {
				v = b.Peek()
			} else {
				v, ok = b.TryPeek()
			}
			var want int32
			wok := len(q) > 0
			if wok {
				want = q[0]
			}
			if v != want || ok != wok {
				return bad("op %d %s: got (%d,%v) want (%d,%v)", i, o.Op, v, ok, want, wok)
			}
		case "read":
			dst := make([]int32, o.N)
			for j := range dst {
				dst[j] = -7
			}
			n, err := b.Read(dst)
			wn := min(o.N, len(q))
			var werr error
			if o.N > 0 && len(q) == 0 {
				werr = io.EOF
			}
			if n != wn || err != werr {
				return bad("op %d read %d: got (%d,%v) want (%d,%v)", i, o.N, n, err, wn, werr)
			}
			if !eqSlice(dst[:n], q[:n]) {
				return bad("op %d read %d: got %v want %v", i, o.N, dst[:n], q[:n])
			}
			for _, v := range dst[n:] {
				if v != -7 {
					return bad("op %d read %d: wrote beyond the returned count", i, o.N)
				}
			}
			q = q[n:]
		case "write":
			src := make([]int32, o.N)
			for j := range src {
				src[j] = next
				next++
			}
			n, err := b.Write(src)
			if n != o.N || err != nil {
				return bad("op %d write %d: got (%d,%v)", i, o.N, n, err)
			}
			q = append(q, src...)
			added += o.N
			for j := range src {
				src[j] = -9 // the buffer must not alias its input
			}
			keep()
		}
		if msg := check(i, o); msg != "" {
			return Out{Viol: msg}
		}
	}
	// drain
	dst := make([]int32, p.Size)
	n, _ := b.Read(dst)
	if !eqSlice(dst[:n], q) {
		return bad("final drain: got %v want %v", dst[:n], q)
	}
	o := Out{NT: wrapped}
	if wrapped {
		o = o.cls("wrapped")
	}
	return o
}
