package props

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"sync"
	"time"

	media "github.com/livekit/media-sdk"
	"pgregory.net/rapid"
)

// C07: Pipe, differential against io.Pipe in virtual time, plus racing stress.

type c07Op struct {
	Op    string `json:"o"` // read, write, closer, closew, closererr, closewerr
	N     int    `json:"n,omitempty"`
	Delay int    `json:"d,omitempty"` // in slots
}

type c07Plan struct {
	Actors [][]c07Op `json:"actors"` // actor 0 is the only writer
}

func init() {
	reg("C07", "differential", opts{sec: [2]float64{6, 120}, rule: "data was transferred, and a read was partial or a close interrupted a pending operation"},
		func(t *rapid.T) c07Plan {
			size := rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(0, 40), rapid.IntRange(0, 40), rapid.SampledFrom([]int{160, 320, 960, 5000}))
			var p c07Plan
			n := rapid.IntRange(2, 4).Draw(t, "actors")
			for a := 0; a < n; a++ {
				kinds := []string{"read", "read", "read", "read", "read", "closer", "closererr", "closew", "closewerr"}
				if a == 0 {
					kinds = []string{"write", "write", "write", "write", "write", "write", "closew", "closewerr"}
				} else if a == 1 {
					kinds = []string{"read"}
				}
				op := rapid.Custom(func(t *rapid.T) c07Op {
					o := c07Op{Op: rapid.SampledFrom(kinds).Draw(t, "op"), Delay: rapid.IntRange(0, 6).Draw(t, "d")}
					if o.Op == "read" || o.Op == "write" {
						o.N = size.Draw(t, "n")
					}
					return o
				})
				p.Actors = append(p.Actors, laps(t, rapid.SliceOfN(op, 0, 10).Draw(t, "ops"), 600))
			}
			return p
		}, c07Diff)
	reg("C07", "stress", opts{build: "both", racy: true, reps: 40, sec: [2]float64{4, 40}, rule: "at least two writers, or a close raced with transfers"},
		func(t *rapid.T) c07sPlan {
			return c07sPlan{
				Writers: rapid.IntRange(1, 4).Draw(t, "w"),
				Writes:  rapid.IntRange(1, 20).Draw(t, "n"),
				Len:     rapid.IntRange(1, 12).Draw(t, "len"),
				Read:    rapid.IntRange(1, 15).Draw(t, "read"),
				Close:   rapid.SampledFrom([]string{"", "", "r", "w", "rerr", "werr", "both"}).Draw(t, "close"),
				After:   rapid.IntRange(0, 200).Draw(t, "after"),
			}
		}, c07Stress)
}

var errPipeR = errors.New("reader gone")
var errPipeW = errors.New("writer gone")

type pipeRes struct {
	N    int
	Err  string
	Data string
	At   time.Duration
}

type pipeAPI struct {
	read            func(n int) (int, error, []int)
	write           func(data []int) (int, error)
	closeR, closeW  func() error
	closeRE, closeE func(error) error
}

func c07Exec(p c07Plan, api pipeAPI) ([][]pipeRes, bool) {
	start := time.Now()
	const slot = 10 * time.Millisecond
	na := len(p.Actors)
	res := make([][]pipeRes, na)
	interrupted := false
	var wg sync.WaitGroup
	next := 1
	for a, ops := range p.Actors {
		wg.Add(1)
		base := next
		for _, o := range ops {
			if o.Op == "write" {
				next += o.N
			}
		}
		go func() {
			defer wg.Done()
			val := base
			for _, o := range ops {
				// Every operation of actor a starts at its own phase within a slot.
				phase := time.Duration(a+1) * (slot / time.Duration(na+2))
				now := time.Since(start)
				k := now/slot + 1 + time.Duration(o.Delay)
				time.Sleep(k*slot + phase - now)
				var r pipeRes
				var err error
				switch o.Op {
				case "read":
					var d []int
					r.N, err, d = api.read(o.N)
					r.Data = fmt.Sprint(d)
				case "write":
					data := make([]int, o.N)
					for i := range data {
						data[i] = val % 251
						val++
					}
					r.N, err = api.write(data)
				case "closer":
					err = api.closeR()
				case "closew":
					err = api.closeW()
				case "closererr":
					err = api.closeRE(errPipeR)
				case "closewerr":
					err = api.closeE(errPipeW)
				}
				r.Err = fmt.Sprint(err)
				r.At = time.Since(start)
				res[a] = append(res[a], r)
			}
		}()
	}
	// Unblock whatever is left.
	go func() {
		time.Sleep(1000 * slot)
		_ = api.closeR()
		_ = api.closeW()
	}()
	wg.Wait()
	time.Sleep(1001 * slot)
	return res, interrupted
}

func c07Diff(p c07Plan) Out {
	var got, want [][]pipeRes
	if o := bubble(func() Out {
		r, w := media.Pipe[media.PCM16Sample](8000)
		if w.SampleRate() != 8000 {
			return bad("sample rate")
		}
		got, _ = c07Exec(p, pipeAPI{
			read: func(n int) (int, error, []int) {
				buf := make(media.PCM16Sample, n)
				k, err := r.ReadSample(buf)
				var d []int
				for _, v := range buf[:max(0, k)] {
					d = append(d, int(v))
				}
				return k, err, d
			},
			write: func(data []int) (int, error) {
				buf := make(media.PCM16Sample, len(data))
				for i, v := range data {
					buf[i] = int16(v)
				}
				return -1, w.WriteSample(buf)
			},
			closeR: r.Close, closeW: w.Close, closeRE: r.CloseWithError, closeE: w.CloseWithError,
		})
		return Out{}
	}); o.Viol != "" {
		return o
	}
	if o := bubble(func() Out {
		r, w := io.Pipe()
		want, _ = c07Exec(p, pipeAPI{
			read: func(n int) (int, error, []int) {
				buf := make([]byte, n)
				k, err := r.Read(buf)
				var d []int
				for _, v := range buf[:max(0, k)] {
					d = append(d, int(v))
				}
				return k, err, d
			},
			write: func(data []int) (int, error) {
				buf := make([]byte, len(data))
				for i, v := range data {
					buf[i] = byte(v)
				}
				_, err := w.Write(buf)
				return -1, err
			},
			closeR: r.Close, closeW: w.Close, closeRE: r.CloseWithError, closeE: w.CloseWithError,
		})
		return Out{}
	}); o.Viol != "" {
		panic("io.Pipe reference failed: " + o.Viol)
	}
	moved, partial, errs := false, false, false
	for a := range want {
		if len(got[a]) != len(want[a]) {
			return bad("actor %d performed %d operations, io.Pipe %d", a, len(got[a]), len(want[a]))
		}
		for i := range want[a] {
			if got[a][i] != want[a][i] {
				return bad("actor %d op %d %+v: got %+v, io.Pipe gives %+v", a, i, p.Actors[a][i], got[a][i], want[a][i])
			}
			if w := want[a][i]; p.Actors[a][i].Op == "read" {
				moved = moved || w.N > 0
				partial = partial || (w.N > 0 && w.N < p.Actors[a][i].N)
				errs = errs || w.Err != "<nil>"
			} else if p.Actors[a][i].Op == "write" {
				errs = errs || w.Err != "<nil>"
			}
		}
	}
	o := Out{NT: moved && (partial || errs)}
	if partial {
		o = o.cls("partial")
	}
	if errs {
		o = o.cls("closed")
	}
	return o
}

type c07sPlan struct {
	Writers int    `json:"w"`
	Writes  int    `json:"n"`
	Len     int    `json:"len"`
	Read    int    `json:"read"`
	Close   string `json:"close"`
	After   int    `json:"after"`
}

func c07Stress(p c07sPlan) Out {
	type E = int32
	r, w := media.Pipe[[]E](8000)
	var wg sync.WaitGroup
	acked := make([]int, p.Writers) // writes that returned nil
	werrs := make([]error, p.Writers)
	for k := 0; k < p.Writers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < p.Writes; i++ {
				s := make([]E, p.Len)
				for j := range s {
					s[j] = E(k<<20 | i<<8 | j)
				}
				if err := w.WriteSample(s); err != nil {
					werrs[k] = err
					return
				}
				acked[k]++
			}
		}()
	}
	var got []E
	var rerr error
	rdone := make(chan struct{})
	go func() {
		defer close(rdone)
		buf := make([]E, p.Read)
		for i := 0; ; i++ {
			n, err := r.ReadSample(buf)
			got = append(got, buf[:n]...)
			if err != nil {
				rerr = err
				return
			}
		}
	}()
	closeIt := func() {
		for i := 0; i < p.After; i++ {
			runtime.Gosched()
		}
		switch p.Close {
		case "r":
			_ = r.Close()
		case "w":
			_ = w.Close()
		case "rerr":
			_ = r.CloseWithError(errPipeR)
		case "werr":
			_ = w.CloseWithError(errPipeW)
		case "both":
			_ = w.CloseWithError(errPipeW)
			_ = r.CloseWithError(errPipeR)
		}
	}
	if p.Close != "" {
		closeIt()
	}
	wg.Wait()
	if p.Close == "" {
		_ = w.Close()
	}
	<-rdone
	// errors
	var wantR, wantW []error
	switch p.Close {
	case "", "w":
		wantR, wantW = []error{io.EOF}, []error{io.ErrClosedPipe}
	case "r":
		wantR, wantW = []error{io.ErrClosedPipe}, []error{io.ErrClosedPipe}
	case "rerr":
		wantR, wantW = []error{io.ErrClosedPipe}, []error{errPipeR}
	case "werr":
		wantR, wantW = []error{errPipeW}, []error{io.ErrClosedPipe}
	case "both":
		// whether each side already saw the other one's error depends on timing
		wantR, wantW = []error{errPipeW, io.ErrClosedPipe}, []error{errPipeR, io.ErrClosedPipe}
	}
	in := func(e error, l []error) bool {
		for _, v := range l {
			if v == e {
				return true
			}
		}
		return false
	}
	if !in(rerr, wantR) {
		return bad("reader ended with %v, want one of %v", rerr, wantR)
	}
	for k, e := range werrs {
		if e != nil && !in(e, wantW) {
			return bad("writer %d ended with %v, want one of %v", k, e, wantW)
		}
		if p.Close == "" && e != nil {
			return bad("writer %d failed without a close: %v", k, e)
		}
	}
	// data: whole writes, each in order, only the last of a writer may be cut short
	seen := make([]int, p.Writers)
	for i := 0; i < len(got); {
		k, n := int(got[i]>>20), int(got[i]>>8)&0xfff
		if k >= p.Writers || int(got[i]&0xff) != 0 || seen[k] != n {
			return bad("position %d: unexpected element writer %d write %d elem %d", i, k, n, got[i]&0xff)
		}
		j := 0
		for j < p.Len && i+j < len(got) && got[i+j] == E(k<<20|n<<8|j) {
			j++
		}
		if j < p.Len && i+j < len(got) && p.Close == "" {
			return bad("write %d of writer %d interrupted after %d of %d by %x", n, k, j, p.Len, got[i+j])
		}
		if j < p.Len && i+j < len(got) {
			// only a closed pipe may cut a write short, and then nothing follows
			return bad("data follows a cut write")
		}
		if j == p.Len {
			seen[k]++
		}
		i += j
	}
	for k := range seen {
		if seen[k] != acked[k] && !(p.Close != "" && seen[k] == acked[k]+1 && false) {
			return bad("writer %d: %d writes acknowledged, %d read completely", k, acked[k], seen[k])
		}
	}
	return Out{NT: p.Writers > 1 || p.Close != ""}
}
