package props

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Coverage-guided search of the thorough tier: the fuzzer of the Go toolchain mutates the random bits from which
// the same generators draw their plans, and keeps those that reach new code of the library.

// TestPhases names the phases of VP_PROP that can be searched this way.
func TestPhases(t *testing.T) {
	for _, ph := range phases {
		if ph.prop == os.Getenv("VP_PROP") && ph.one != nil && !ph.o.racy && !ph.o.exh && !ph.o.only1 && !ph.o.slow && ph.o.build != "race" {
			fmt.Println("PHASE " + ph.name)
		}
	}
}

func FuzzGuided(f *testing.F) {
	prop, name := os.Getenv("VP_PROP"), os.Getenv("VP_PHASE")
	if prop == "" {
		f.Skip("VP_PROP is not set")
	}
	// Every process of the fuzzer has a directory of its own.
	dir := filepath.Join(os.Getenv("VP_OUT"), fmt.Sprintf("guided-%d", os.Getpid()))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		f.Fatal(err)
	}
	// ... and a number, for what must not be shared with the others.
	for i := 0; ; i++ {
		slot, err := os.OpenFile(filepath.Join(os.Getenv("VP_OUT"), fmt.Sprintf("slot-%d", i)), os.O_CREATE|os.O_RDWR, 0o644)
		if err != nil {
			f.Fatal(err)
		}
		if syscall.Flock(int(slot.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil {
			os.Setenv("VP_WORKER", fmt.Sprint(i))
			defer slot.Close()
			break
		}
		slot.Close()
	}
	r := &runner{seed: envInt("VP_SEED", 1), tier: 1, outDir: dir, stats: map[string]*phStats{}}
	theRunner = r
	var err error
	if r.curF, err = os.Create(filepath.Join(dir, "current.json")); err != nil {
		f.Fatal(err)
	}
	var ph *phase
	for _, x := range phases {
		if x.prop == prop && x.name == name {
			ph = x
		}
	}
	r.stats[name] = &phStats{Phase: name, Rule: ph.o.rule, Classes: map[string]int{}, hashes: map[uint64]struct{}{}}
	go r.watchdog()
	rng := rand.New(rand.NewPCG(uint64(r.seed), hash64([]byte(prop+name))))
	for i := range 256 {
		b := make([]byte, 0, 8<<(6+i%6))
		for len(b) < cap(b) {
			// Arbitrary numbers in half of them, mostly small ones in the others.
			b = binary.LittleEndian.AppendUint64(b, rng.Uint64()>>rng.IntN(1+i%2*63))
		}
		f.Add(b)
	}
	start, written := time.Now(), time.Now()
	f.Fuzz(func(t *testing.T, data []byte) {
		r.t, r.failed = t, nil
		defer func() {
			if time.Since(written) > time.Second {
				written = time.Now()
				r.stats[name].WallS = time.Since(start).Seconds()
				r.writeStats()
			}
			if r.failed == nil {
				return
			}
			// keep the smallest plan
			file := filepath.Join(dir, "violation.json")
			if st, err := os.Stat(file); err != nil || st.Size() > int64(len(r.failed.Plan)) {
				r.failed.Message = strings.ToValidUTF8(r.failed.Message, "?")
				r.writeViolation()
			}
		}()
		rapid.MakeFuzz(func(rt *rapid.T) { ph.one(r, rt) })(t, data)
	})
}
