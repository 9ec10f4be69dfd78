package fifo_test

import (
	"fmt"
	"testing"

	"github.com/nlpodyssey/goslide/bucket/fifo"
)

func TestVerifF01(t *testing.T) {
	h := vNew(t, "random Add/Reset/Retrieve/GetAll histories, two buckets interleaved; non-trivial: at least one Add past the 128th since a Reset")
	defer h.done(t)
	for n := 0; h.more(n, 150, 3000); n++ {
		type op struct {
			B, Kind, Arg int
		}
		var ops []op
		bs := []*fifo.FifoBucket{fifo.New(), fifo.New()}
		hist := [][]int{nil, nil}
		steps := h.intv(1, 700)
		wrapped := false
		resetP := []int{1000000, 200, 400, 30}[h.rng.Intn(4)]
		h.begin(map[string]interface{}{"case": n, "steps": steps, "resetP": resetP})
		one := h.rng.Intn(3) == 0
		for s := 0; s < steps && len(h.Findings) == 0; s++ {
			k := h.rng.Intn(2)
			if one {
				k = 0
			}
			b := bs[k]
			o := op{B: k}
			switch {
			case h.rng.Intn(resetP) == 0:
				o.Kind = 1
				b.Reset()
				hist[k] = nil
			default:
				o.Arg = h.anyInt()
				r := b.Add(o.Arg)
				if want := len(hist[k]) % 128; r != want {
					h.curIn = ops
					h.fail("slot returned by Add", want, r)
				}
				hist[k] = append(hist[k], o.Arg)
			}
			ops = append(ops, o)
			if len(hist[k]) > 128 {
				wrapped = true
			}
			if s == steps-1 || h.rng.Intn(20) == 0 || len(hist[k])%64 < 2 {
				for j := range bs {
					held := len(hist[j])
					if held > 128 {
						held = 128
					}
					want := make([]int, held)
					for i := range want {
						x := len(hist[j]) - 1
						want[i] = hist[j][x-((x-i)%128)]
					}
					all := bs[j].GetAll()
					h.curIn = ops
					if fmt.Sprint(all) != fmt.Sprint(want) {
						h.fail(fmt.Sprintf("contents of bucket %d after %d operations", j, s+1), want, append([]int{}, all...))
					}
					for i := 0; i < 128; i++ {
						w := 0
						if i < held {
							w = want[i]
						}
						if g := bs[j].Retrieve(i); g != w {
							h.fail(fmt.Sprintf("Retrieve(%d) of bucket %d", i, j), w, g)
						}
					}
					i := 128 + h.rng.Intn(200)
					if g := bs[j].Retrieve(i); g != -1 {
						h.fail(fmt.Sprintf("Retrieve(%d)", i), -1, g)
					}
				}
			}
		}
		if wrapped {
			h.nontrivial(fmt.Sprintf("case %d: %d operations", n, steps))
		}
	}
}
