package bucket_test

import (
	"fmt"
	"testing"

	"github.com/nlpodyssey/goslide/bucket"
)

func TestVerifF02(t *testing.T) {
	h := vNew(t, "random Add/Reset/GetAll/Retrieve/GetSize histories over two interleaved buckets; non-trivial: more than 128 Adds since the last Reset, or a Reset after Adds")
	defer h.done(t)
	for n := 0; h.more(n, 200, 3000); n++ {
		type op struct{ B, Kind, Arg int }
		var ops []op
		bs := []*bucket.Bucket{bucket.New(), bucket.New()}
		hist := [][]int{nil, nil}
		resets := 0
		steps := h.intv(1, 700)
		resetP := []int{1000000, 200, 400, 30}[h.rng.Intn(4)]
		lookP := []int{1, 3, 20, 1000}[h.rng.Intn(4)]
		one := h.rng.Intn(3) == 0
		wrapped := false
		h.begin(map[string]interface{}{"case": n, "steps": steps, "resetP": resetP})
		look := func(j int) {
			m := len(hist[j])
			h.curIn = ops
			if g := bs[j].GetSize(); g != m {
				h.fail("GetSize", m, g)
			}
			slot := func(i int) int { return hist[j][m-1-((m-1-i)%128)] }
			for i := 0; i < 128; i++ {
				g := bs[j].Retrieve(i)
				switch {
				case i < m:
					if g != slot(i) {
						h.fail(fmt.Sprintf("Retrieve(%d)", i), slot(i), g)
					}
				case i == m:
					if g != 0 && g != -1 {
						h.fail(fmt.Sprintf("Retrieve(%d) of an unused slot", i), "0 or -1", g)
					}
				default:
					if g != 0 {
						h.fail(fmt.Sprintf("Retrieve(%d) of an unused slot", i), 0, g)
					}
				}
			}
			i := 128 + h.rng.Intn(300)
			if g := bs[j].Retrieve(i); g != -1 {
				h.fail(fmt.Sprintf("Retrieve(%d)", i), -1, g)
			}
			if g := bs[j].Retrieve(128); g != -1 {
				h.fail("Retrieve(128)", -1, g)
			}
			if h.rng.Intn(2) == 0 {
				return
			}
			ops = append(ops, op{j, 2, 0})
			all := bs[j].GetAll()
			if m == 0 {
				if all != nil {
					h.fail("GetAll of an empty bucket", "nil", all)
				}
				return
			}
			if len(all) != 128 {
				h.fail("length of GetAll", 128, len(all))
				return
			}
			for i := 0; i < 128 && i < m; i++ {
				if all[i] != slot(i) {
					h.fail(fmt.Sprintf("GetAll()[%d]", i), slot(i), all[i])
				}
			}
			if m < 128 && all[m] != -1 {
				h.fail(fmt.Sprintf("end marker GetAll()[%d]", m), -1, all[m])
			}
		}
		for s := 0; s < steps && len(h.Findings) == 0; s++ {
			k := h.rng.Intn(2)
			if one {
				k = 0
			}
			if h.rng.Intn(resetP) == 0 {
				ops = append(ops, op{k, 1, 0})
				bs[k].Reset()
				if len(hist[k]) > 0 {
					resets++
				}
				hist[k] = nil
			} else {
				a := h.anyInt()
				ops = append(ops, op{k, 0, a})
				r := bs[k].Add(a)
				if want := len(hist[k]) % 128; r != want {
					h.curIn = ops
					h.fail("slot returned by Add", want, r)
				}
				hist[k] = append(hist[k], a)
			}
			if len(hist[k]) > 128 {
				wrapped = true
			}
			if s == steps-1 || h.rng.Intn(lookP) == 0 && (lookP > 1 || s < 40) || len(hist[k])%128 < 2 {
				look(0)
				look(1)
			}
		}
		if wrapped || resets > 0 {
			h.nontrivial(fmt.Sprintf("case %d: %d operations, %d resets", n, steps, resets))
		}
	}
}
