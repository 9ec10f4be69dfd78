package lsh_test

import (
	"fmt"
	"testing"

	"github.com/nlpodyssey/goslide/lsh"
)

func TestVerifL01(t *testing.T) {
	h := vNew(t, "random Add/AddSingle/Clear histories over two indexes, checked against a model of every touched bucket; non-trivial: a bucket received more than 128 ids, or a Clear after additions")
	defer h.done(t)
	for n := 0; h.more(n, 60, 1500); n++ {
		type op struct {
			X, Kind int
			Idx     []int
			ID      int
		}
		var ops []op
		l := h.intv(1, 5)
		rp := h.rng.Intn(5)
		if h.rng.Intn(10) == 0 {
			rp = h.intv(5, 9)
		}
		size := 1 << uint(rp)
		steps := h.intv(1, 400)
		clearP := []int{1000000, 300, 40}[h.rng.Intn(3)]
		narrow := h.rng.Intn(2) == 0
		h.begin(map[string]interface{}{"case": n, "l": l, "rangePow": rp, "steps": steps})
		xs := []*lsh.LSH{lsh.New(h.intv(1, 4), l, rp), lsh.New(2, l, rp)}
		model := []map[[2]int][]int{{}, {}}
		got := func(x, tab, j int) {
			m := model[x][[2]int{tab, j}]
			k := len(m)
			for i := 0; i < 128; i++ {
				want := 0
				if i < k {
					want = m[k-1-((k-1-i)%128)]
				}
				if g := xs[x].Retrieve(tab, j, i); g != want {
					h.fail(fmt.Sprintf("index %d: Retrieve(%d, %d, %d)", x, tab, j, i), want, g)
					return
				}
				if i >= k+1 {
					break
				}
			}
			if g := xs[x].Retrieve(tab, j, 128+h.rng.Intn(50)); g != -1 {
				h.fail("Retrieve past the bucket's capacity", -1, g)
			}
		}
		raw := func(x int, idx []int) {
			r := xs[x].RetrieveRaw(idx)
			if len(r) != l {
				h.fail("length of RetrieveRaw", l, len(r))
				return
			}
			for i := range r {
				m := model[x][[2]int{i, idx[i]}]
				k := len(m)
				w := k
				if w > 128 {
					w = 128
				}
				if len(r[i]) != w {
					h.fail(fmt.Sprintf("length of RetrieveRaw(%v)[%d]", idx, i), w, len(r[i]))
					return
				}
				for j := range r[i] {
					if want := m[k-1-((k-1-j)%128)]; r[i][j] != want {
						h.fail(fmt.Sprintf("RetrieveRaw(%v)[%d][%d]", idx, i, j), want, r[i][j])
						return
					}
				}
			}
		}
		rIdx := func() []int {
			idx := make([]int, l)
			for i := range idx {
				idx[i] = h.rng.Intn(size)
				if narrow {
					idx[i] %= 2
				}
				if h.rng.Intn(8) == 0 {
					idx[i] = size - 1
				}
			}
			return idx
		}
		cleared, full := false, false
		for s := 0; s < steps && len(h.Findings) == 0; s++ {
			x := h.rng.Intn(2)
			h.curIn = map[string]interface{}{"l": l, "rangePow": rp, "ops": ops}
			switch {
			case h.rng.Intn(clearP) == 0:
				ops = append(ops, op{x, 2, nil, 0})
				cleared = cleared || len(model[x]) > 0
				xs[x].Clear()
				model[x] = map[[2]int][]int{}
			case h.rng.Intn(3) == 0:
				tab, j, id := h.rng.Intn(l), rIdx()[0], h.anyInt()
				ops = append(ops, op{x, 1, []int{tab, j}, id})
				k := [2]int{tab, j}
				if g, w := xs[x].AddSingle(tab, j, id), len(model[x][k])%128; g != w {
					h.fail("slot returned by AddSingle", w, g)
				}
				model[x][k] = append(model[x][k], id)
			default:
				idx, id := rIdx(), h.anyInt()
				ops = append(ops, op{x, 0, append([]int(nil), idx...), id})
				g := xs[x].Add(idx, id)
				if len(g) != l {
					h.fail("length of the slots returned by Add", l, len(g))
					break
				}
				for i := range g {
					k := [2]int{i, idx[i]}
					if w := len(model[x][k]) % 128; g[i] != w {
						h.fail(fmt.Sprintf("slot returned by Add for table %d", i), w, g[i])
					}
					model[x][k] = append(model[x][k], id)
					full = full || len(model[x][k]) > 128
				}
			}
			h.curIn = map[string]interface{}{"l": l, "rangePow": rp, "ops": ops}
			raw(x, rIdx())
			got(h.rng.Intn(2), h.rng.Intn(l), h.rng.Intn(size))
		}
		for x := range xs {
			for tab := 0; tab < l; tab++ {
				for j := 0; j < size && len(h.Findings) == 0; j++ {
					got(x, tab, j)
				}
			}
		}
		if cleared || full {
			h.nontrivial(fmt.Sprintf("l=%d rangePow=%d steps=%d clear=%v full=%v", l, rp, steps, cleared, full))
		}
	}
}
