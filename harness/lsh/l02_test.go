package lsh_test

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/lsh"
)

func TestVerifL02(t *testing.T) {
	h := vNew(t, "random code vectors under each of the four hash functions, k up to 40, rangePow up to 18; non-trivial: k codes that need more bits than rangePow, or an index above 255")
	defer h.done(t)
	saved := configuration.Global
	defer func() { configuration.Global = saved }()
	for n := 0; h.more(n, 400, 2000); n++ {
		hf := 1 + h.rng.Intn(4)
		k, l, rp := h.intv(1, 8), h.intv(1, 5), h.intv(0, 12)
		if h.rng.Intn(4) == 0 {
			k = h.intv(1, 40)
		}
		if n%64 == 5 { // large tables
			k, l, rp = h.intv(1, 20), 1, h.intv(15, 17)
			if n == 5 {
				k, rp = 8, 18
			}
		}
		base := int64(8)
		if hf == 4 {
			base = 2
		}
		c := configuration.Default()
		c.HashFunction = configuration.HashFunctionType(hf)
		configuration.Global = c
		codes := make([]int, k*l)
		for i := range codes {
			switch hf {
			case 1, 2:
				codes[i] = h.rng.Intn(8)
			case 3:
				codes[i] = h.rng.Intn(1 << uint(h.rng.Intn(20)))
			case 4:
				codes[i] = h.rng.Intn(2)
			}
		}
		h.begin(map[string]interface{}{"hash": hf, "k": k, "l": l, "rangePow": rp, "codes": codes})
		x := lsh.New(k, l, rp)
		in := append([]int(nil), codes...)
		got := x.HashesToIndex(in)
		for i := range codes {
			if in[i] != codes[i] {
				h.fail("the codes passed in were changed", codes[i], in[i])
			}
		}
		if len(got) != l {
			h.fail("number of indices", l, len(got))
			return
		}
		big1 := false
		for i, g := range got {
			if g < 0 || g >= 1<<uint(rp) {
				h.fail(fmt.Sprintf("index %d in range", i), fmt.Sprintf("0..%d", 1<<uint(rp)-1), g)
				return
			}
			big1 = big1 || g > 255
			if hf != 3 {
				v := new(big.Int)
				for j := 0; j < k; j++ {
					v.Mul(v, big.NewInt(base))
					v.Add(v, big.NewInt(int64(codes[i*k+j])))
				}
				v.Mod(v, new(big.Int).Lsh(big.NewInt(1), uint(rp)))
				if v.Int64() != int64(g) {
					h.fail(fmt.Sprintf("index of table %d", i), v, g)
				}
			}
		}
		// only the table's own codes matter
		i := h.rng.Intn(l)
		other := append([]int(nil), codes...)
		for j := range other {
			if j/k != i {
				other[j] = (other[j] + 1) % int(base)
			}
		}
		if g := x.HashesToIndex(other); g[i] != got[i] {
			h.fail(fmt.Sprintf("index of table %d when only other tables' codes change", i), got[i], g[i])
		}
		if hf == 3 { // a fixed weighted sum: additive, and changing one code by 2 adds twice the weight
			z := x.HashesToIndex(make([]int, k*l))
			if z[i] != 0 {
				h.fail("index of all-zero codes", 0, z[i])
			}
			sum := 0
			for j := 0; j < k; j++ {
				u := make([]int, k*l)
				u[i*k+j] = 1
				w := x.HashesToIndex(u)[i]
				sum = (sum + w*codes[i*k+j]) % (1 << uint(rp))
			}
			if sum != got[i] {
				h.fail(fmt.Sprintf("index of table %d as the weighted sum of its codes", i), sum, got[i])
			}
		}
		if big1 || k*3 > rp {
			h.nontrivial(fmt.Sprintf("hash=%d k=%d l=%d rangePow=%d", hf, k, l, rp))
		}
	}
}
