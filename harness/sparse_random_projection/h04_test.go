package sparse_random_projection_test

import (
	"fmt"
	"math"
	"testing"

	"github.com/nlpodyssey/goslide/index_value"
	srp "github.com/nlpodyssey/goslide/sparse_random_projection"
)

// vSigns recovers the sign of every feature in every code (0: not sampled) from the codes of one-hot vectors.
func vSigns(p *srp.SparseRandomProjection, codes, n int) ([][]int, bool) {
	sg := make([][]int, codes)
	for i := range sg {
		sg[i] = make([]int, n)
	}
	v := make([]float64, n)
	for x := 0; x < n; x++ {
		v[x] = 1
		up := p.GetHash(v)
		v[x] = -1
		down := p.GetHash(v)
		v[x] = 0
		if len(up) != codes || len(down) != codes {
			return nil, false
		}
		for i := range sg {
			switch {
			case up[i] == 1 && down[i] == 0:
				sg[i][x] = -1
			case up[i] == 0 && down[i] == 1:
				sg[i][x] = 1
			case up[i] != 0 || down[i] != 0:
				return nil, false
			}
		}
	}
	return sg, true
}

func TestVerifH04(t *testing.T) {
	h := vNew(t, "random numbers of features, codes and ratios; samples and signs recovered from the codes of one-hot vectors; dense vectors and increasing sparse lists checked against the signed sum in increasing order of feature; non-trivial: rounding decides the sign, a NaN, or a list that omits sampled features")
	defer h.done(t)
	for n := 0; h.more(n, 60, 1500); n++ {
		dim := h.intv(0, 60)
		codes := h.intv(0, 25)
		ratio := h.intv(1, 8)
		if h.rng.Intn(8) == 0 {
			ratio = h.intv(1, 100)
		}
		in := map[string]interface{}{"features": dim, "codes": codes, "ratio": ratio}
		h.begin(in)
		p := srp.New(dim, codes, ratio)
		sg, ok := vSigns(p, codes, dim)
		if !ok {
			h.fail("codes of one-hot vectors 1 and -1", "one code per projection, 0 or 1, at most one of the two 1", "other")
			break
		}
		in["signs"] = fmt.Sprint(sg)
		size := (dim + ratio - 1) / ratio
		for i := range sg {
			c := 0
			for _, s := range sg[i] {
				c += s * s
			}
			if c != size {
				h.fail(fmt.Sprintf("number of features sampled for code %d", i), size, c)
			}
		}
		want := func(v []float64) []int {
			r := make([]int, codes)
			for i := range r {
				s := 0.0
				for x, k := range sg[i] {
					if k > 0 {
						s += v[x]
					} else if k < 0 {
						s -= v[x]
					}
				}
				if !(s >= 0) {
					r[i] = 1
				}
			}
			return r
		}
		for c := 0; c < 30 && len(h.Findings) == 0; c++ {
			v := make([]float64, dim)
			dense := h.rng.Intn(4)
			style := h.rng.Intn(4)
			kind := ""
			var list []index_value.Pair
			for x := range v {
				if dense > 0 && h.rng.Intn(dense+1) > 0 {
					continue
				}
				switch {
				case style == 0 && h.rng.Intn(dim+1) == 0:
					v[x] = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[h.rng.Intn(3)]
					kind = "NaN or infinity"
				case style == 1:
					v[x] = float64(h.rng.Intn(5)-2) * math.Pow(2, float64(h.rng.Intn(3)*53))
					kind = "rounding"
				case style == 2:
					v[x] = float64(h.rng.Intn(5) - 2)
				default:
					v[x] = h.rng.NormFloat64()
				}
				if v[x] != 0 || h.rng.Intn(2) == 0 {
					list = append(list, index_value.Pair{Index: x, Value: v[x]})
				}
			}
			in["dense"], in["sparse"] = fmt.Sprint(v), fmt.Sprint(list)
			h.begin(in)
			before := fmt.Sprint(v, list)
			e := want(v)
			if r := p.GetHash(v); fmt.Sprint(r) != fmt.Sprint(e) {
				h.fail("codes of a dense vector", e, r)
			}
			if r := p.GetHashSparse(list); fmt.Sprint(r) != fmt.Sprint(e) {
				h.fail("codes of a sparse list in increasing order", e, r)
			}
			h.rng.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
			r := p.GetHashSparse(list)
			for i := range r {
				if r[i] != 0 && r[i] != 1 {
					h.fail(fmt.Sprintf("code %d of a list in another order", i), "0 or 1", r[i])
				}
			}
			if len(r) != codes {
				h.fail("number of codes of a list in another order", codes, len(r))
			}
			if before[:len(fmt.Sprint(v))] != fmt.Sprint(v) {
				h.fail("input changed by hashing", before, fmt.Sprint(v))
			}
			if kind != "" || len(list) < dim {
				h.nontrivial(fmt.Sprint(codes, " codes of ", dim, " features, ", len(list), " listed, ", kind))
			}
		}
		if sg2, _ := vSigns(p, codes, dim); len(h.Findings) == 0 && fmt.Sprint(sg2) != fmt.Sprint(sg) {
			h.fail("samples and signs after hashing", sg, sg2)
		}
	}
}
