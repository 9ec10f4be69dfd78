package densified_minhash_test

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"testing"

	"github.com/nlpodyssey/goslide/densified_minhash"
	"github.com/nlpodyssey/goslide/index_value"
)

func TestVerifH03(t *testing.T) {
	h := vNew(t, "random numbers of codes, ranges, bin maps and vectors; the bin map, the probe sequence and the codes of index lists and of the topK greatest values of sparse and dense vectors against a direct evaluation; non-trivial: a code had to be borrowed")
	defer h.done(t)
	for n := 0; h.more(n, 80, 2000); n++ {
		codes := h.intv(1, 40)
		if h.rng.Intn(4) == 0 {
			codes = h.intv(1, 4)
		}
		rp := h.rng.Intn(24)
		if h.rng.Intn(4) == 0 {
			rp = h.rng.Intn(70)
		}
		features := h.intv(1, 60)
		in := map[string]interface{}{"codes": codes, "range": rp, "features": features}
		h.begin(in)
		m := densified_minhash.New(codes, rp)
		bins := m.GetMap(features)
		if len(bins) != features {
			h.fail("length of the bin map", features, len(bins))
			break
		}
		for x, b := range bins {
			if b < 0 || b >= codes {
				h.fail(fmt.Sprintf("bin of feature %d", x), fmt.Sprint("0 to ", codes-1), b)
			}
		}
		less := h.intv(0, features)
		if again := m.GetMap(less); fmt.Sprint(again) != fmt.Sprint(bins[:less]) {
			h.fail("bins of the same features asked for again", bins[:less], again)
		}
		if rp >= 12 && n%8 == 0 { // the bins must be used about evenly
			big, top := m.GetMap(4000), 0
			for _, b := range big {
				if b > top {
					top = b
				}
			}
			if top < codes/2-1 {
				h.fail("greatest bin of 4000 features", fmt.Sprint("about ", codes-1), top)
			}
		}
		if len(h.Findings) > 0 {
			break
		}
		lg := 0
		for 1<<uint(lg+1) <= codes {
			lg++
		}
		for c := 0; c < 40; c++ {
			b, k := h.rng.Intn(codes), 1+h.rng.Intn(101)
			g := m.GetRandDoubleHash(b, k)
			if g < 0 || g >= 1<<uint(lg) {
				h.fail(fmt.Sprintf("probe %d of bin %d: not below the largest power of two within the number of codes", k, b), 1<<uint(lg), g)
			}
			if rh := reflect.ValueOf(m).Elem().FieldByName("randHash"); rh.IsValid() && rh.Kind() == reflect.Array {
				x := uint32(rh.Index(0).Int()) * (uint32(b+1)*64 + uint32(k)) * 8
				if e := int(uint64(x) >> uint(32-lg)); e != g {
					h.fail(fmt.Sprintf("probe %d of bin %d for multiplier %d", k, b, rh.Index(0).Int()), e, g)
				}
			}
			if g2 := m.GetRandDoubleHash(b, k); g2 != g {
				h.fail(fmt.Sprintf("probe %d of bin %d repeated", k, b), g, g2)
			}
		}
		for c := 0; c < 15 && len(h.Findings) == 0; c++ {
			bins := append([]int{}, bins...)
			if h.rng.Intn(2) == 0 { // any map will do
				few := 1 + h.rng.Intn(codes)
				for x := range bins {
					bins[x] = h.rng.Intn(few)
				}
			}
			// no two values equal: the selection is determined
			v := make([]float64, features)
			for x, y := range h.rng.Perm(features) {
				v[x] = float64(y-features/3) * []float64{1, 0.25, 1e10}[c%3]
				if y == 0 && c%4 == 0 {
					v[x] = math.Inf(-1)
				}
			}
			keep := 1 + h.rng.Intn(5)
			var list []index_value.Pair
			var indices []int
			for _, x := range h.rng.Perm(features) {
				if h.rng.Intn(keep) == 0 {
					list = append(list, index_value.Pair{Index: x, Value: v[x]})
					indices = append(indices, x)
				}
			}
			topK := h.intv(0, features)
			in["bins"], in["sparse"], in["dense"], in["topK"] = bins, fmt.Sprint(list), fmt.Sprint(v), topK
			h.begin(in)
			borrowed := 0
			eval := func(xs []int) []int {
				own := make([]int, codes)
				for b := range own {
					own[b] = math.MinInt64
				}
				for _, x := range xs {
					if x > own[bins[x]] {
						own[bins[x]] = x
					}
				}
				r := make([]int, codes)
				for b := range r {
					r[b] = own[b]
					for k := 1; k <= 101 && r[b] == math.MinInt64; k++ {
						r[b] = own[m.GetRandDoubleHash(b, k)]
						borrowed++
					}
				}
				return r
			}
			top := func(ps []index_value.Pair) []int {
				ps = append([]index_value.Pair{}, ps...)
				sort.Slice(ps, func(i, j int) bool { return ps[i].Value > ps[j].Value })
				if len(ps) > topK {
					ps = ps[:topK]
				}
				var xs []int
				for _, p := range ps {
					xs = append(xs, p.Index)
				}
				return xs
			}
			more := append(append([]int{}, indices...), h.rng.Intn(features))
			if e, g := eval(indices), m.GetHash(more, make([]float64, len(indices)), bins); fmt.Sprint(e) != fmt.Sprint(g) {
				h.fail("codes of an index list", e, g)
			}
			before := fmt.Sprint(list, bins)
			if e, g := eval(top(list)), m.GetHashEasy(bins, list, topK); fmt.Sprint(e) != fmt.Sprint(g) {
				h.fail("codes of a sparse vector", e, g)
			}
			var full []index_value.Pair
			for x, y := range v {
				full = append(full, index_value.Pair{Index: x, Value: y})
			}
			if e, g := eval(top(full)), m.GetHashEasyDense(bins, v, topK); fmt.Sprint(e) != fmt.Sprint(g) {
				h.fail("codes of a dense vector", e, g)
			}
			if after := fmt.Sprint(list, bins); after != before {
				h.fail("data after hashing", before, after)
			}
			if borrowed > 0 {
				h.nontrivial(fmt.Sprint(codes, " codes of ", features, " features, ", borrowed, " probes"))
			}
		}
	}
}
