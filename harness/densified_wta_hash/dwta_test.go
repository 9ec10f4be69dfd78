package densified_wta_hash_test

import (
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/nlpodyssey/goslide/densified_wta_hash"
	"github.com/nlpodyssey/goslide/index_value"
)

func vField(x interface{}, field string, nth int) []int {
	v := reflect.ValueOf(x).Elem()
	f := v.FieldByName(field)
	if !f.IsValid() || f.Kind() != reflect.Slice {
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Kind() == reflect.Slice && v.Field(i).Type().Elem().Kind() == reflect.Int {
				if nth == 0 {
					f = v.Field(i)
					break
				}
				nth--
			}
		}
	}
	if !f.IsValid() || f.Kind() != reflect.Slice || f.Type().Elem().Kind() != reflect.Int {
		return nil
	}
	out := make([]int, f.Len())
	for i := range out {
		out[i] = int(f.Index(i).Int())
	}
	return out
}

func TestVerifH02(t *testing.T) {
	h := vNew(t, "random numbers of codes and features; the bin and position tables, the probe sequence and the codes of random sparse and dense vectors against a direct evaluation; non-trivial: a code had to be borrowed")
	defer h.done(t)
	for n := 0; h.more(n, 60, 1000); n++ {
		bits := h.intv(1, 40)
		codes := h.intv(1, 40)
		if h.rng.Intn(4) == 0 {
			codes = h.intv(1, 4)
		}
		in := map[string]interface{}{"codes": codes, "features": bits}
		h.begin(in)
		w := densified_wta_hash.New(codes, bits)
		ix, pos := vField(w, "indices", 0), vField(w, "pos", 1)
		if ix == nil || pos == nil {
			return
		}
		blocks := (codes*8 + bits - 1) / bits
		if len(ix) != blocks*bits || len(pos) != blocks*bits {
			h.fail("size of the bin table", blocks*bits, fmt.Sprint(len(ix), len(pos)))
			break
		}
		in["bins"], in["positions"] = ix, pos
		h.begin(in)
		for p := 0; p < blocks; p++ {
			seen := map[int]int{}
			for x := p * bits; x < (p+1)*bits; x++ {
				s := ix[x]*8 + pos[x]
				if pos[x] < 0 || pos[x] > 7 || s < p*bits || s >= (p+1)*bits {
					h.fail(fmt.Sprintf("bin and position of feature %d in permutation %d", x-p*bits, p), "inside the permutation", fmt.Sprint(ix[x], pos[x]))
				}
				seen[s]++
			}
			if len(seen) != bits {
				h.fail(fmt.Sprintf("places used by permutation %d", p), bits, len(seen))
			}
		}
		lg := 0
		for 1<<uint(lg+1) <= codes {
			lg++
		}
		for c := 0; c < 40; c++ {
			b, k := h.rng.Intn(codes), 1+h.rng.Intn(101)
			g := w.GetRandDoubleHash(b, k)
			if g < 0 || g >= 1<<uint(lg) {
				h.fail(fmt.Sprintf("probe %d of bin %d: not below the largest power of two within the number of codes", k, b), 1<<uint(lg), g)
			}
			if rh := reflect.ValueOf(w).Elem().FieldByName("randHash"); rh.IsValid() && rh.Kind() == reflect.Array {
				x := uint32(rh.Index(0).Int()) * (uint32(b+1)*64 + uint32(k)) * 8
				if e := int(uint64(x) >> uint(32-lg)); e != g {
					h.fail(fmt.Sprintf("probe %d of bin %d for multiplier %d", k, b, rh.Index(0).Int()), e, g)
				}
			}
			if g2 := w.GetRandDoubleHash(b, k); g2 != g {
				h.fail(fmt.Sprintf("probe %d of bin %d repeated", k, b), g, g2)
			}
		}
		for c := 0; c < 15 && len(h.Findings) == 0; c++ {
			v := make([]float64, bits)
			for x := range v {
				switch h.rng.Intn(10) {
				case 0:
					v[x] = math.NaN()
				case 1:
					v[x] = []float64{math.Inf(-1), -9.3e18, math.MinInt64, -math.MaxFloat64}[h.rng.Intn(4)]
				case 2, 3:
					v[x] = float64(h.rng.Intn(3) - 1)
				default:
					v[x] = h.rng.NormFloat64()
				}
			}
			keep := 1 + h.rng.Intn(6)
			var list []index_value.Pair
			for _, x := range h.rng.Perm(bits) {
				if h.rng.Intn(keep) == 0 {
					list = append(list, index_value.Pair{Index: x, Value: v[x]})
				}
			}
			dense := v
			if h.rng.Intn(3) == 0 {
				dense = v[:h.intv(0, bits)]
			}
			in["sparse"], in["dense"] = fmt.Sprint(list), fmt.Sprint(dense)
			h.begin(in)
			borrowed := 0
			resolve := func(own []int, has []bool) []int {
				r := make([]int, codes)
				for b := range r {
					if has[b] {
						r[b] = own[b]
						continue
					}
					borrowed++
					for k := 1; k <= 100; k++ {
						if g := w.GetRandDoubleHash(b, k); g < codes && has[g] {
							r[b] = own[g]
							break
						}
					}
				}
				return r
			}
			eval := func(list []index_value.Pair, floor bool) []int {
				own, has, best := make([]int, codes), make([]bool, codes), make([]float64, codes)
				for p := 0; p < blocks; p++ {
					for _, e := range list {
						s := p*bits + e.Index
						b := ix[s]
						if b >= codes {
							continue
						}
						if floor && !(e.Value > math.MinInt64) {
							continue
						}
						if !has[b] || e.Value > best[b] {
							has[b], best[b], own[b] = true, e.Value, pos[s]
						}
					}
				}
				return resolve(own, has)
			}
			if e, g := eval(list, false), w.GetHash(list); fmt.Sprint(e) != fmt.Sprint(g) {
				h.fail("codes of a sparse vector", e, g)
			}
			var full []index_value.Pair
			for x, y := range dense {
				full = append(full, index_value.Pair{Index: x, Value: y})
			}
			if e, g := eval(full, true), w.GetHashEasy(dense, h.intv(0, bits)); fmt.Sprint(e) != fmt.Sprint(g) {
				h.fail("codes of a dense vector", e, g)
			}
			if borrowed > 0 {
				h.nontrivial(fmt.Sprint(codes, " codes of ", bits, " features, ", borrowed, " borrowed"))
			}
		}
	}
}
