package wta_hash_test

import (
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/wta_hash"
)

func vInts(x interface{}, field string) ([]int, bool) {
	f := reflect.ValueOf(x).Elem().FieldByName(field)
	if !f.IsValid() || f.Kind() != reflect.Slice {
		return nil, false
	}
	out := make([]int, f.Len())
	for i := range out {
		out[i] = int(f.Index(i).Int())
	}
	return out, true
}

// order recovers the features sampled for each code, in order of precedence, from the codes of dense vectors.
func vBins(w *wta_hash.WtaHash, codes, bits int) [][]int {
	mem := make([][]int, codes)
	hot := func(xs ...int) []int {
		v := make([]float64, bits)
		for _, x := range xs {
			v[x] = 1
		}
		return w.GetHashDense(v)
	}
	for x := 0; x < bits; x++ {
		r := hot(x)
		for i := range r {
			if r[i] == x {
				mem[i] = append(mem[i], x)
			}
		}
	}
	first := map[[2]int][]int{}
	for i := range mem {
		m := mem[i]
		for a := 0; a < len(m); a++ {
			for b := a; b > 0; b-- {
				x, y := m[b-1], m[b]
				k := [2]int{x, y}
				if x > y {
					k = [2]int{y, x}
				}
				if first[k] == nil {
					first[k] = hot(x, y)
				}
				if first[k][i] == y {
					m[b-1], m[b] = y, x
				}
			}
		}
	}
	return mem
}

func TestVerifH01(t *testing.T) {
	h := vNew(t, "random numbers of codes and features; sampled features recovered from the codes of one- and two-hot vectors; dense and sparse codes of random vectors checked against them; non-trivial: a tie, a NaN or a value not above -2^63 among the sampled features")
	defer h.done(t)
	for n := 0; h.more(n, 60, 1200); n++ {
		bits := h.intv(1, 40)
		codes := h.intv(0, 30)
		if h.rng.Intn(4) == 0 {
			bits = 8 * h.intv(1, 6)
		}
		in := map[string]interface{}{"codes": codes, "features": bits}
		h.begin(in)
		w := wta_hash.New(codes, bits)
		if ix, ok := vInts(w, "indices"); ok {
			blocks := (codes*8 + bits - 1) / bits
			if len(ix) != blocks*bits {
				h.fail("number of sampled features", blocks*bits, len(ix))
				break
			}
			for p := 0; p < blocks; p++ {
				seen := make([]int, bits)
				for _, x := range ix[p*bits : (p+1)*bits] {
					if x < 0 || x >= bits {
						h.fail("sampled feature out of range", bits, x)
						break
					}
					seen[x]++
				}
				for x, c := range seen {
					if c != 1 {
						h.fail(fmt.Sprintf("times feature %d occurs in permutation %d", x, p), 1, c)
					}
				}
			}
			for i := 0; i < codes; i++ {
				in[fmt.Sprint("sample", i)] = ix[i*8 : i*8+8]
			}
		}
		mem := vBins(w, codes, bits)
		// the samples are cut from consecutive permutations
		pos := 0
		for i := 0; i < codes; i++ {
			d := map[int]bool{}
			for _, x := range mem[i] {
				d[x] = true
			}
			lo := 1
			if pos/bits == (pos+7)/bits {
				lo = 8
			}
			pos += 8
			if len(d) < lo || len(d) > 8 {
				h.fail(fmt.Sprintf("features sampled for code %d", i), lo, mem[i])
			}
		}
		if bits%8 == 0 {
			for b := 0; (b+1)*bits/8 <= codes; b++ {
				seen := map[int]int{}
				for i := b * bits / 8; i < (b+1)*bits/8; i++ {
					for _, x := range mem[i] {
						seen[x]++
					}
				}
				for x := 0; x < bits; x++ {
					if seen[x] != 1 {
						h.fail(fmt.Sprintf("times feature %d is sampled by codes %d..%d", x, b*bits/8, (b+1)*bits/8-1), 1, seen[x])
					}
				}
			}
		}
		for c := 0; c < 20 && len(h.Findings) == 0; c++ {
			v := make([]float64, bits)
			sp := h.rng.Intn(3)
			given := make([]bool, bits)
			kind := ""
			for x := range v {
				switch h.rng.Intn(10) {
				case 0:
					v[x] = math.NaN()
					kind = "NaN"
				case 1:
					v[x] = []float64{math.Inf(-1), -9.3e18, math.MinInt64, -math.MaxFloat64}[h.rng.Intn(4)]
					kind = "very low"
				case 2, 3:
					v[x] = float64(h.rng.Intn(3) - 1)
					kind = "ties"
				case 4:
					v[x] = math.Inf(1)
				default:
					v[x] = h.rng.NormFloat64()
				}
				given[x] = sp == 0 || h.rng.Intn(sp+1) == 0
			}
			var list []index_value.Pair
			for _, x := range h.rng.Perm(bits) {
				if given[x] {
					if h.rng.Intn(20) == 0 {
						list = append(list, index_value.Pair{Index: x, Value: h.rng.NormFloat64()})
					}
					list = append(list, index_value.Pair{Index: x, Value: v[x]})
				}
			}
			sparse := make([]float64, bits)
			for _, p := range list {
				sparse[p.Index] = p.Value
			}
			want := func(d []float64) []int {
				r := make([]int, codes)
				for i := range r {
					r[i] = math.MinInt64
					best := math.Inf(-1)
					for _, x := range mem[i] {
						if d[x] > math.MinInt64 && d[x] > best {
							best, r[i] = d[x], x
						}
					}
				}
				return r
			}
			in["dense"] = fmt.Sprint(v)
			in["sparse"] = fmt.Sprint(list)
			h.begin(in)
			before := fmt.Sprint(v, list)
			r1, r2 := w.GetHashDense(v), w.GetHash(list)
			if fmt.Sprint(v, list) != before {
				h.fail("input changed by hashing", before, fmt.Sprint(v, list))
			}
			if e := want(v); fmt.Sprint(r1) != fmt.Sprint(e) {
				h.fail(fmt.Sprintf("codes of a dense vector; features sampled per code, by precedence: %v", mem), e, r1)
			}
			if e := want(sparse); fmt.Sprint(r2) != fmt.Sprint(e) {
				h.fail(fmt.Sprintf("codes of a sparse vector; features sampled per code, by precedence: %v", mem), e, r2)
			}
			if kind != "" {
				h.nontrivial(fmt.Sprint(codes, " codes of ", bits, " features with ", kind))
			}
		}
	}
}
