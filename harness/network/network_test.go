package network_test

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"testing"
	"unsafe"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/lsh"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"
)

func vQuiet() func() {
	old := os.Stdout
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
		return func() { os.Stdout = old; f.Close() }
	}
	return func() {}
}

// vNet drives one network and reads its parameters through its layers.
type vNet struct {
	h        *vH
	in       map[string]interface{}
	net      *network.Network
	layers   []*layer.Layer
	sizes    []int
	input    int
	batch    int
	rate     float64
	sparsity []float64
	hf       configuration.HashFunctionType
	mode     configuration.LayerModeType
	iter     int
	k, l     []int
	pow      []int
	redrawn  int
	rebuilt  int
}

// vLayers finds the layers inside a network
func vLayers(n *network.Network) []*layer.Layer {
	v := reflect.ValueOf(n).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf([]*layer.Layer(nil)) {
			return *(*[]*layer.Layer)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	panic("no list of layers in the network")
}

func (h *vH) vSparsity(n int) float64 {
	switch h.rng.Intn(5) {
	case 0, 1:
		return 1
	case 2:
		return 0
	case 3:
		return float64(h.intv(0, n)) / float64(n)
	}
	return h.rng.Float64()
}

func vNewNet(h *vH, most int) *vNet {
	g := &vNet{h: h, input: h.intv(1, 8), batch: h.intv(1, 4), rate: []float64{0.01, 0.5, 1, 0}[h.rng.Intn(4)]}
	g.hf = configuration.HashFunctionType(1 + h.rng.Intn(4))
	g.mode = configuration.LayerModeType(1 + h.rng.Intn(4))
	cfg := configuration.Default()
	cfg.HashFunction, cfg.LayerMode, cfg.UseAdam = g.hf, g.mode, h.rng.Intn(4) > 0
	configuration.Global = cfg
	count := h.intv(1, 3)
	var types []node.NodeType
	var k, l, pow []int
	for i := 0; i < count; i++ {
		g.sizes = append(g.sizes, h.intv(1, most))
		types = append(types, node.ReLU)
		k, l, pow = append(k, h.intv(1, 3)), append(l, h.intv(1, 6)), append(pow, h.intv(1, 7))
	}
	g.k, g.l, g.pow = k, l, pow
	types[count-1] = node.Softmax
	for pass := 0; pass < 2; pass++ {
		for i := 0; i < count; i++ {
			s := h.vSparsity(g.sizes[i])
			if i < count-1 && h.rng.Intn(3) > 0 {
				s = 1
			}
			g.sparsity = append(g.sparsity, s)
		}
	}
	g.in = map[string]interface{}{"input": g.input, "sizes": g.sizes, "k": k, "l": l, "rangePow": pow, "sparsity": g.sparsity, "batch": g.batch, "learning rate": g.rate, "hash": int(g.hf), "mode": int(g.mode), "adam": cfg.UseAdam}
	h.begin(g.in)
	g.net = network.New(0, count, append([]int{}, g.sizes...), types, g.batch, g.rate, g.input, k, l, pow, append([]float64{}, g.sparsity...))
	g.layers = vLayers(g.net)
	if len(g.layers) != count {
		h.fail("layers of the network", count, len(g.layers))
	}
	for j, la := range g.layers {
		if la.NumOfNodes() != g.sizes[j] {
			h.fail(fmt.Sprintf("nodes of layer %d", j), g.sizes[j], la.NumOfNodes())
			return nil
		}
	}
	return g
}

// scramble gives every parameter a value of its own
func (g *vNet) scramble() {
	h := g.h
	for j, la := range g.layers {
		var prev []float64
		for v := 0; v < la.NumOfNodes(); v++ {
			nd := la.GetNodeById(v)
			w := nd.Weights()
			for i := range w {
				w[i] = float64(h.rng.Intn(17)-8) / 4
				if h.rng.Intn(3) == 0 {
					w[i] = h.rng.NormFloat64()
				}
			}
			b := float64(h.rng.Intn(9)-4) / 4
			if prev != nil && h.rng.Intn(6) == 0 { // equal nodes
				copy(w, prev)
				b = la.GetNodeById(v - 1).GetBias()
			}
			if j == len(g.layers)-1 && h.rng.Intn(40) == 0 {
				b = -1000 // activation below the smallest float
			}
			nd.SetBias(0, b)
			prev = w
		}
	}
}

func (g *vNet) params() []float64 {
	var p []float64
	for _, la := range g.layers {
		for v := 0; v < la.NumOfNodes(); v++ {
			nd := la.GetNodeById(v)
			p = append(append(p, nd.Weights()...), nd.GetBias())
		}
	}
	return p
}

func vFinite(p []float64) bool {
	for _, x := range p {
		if x != x || math.Abs(x) > 1e6 {
			return false
		}
	}
	return true
}

func vSame(a, b float64) bool { return a == b || a != a && b != b }

func (g *vNet) examples(strange bool) []dataset.Example {
	h := g.h
	es := make([]dataset.Example, h.intv(1, g.batch))
	classes := g.sizes[len(g.sizes)-1]
	for i := range es {
		for x := 0; x < g.input; x++ {
			if g.hf == configuration.DensifiedWtaHashFunction || g.hf == configuration.DensifiedMinhashFunction || h.rng.Intn(3) > 0 {
				v := float64(h.rng.Intn(9)-4) / 2
				if h.rng.Intn(3) == 0 {
					v = h.rng.NormFloat64()
				}
				es[i].Features = append(es[i].Features, index_value.Pair{Index: x, Value: v})
			}
		}
		for c := 0; c < classes; c++ {
			if h.rng.Intn(3) == 0 {
				es[i].Labels = append(es[i].Labels, c)
			}
		}
		if strange && h.rng.Intn(8) == 0 {
			es[i].Labels = append(es[i].Labels, -1, classes, 1<<40)
		}
		if len(es[i].Labels) > 1 && h.rng.Intn(2) == 0 {
			h.rng.Shuffle(len(es[i].Labels), func(a, b int) { es[i].Labels[a], es[i].Labels[b] = es[i].Labels[b], es[i].Labels[a] })
		}
		if h.rng.Intn(8) == 0 && len(es[i].Labels) > 0 {
			es[i].Labels = append(es[i].Labels, es[i].Labels[0])
		}
	}
	return es
}

func vCopy(es []dataset.Example) []dataset.Example {
	out := make([]dataset.Example, len(es))
	for i, e := range es {
		out[i].Features = append([]index_value.Pair{}, e.Features...)
		out[i].Labels = append([]int{}, e.Labels...)
	}
	return out
}

func vText(es []dataset.Example) []string {
	var out []string
	for _, e := range es {
		out = append(out, fmt.Sprintf("features %v labels %v", e.Features, e.Labels))
	}
	return out
}

func (g *vNet) sameExamples(got, want []dataset.Example) {
	for i := range want {
		if len(got[i].Features) != len(want[i].Features) || fmt.Sprint(got[i].Labels) != fmt.Sprint(want[i].Labels) {
			g.h.fail(fmt.Sprintf("example %d after the call", i), vText(want), vText(got))
			return
		}
		for k, p := range want[i].Features {
			if q := got[i].Features[k]; q.Index != p.Index || !vSame(p.Value, q.Value) {
				g.h.fail(fmt.Sprintf("example %d after the call", i), vText(want), vText(got))
				return
			}
		}
	}
}

// forward runs an example through the parameters, every node active: the weighted sums of the last layer
func (g *vNet) forward(e dataset.Example) []float64 {
	list := e.Features
	for j, la := range g.layers {
		next := make([]index_value.Pair, la.NumOfNodes())
		for v := range next {
			nd := la.GetNodeById(v)
			s := 0.0
			for _, p := range list {
				s += nd.Weights()[p.Index] * p.Value
			}
			s += nd.GetBias()
			if j < len(g.layers)-1 && s < 0 {
				s = 0
			}
			next[v] = index_value.Pair{Index: v, Value: s}
		}
		list = next
	}
	out := make([]float64, len(list))
	for v, p := range list {
		out[v] = p.Value
	}
	return out
}

// classes that may be predicted: the nodes of the list whose value is the greatest, up to rel
func vBest(list []index_value.Pair, rel float64, ordered bool) map[int]bool {
	if len(list) == 0 {
		return map[int]bool{0: true}
	}
	best := list[0]
	for _, p := range list {
		if best.Value < p.Value {
			best = p
		}
	}
	if rel == 0 && ordered {
		return map[int]bool{best.Index: true}
	}
	m := map[int]bool{}
	for _, p := range list {
		if p.Value >= best.Value-rel*best.Value-rel*1e-290 {
			m[p.Index] = true
		}
	}
	return m
}

func vHits(m map[int]bool, labels []int) (lo, hi int) {
	lo = 1
	for c := range m {
		in := 0
		for _, l := range labels {
			if l == c {
				in = 1
			}
		}
		if in == 1 {
			hi = 1
		} else {
			lo = 0
		}
	}
	return
}

func (g *vNet) train() bool {
	h := g.h
	es := g.examples(false)
	g.in["trained on"] = vText(es)
	h.begin(g.in)
	g.net.ProcessInput(0, es, g.iter, h.rng.Intn(3) == 0, h.rng.Intn(4) == 0)
	g.iter++
	return vFinite(g.params())
}

func TestVerifR02(t *testing.T) {
	h := vNew(t, "random networks of 1-3 layers (all hash functions and modes, dense and sparse layers, equal nodes), predictions on random batches after training steps; the number of hits against an own forward pass and against the lists the layers give without labels; non-trivial: different shapes with both hits and misses, ties, or a label among the sparse nodes")
	defer h.done(t)
	defer vQuiet()()
	for n := 0; h.more(n, 150, 6000); n++ {
		most := 6
		if h.rng.Intn(10) == 0 {
			most = 40
		}
		g := vNewNet(h, most)
		if g == nil {
			return
		}
		g.scramble()
		for r := h.intv(1, 4); r > 0 && len(h.Findings) == 0; r-- {
			delete(g.in, "trained on")
			for i := h.intv(0, 2); i > 0; i-- {
				if !g.train() {
					g.scramble()
				}
			}
			if h.rng.Intn(3) == 0 {
				g.scramble()
			}
			g.predict()
		}
	}
}

func (g *vNet) predict() {
	h := g.h
	last := len(g.layers) - 1
	sp := g.sparsity[last+1:]
	es := g.examples(true)
	before, par := vCopy(es), g.params()
	g.in["examples"] = vText(es)
	if len(par) <= 120 {
		g.in["parameters"] = fmt.Sprint(par)
	}
	h.begin(g.in)
	hits, net := g.net.PredictClass(0, es)
	if net != g.net {
		h.fail("network returned for its own owner", "the network itself", "another")
	}
	g.sameExamples(es, before)
	for i, p := range g.params() {
		if !vSame(p, par[i]) {
			h.fail(fmt.Sprintf("parameter %d after a prediction", i), par[i], p)
		}
	}
	es = before
	ordered := true // the lists can be predicted up to their order
	for j := 0; j <= last; j++ {
		if sp[j] != 1 && g.mode == configuration.LayerMode1 {
			if j < last {
				return
			}
			ordered = false
		}
		if sp[j] != 1 && g.mode == configuration.LayerMode2 && j == last {
			if s := int(math.Floor(float64(g.sizes[j]) * sp[j])); s != 0 && s != g.sizes[j] {
				return
			}
			ordered = false
		}
	}
	dense := true
	for j := 0; j <= last; j++ {
		if sp[j] != 1 && !(g.mode == configuration.LayerMode4) && !(j == last && g.mode == configuration.LayerMode3 && math.Floor(float64(g.sizes[j])*sp[j]) >= 1) {
			dense = false
		}
	}
	lo, hi, lo2, hi2 := 0, 0, 0, 0
	for i, e := range es {
		lists := make([][]index_value.Pair, last+2)
		lists[0] = e.Features
		for j, la := range g.layers {
			la.QueryActiveNodeAndComputeActivations(0, lists, j, i, nil, sp[j])
		}
		m := vBest(lists[last+1], 0, ordered)
		a, b := vHits(m, e.Labels)
		lo, hi = lo+a, hi+b
		if dense {
			raw := g.forward(e)
			top := 0.0
			for _, r := range raw {
				top = math.Max(top, r)
			}
			all := make([]index_value.Pair, len(raw))
			for v, r := range raw {
				all[v] = index_value.Pair{Index: v, Value: math.Exp(r - top)}
			}
			m := vBest(all, 1e-9, false)
			a, b := vHits(m, e.Labels)
			lo2, hi2 = lo2+a, hi2+b
			if len(m) > 1 {
				h.nontrivial(fmt.Sprint("tie ", g.sizes, m))
			}
		}
	}
	if hits < lo || hits > hi {
		h.fail("hits, from the lists the layers give without labels", fmt.Sprintf("%d..%d", lo, hi), hits)
	}
	if dense && (hits < lo2 || hits > hi2) {
		h.fail("hits, from a forward pass over the parameters", fmt.Sprintf("%d..%d", lo2, hi2), hits)
	}
	if hits > 0 && hits < len(es) {
		h.nontrivial(fmt.Sprint("batch ", g.sizes, g.sparsity, g.mode, hits))
	}
}

// ---- one training step ----

func TestVerifR01(t *testing.T) {
	h := vNew(t, "random networks of 1-3 layers (all hash functions, all modes whose lists are determined by the state, dense and sparse layers, Adam and plain descent), several training steps each with random batches, iteration numbers, rehash and rebuild; every weight, bias, moment, gradient sum, record and bucket against an own computation of the step; non-trivial: different shapes where a hidden weight moved")
	defer h.done(t)
	defer vQuiet()()
	rebuilt, redrawn := 0, 0
	for n := 0; h.more(n, 150, 6000); n++ {
		most := 5
		if h.rng.Intn(10) == 0 {
			most = 12
		}
		g := vNewNet(h, most)
		if g == nil {
			return
		}
		for r := h.intv(1, 5); r > 0 && len(h.Findings) == 0; r-- {
			if r == 1 || h.rng.Intn(3) > 0 {
				g.scramble()
			}
			g.step()
		}
		rebuilt, redrawn = rebuilt+g.rebuilt, redrawn+g.redrawn
	}
	if rebuilt > 5 && redrawn == 0 {
		h.fail("rebuilds that changed the codes of some node", "most of them", fmt.Sprintf("0 of %d", rebuilt))
	}
}

type vState struct{ w, m, v, t []float64 } // the last entry of each is the bias

func vRead(nd *node.Node) vState {
	var s vState
	s.w = append(append(s.w, nd.Weights()...), nd.GetBias())
	for i := 0; i < nd.AdamTDim(); i++ {
		s.m, s.v, s.t = append(s.m, nd.GetAdamAvgMom(i)), append(s.v, nd.GetAdamAvgVel(i)), append(s.t, nd.GetT(i))
	}
	s.m, s.v, s.t = append(s.m, nd.GetAdamAvgMomBias()), append(s.v, nd.GetAdamAvgVelBias()), append(s.t, nd.GetTBias())
	return s
}

func (g *vNet) read() [][]vState {
	out := make([][]vState, len(g.layers))
	for j, la := range g.layers {
		for x := 0; x < la.NumOfNodes(); x++ {
			out[j] = append(out[j], vRead(la.GetNodeById(x)))
		}
	}
	return out
}

func vTablesOf(la *layer.Layer) *lsh.LSH {
	v := reflect.ValueOf(la).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf((*lsh.LSH)(nil)) {
			return (*lsh.LSH)(unsafe.Pointer(v.Field(i).Pointer()))
		}
	}
	return nil
}

// buckets of layer j, table after table
func (g *vNet) buckets(j int) [][][]int {
	tables := vTablesOf(g.layers[j])
	if tables == nil {
		return nil
	}
	out := make([][][]int, g.l[j])
	for b := 0; b < 1<<uint(g.pow[j]); b++ {
		idx := make([]int, g.l[j])
		for i := range idx {
			idx[i] = b
		}
		for i, r := range tables.RetrieveRaw(idx) {
			out[i] = append(out[i], append([]int{}, r...))
		}
	}
	return out
}

func (g *vNet) codes(j int) [][]int {
	la := g.layers[j]
	var out [][]int
	for x := 0; x < la.NumOfNodes(); x++ {
		out = append(out, append([]int{}, la.GetHashForInputProcessing(la.GetNodeById(x).Weights())...))
	}
	return out
}

func vNear(a, b, rel float64) bool { return math.Abs(a-b) <= rel*(1+math.Abs(a)) }

func (g *vNet) step() {
	h := g.h
	adam := configuration.Global.UseAdam
	last := len(g.layers) - 1
	es := g.examples(false)
	if !adam {
		for _, la := range g.layers { // the bias a step starts from
			for x := 0; x < la.NumOfNodes(); x++ {
				la.GetNodeById(x).CopyWeightsAndBiasFromMirror(0)
			}
		}
		for j := range g.layers {
			if g.sparsity[j] != 1 && g.mode != configuration.LayerMode4 {
				es = es[:1]
			}
		}
	}
	if g.mode == configuration.LayerMode2 && g.sparsity[last] != 1 {
		share := int(math.Floor(float64(g.sizes[last]) * g.sparsity[last]))
		for _, e := range es {
			set := map[int]bool{}
			for _, c := range e.Labels {
				set[c] = true
			}
			if share != g.sizes[last] && len(set) < share {
				return // filled up at random
			}
		}
	}
	for j := 0; j < last; j++ {
		if g.mode == configuration.LayerMode1 && g.sparsity[j] != 1 && g.sparsity[j+1] != 1 {
			return // the order of the list, and so the codes of the next layer, varies
		}
	}
	// the lists, by asking the layers themselves
	lists := make([][][]index_value.Pair, len(es))
	for i, e := range es {
		lists[i] = make([][]index_value.Pair, last+2)
		lists[i][0] = append([]index_value.Pair{}, e.Features...)
		for j, la := range g.layers {
			la.QueryActiveNodeAndComputeActivations(0, lists[i], j, i, e.Labels, g.sparsity[j])
		}
	}
	iter := []int{0, 0, 1, 2, 3, 9, 100, 6945, 13891, 1000000}[h.rng.Intn(10)]
	rehash, rebuild := h.rng.Intn(2) == 0, h.rng.Intn(3) == 0
	before := vCopy(es)
	st := g.read()
	g.in["examples"], g.in["iteration"], g.in["rehash"], g.in["rebuild"] = vText(es), iter, rehash, rebuild
	delete(g.in, "parameters")
	if par := g.params(); len(par) <= 120 {
		g.in["parameters"] = fmt.Sprint(par)
	}
	var full [][][][]int
	var codes [][][]int
	for j := range g.layers {
		full, codes = append(full, g.buckets(j)), append(codes, g.codes(j))
	}
	h.begin(g.in)
	_, net := g.net.ProcessInput(0, es, iter, rehash, rebuild)
	if net != g.net {
		h.fail("network returned for its own owner", "the network itself", "another")
	}
	g.layers = vLayers(g.net)
	g.sameExamples(es, before)
	es = before

	// own computation
	rate := g.rate
	if adam {
		rate = g.rate * math.Sqrt(1-math.Pow(0.999, float64(iter)+1)) / (1 - math.Pow(0.9, float64(iter)+1))
	}
	orig := g.rate
	moved, risky := false, false
	size := 0.0
	for i, e := range es {
		act := make([]map[int]float64, last+2)
		act[0] = map[int]float64{}
		order := make([][]int, last+2)
		for _, p := range e.Features {
			act[0][p.Index] = p.Value
			order[0] = append(order[0], p.Index)
		}
		for j := range g.layers {
			act[j+1] = map[int]float64{}
			top := 0.0
			for _, p := range lists[i][j+1] {
				x := p.Index
				n := len(st[j][x].w) - 1
				s := 0.0
				for _, q := range order[j] {
					s += st[j][x].w[q] * act[j][q]
				}
				s += st[j][x].w[n]
				size = math.Max(size, math.Abs(s))
				if s != 0 && math.Abs(s) < 1e-9 {
					risky = true
				}
				if j < last && s < 0 {
					s = 0
				}
				top = math.Max(top, s)
				act[j+1][x] = s
				order[j+1] = append(order[j+1], x)
			}
			if j == last {
				sum := 0.0
				for _, x := range order[j+1] {
					act[j+1][x] = math.Exp(act[j+1][x] - top)
					sum += act[j+1][x]
				}
				for _, x := range order[j+1] {
					act[j+1][x] /= sum + 0.0000001
				}
			}
		}
		delta := make([]map[int]float64, last+2)
		for j := range delta {
			delta[j] = map[int]float64{}
		}
		for _, x := range order[last+1] {
			goal := 0.0
			if lo, _ := vHits(map[int]bool{x: true}, e.Labels); lo == 1 {
				goal = 1 / float64(len(e.Labels))
			}
			delta[last+1][x] = (goal - act[last+1][x]) / float64(g.batch)
		}
		for j := last; j >= 0; j-- {
			for _, x := range order[j+1] {
				s, d := st[j][x], delta[j+1][x]
				for _, q := range order[j] {
					if j > 0 && act[j][q] > 0 {
						delta[j][q] += d * s.w[q]
					}
					if adam {
						s.t[q] += d * act[j][q]
					} else {
						s.w[q] += orig * (d * act[j][q])
					}
					if j < last && d*act[j][q] != 0 {
						moved = true
					}
				}
			}
		}
		// biases enter at the end of the step: keep them in t
		for j := range g.layers {
			for _, x := range order[j+1] {
				n := len(st[j][x].t) - 1
				st[j][x].t[n] += delta[j+1][x]
			}
		}
	}
	if risky || size > 1e4 {
		g.scramble()
		return
	}
	for j := range g.layers {
		for x := range st[j] {
			s := st[j][x]
			if !adam {
				n := len(s.w) - 1
				s.w[n] += orig * s.t[len(s.t)-1]
				s.t[len(s.t)-1] = 0
				continue
			}
			for d := range s.w {
				s.m[d] = 0.9*s.m[d] + (1-0.9)*s.t[d]
				s.v[d] = 0.999*s.v[d] + (1-0.999)*s.t[d]*s.t[d]
				s.w[d] += rate * s.m[d] / (math.Sqrt(s.v[d]) + 0.00000001)
				s.t[d] = 0
			}
		}
	}
	got := g.read()
	for j := range st {
		for x := range st[j] {
			a, b := st[j][x], got[j][x]
			where := fmt.Sprintf("node %d of layer %d after the step: ", x, j)
			if len(a.w) != len(b.w) || len(a.t) != len(b.t) {
				h.fail(where+"number of weights and gradient sums", []int{len(a.w), len(a.t)}, []int{len(b.w), len(b.t)})
				return
			}
			for d := range a.t {
				if adam && (!vNear(a.m[d], b.m[d], 1e-9) || !vNear(a.v[d], b.v[d], 1e-9)) || a.t[d] != b.t[d] {
					h.fail(fmt.Sprintf("%smoment, velocity and gradient sum %d of %d", where, d, len(a.t)), []float64{a.m[d], a.v[d], a.t[d]}, []float64{b.m[d], b.v[d], b.t[d]})
					return
				}
			}
			for d := range a.w {
				if !vNear(a.w[d], b.w[d], 1e-7) {
					h.fail(fmt.Sprintf("%sweight %d of %d (the last is the bias)", where, d, len(a.w)-1), a.w[d], b.w[d])
					return
				}
			}
			nd := g.layers[j].GetNodeById(x)
			for i := 0; i < len(es); i++ {
				if v := nd.GetLastActivation(i); v != 0 {
					h.fail(fmt.Sprintf("%sactivation left for example %d", where, i), 0, v)
				}
				if v := nd.GetGradient(0, 0, i, 1); v != 0 {
					h.fail(fmt.Sprintf("%sdelta left for example %d", where, i), 0, v)
				}
			}
		}
	}
	if moved {
		h.nontrivial(fmt.Sprint("step ", g.sizes, g.sparsity, g.mode, adam, rehash, rebuild))
	}
	// tables
	for j, la := range g.layers {
		after := g.buckets(j)
		if after == nil {
			continue
		}
		want := full[j]
		sparse := g.sparsity[j] < 1
		if rehash && sparse {
			want = make([][][]int, len(full[j]))
			for i := range want {
				want[i] = make([][]int, len(full[j][i]))
			}
			for x := 0; x < la.NumOfNodes(); x++ {
				for i, b := range la.HashesToIndex(la.GetHashForInputProcessing(la.GetNodeById(x).Weights())) {
					want[i][b] = append(want[i][b], x)
				}
			}
			if g.mode == 1 || g.mode == 4 {
				h.nontrivial(fmt.Sprint("rehash ", g.sizes, g.hf, rebuild))
			}
		}
		for i := range want {
			for b := range want[i] {
				if fmt.Sprint(append([]int{}, want[i][b]...)) != fmt.Sprint(after[i][b]) {
					h.fail(fmt.Sprintf("layer %d after the step (sparse %v): bucket %d of table %d", j, sparse, b, i), want[i][b], after[i][b])
					return
				}
			}
		}
		if rebuild && sparse {
			if g.k[j]*g.l[j] >= 6 && len(la.GetNodeById(0).Weights()) >= 5 {
				g.rebuilt++
				if fmt.Sprint(codes[j]) != fmt.Sprint(g.codes(j)) {
					g.redrawn++
				}
			}
		}
	}
	if !vFinite(g.params()) {
		g.scramble()
	}
}
