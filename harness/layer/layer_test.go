package layer_test

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"testing"
	"unsafe"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/lsh"
	"github.com/nlpodyssey/goslide/node"
)

// vLayer drives one layer through its public operations and keeps its own record of what the tables hold.
type vLayer struct {
	h        *vH
	in       map[string]interface{}
	l        *layer.Layer
	n, prev  int
	k, lt    int
	rangePow int
	batch    int
	typ      node.NodeType
	hf       configuration.HashFunctionType
	weights  []float64
	bias     []float64
	fifo     []map[int][]int // per table, per bucket: every addition in order
	active   [][]bool        // node, slot
	last     [][]float64
}

func vQuiet() func() {
	old := os.Stdout
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
		return func() { os.Stdout = old; f.Close() }
	}
	return func() {}
}

func (h *vH) vFloat() float64 {
	switch h.rng.Intn(9) {
	case 0:
		return 0
	case 1:
		return float64(h.rng.Intn(5) - 2)
	case 2:
		return -h.rng.ExpFloat64()
	case 3:
		return h.rng.NormFloat64() * 1e3
	}
	return h.rng.NormFloat64()
}

func vNewLayer(h *vH, n, prev int, typ node.NodeType) *vLayer {
	g := &vLayer{h: h, n: n, prev: prev, typ: typ}
	g.k, g.lt, g.rangePow, g.batch = h.intv(1, 3), h.intv(1, 6), h.intv(1, 7), h.intv(1, 4)
	if h.rng.Intn(3) == 0 {
		g.k = 1
	}
	g.hf = configuration.HashFunctionType(1 + h.rng.Intn(4))
	cfg := configuration.Default()
	cfg.HashFunction = g.hf
	cfg.LoadWeight = true
	cfg.UseAdam = h.rng.Intn(2) == 0
	cfg.LayerMode = configuration.LayerModeType(1 + h.rng.Intn(4))
	configuration.Global = cfg
	g.weights, g.bias = make([]float64, n*prev), make([]float64, n)
	for i := range g.weights {
		g.weights[i] = h.vFloat()
	}
	for i := range g.bias {
		g.bias[i] = h.vFloat()
	}
	if h.rng.Intn(3) == 0 { // equal nodes
		for i := 1; i < n; i++ {
			if h.rng.Intn(2) == 0 {
				copy(g.weights[i*prev:(i+1)*prev], g.weights[(i-1)*prev:i*prev])
				g.bias[i] = g.bias[i-1]
			}
		}
	}
	g.in = map[string]interface{}{"nodes": n, "previous": prev, "type": int(typ), "k": g.k, "l": g.lt, "rangePow": g.rangePow, "batch": g.batch, "hash": int(g.hf), "mode": int(cfg.LayerMode)}
	if n*prev <= 400 {
		g.in["weights"], g.in["bias"] = append([]float64{}, g.weights...), append([]float64{}, g.bias...)
	}
	h.begin(g.in)
	g.l = layer.New(0, n, prev, 1, typ, g.batch, g.k, g.lt, g.rangePow, 0.5, g.weights, g.bias, make([]float64, n*prev), make([]float64, n*prev))
	g.active, g.last = make([][]bool, n), make([][]float64, n)
	for v := range g.active {
		g.active[v], g.last[v] = make([]bool, g.batch), make([]float64, g.batch)
	}
	g.forget()
	for v := 0; v < n; v++ {
		g.note(g.keys(g.l.GetNodeById(v).Weights()), v)
	}
	return g
}

func (g *vLayer) forget() {
	g.fifo = make([]map[int][]int, g.lt)
	for i := range g.fifo {
		g.fifo[i] = map[int][]int{}
	}
}
func (g *vLayer) note(keys []int, id int) {
	for t, k := range keys {
		g.fifo[t][k] = append(g.fifo[t][k], id)
	}
}
func (g *vLayer) keys(dense []float64) []int {
	return append([]int{}, g.l.HashesToIndex(g.l.GetHashForInputProcessing(dense))...)
}

// counts: how often each node is among the last 128 additions of the buckets of the input
func (g *vLayer) counts(dense []float64) []int {
	c := make([]int, g.n)
	for t, k := range g.keys(dense) {
		f := g.fifo[t][k]
		if len(f) > 128 {
			f = f[len(f)-128:]
		}
		for _, v := range f {
			c[v]++
		}
	}
	return c
}

// input draws a list of active inputs and the dense vector it stands for
func (g *vLayer) input() ([]index_value.Pair, []float64) {
	h := g.h
	dense := make([]float64, g.prev)
	var list []index_value.Pair
	near := -1
	if h.rng.Intn(2) == 0 {
		near = h.rng.Intn(g.n) // like the weights of one node, so that buckets are shared
	}
	val := func(x int) float64 {
		if near >= 0 && h.rng.Intn(12) > 0 {
			return g.l.GetNodeById(near).Weights()[x] + 1e-9*h.rng.Float64()
		}
		if g.hf == configuration.DensifiedMinhashFunction {
			return h.rng.NormFloat64()
		}
		return h.vFloat()
	}
	switch g.hf {
	case configuration.DensifiedWtaHashFunction, configuration.DensifiedMinhashFunction:
		for x := 0; x < g.prev; x++ {
			dense[x] = val(x)
			list = append(list, index_value.Pair{Index: x, Value: dense[x]})
		}
	case configuration.SparseRandomProjectionHashFunction:
		for x := 0; x < g.prev; x++ {
			if h.rng.Intn(4) > 0 {
				dense[x] = val(x)
				list = append(list, index_value.Pair{Index: x, Value: dense[x]})
			}
		}
	default:
		for _, x := range h.rng.Perm(g.prev) {
			if h.rng.Intn(4) > 0 {
				dense[x] = val(x)
				list = append(list, index_value.Pair{Index: x, Value: dense[x]})
			}
		}
		if len(list) > 0 && h.rng.Intn(4) == 0 {
			x := list[h.rng.Intn(len(list))].Index
			dense[x] = val(x)
			list = append(list, index_value.Pair{Index: x, Value: dense[x]})
		}
	}
	return list, dense
}

func (g *vLayer) labels(most int) []int {
	h := g.h
	var ls []int
	for i := h.intv(0, most); i > 0; i-- {
		ls = append(ls, h.rng.Intn(g.n))
		if len(ls) > 1 && h.rng.Intn(4) == 0 {
			ls[len(ls)-1] = ls[0]
		}
	}
	return ls
}

// change does something to the layer between queries
func (g *vLayer) change() {
	h := g.h
	switch h.rng.Intn(7) {
	case 0:
		g.l.UpdateRandomNodes()
	case 1:
		g.l.ClearHashTables()
		g.forget()
		for v := 0; v < g.n; v++ {
			if h.rng.Intn(4) > 0 {
				k := g.keys(g.l.GetNodeById(v).Weights())
				g.l.HashTablesAdd(k, v)
				g.note(k, v)
			}
		}
	case 2:
		for i := h.intv(1, 300); i > 0; i-- {
			k := g.keys(g.l.GetNodeById(h.rng.Intn(g.n)).Weights())
			v := h.rng.Intn(g.n)
			g.l.HashTablesAdd(k, v)
			g.note(k, v)
		}
	case 3:
		w := g.l.GetNodeById(h.rng.Intn(g.n)).Weights()
		for i := range w {
			if h.rng.Intn(3) == 0 {
				w[i] = h.vFloat()
			}
		}
	case 4:
		g.l = g.l.UpdateTable(0)
	}
}

type vQuery struct {
	list, before []index_value.Pair
	dense        []float64
	labels       []int
	sparsity     float64
	slot         int
	counts       []int
	in           int
	out          []index_value.Pair
}

func (g *vLayer) query(most int) *vQuery {
	h := g.h
	q := &vQuery{slot: h.rng.Intn(g.batch), labels: g.labels(most), sparsity: 1}
	q.list, q.dense = g.input()
	switch h.rng.Intn(5) {
	case 0:
	case 1:
		q.sparsity = float64(h.intv(0, g.n)) / float64(g.n)
	case 2:
		q.sparsity = 0
	default:
		q.sparsity = h.rng.Float64()
	}
	configuration.Global.LayerMode = configuration.LayerModeType(1 + h.rng.Intn(4))
	q.before = append([]index_value.Pair{}, q.list...)
	q.counts = g.counts(q.dense)
	g.in["mode"], g.in["input"], g.in["labels"], g.in["sparsity"], g.in["slot"] = int(configuration.Global.LayerMode), fmt.Sprint(q.list), append([]int{}, q.labels...), q.sparsity, q.slot
	if g.n <= 100 {
		g.in["bucket counts of the input"] = fmt.Sprint(q.counts)
	}
	h.begin(g.in)
	lists := make([][]index_value.Pair, 3)
	at := h.rng.Intn(2)
	lists[at] = q.list
	var nl *layer.Layer
	q.in, nl = g.l.QueryActiveNodeAndComputeActivations(0, lists, at, q.slot, q.labels, q.sparsity)
	if nl != g.l {
		h.fail("layer returned for its own owner", "the layer itself", "another")
	}
	for i, p := range lists {
		if i != at && i != at+1 && len(p) != 0 {
			h.fail("lists of other layers", "unchanged", "changed")
		}
	}
	q.out = lists[at+1]
	if len(lists[at]) != len(q.before) {
		h.fail("length of the input list", len(q.before), len(lists[at]))
	} else {
		for i, p := range lists[at] {
			if p.Index != q.before[i].Index || !vSame(p.Value, q.before[i].Value) {
				h.fail(fmt.Sprintf("input pair %d after the query", i), q.before[i], p)
			}
		}
	}
	return q
}

func vSame(a, b float64) bool { return a == b || a != a && b != b }

func (g *vLayer) preact(v int, list []index_value.Pair) float64 {
	nd := g.l.GetNodeById(v)
	s := 0.0
	for _, p := range list {
		s += nd.Weights()[p.Index] * p.Value
	}
	return s + nd.Bias()
}

func TestVerifA01(t *testing.T) {
	h := vNew(t, "random layers (all hash functions, node types, table shapes, equal nodes, up to 1700 nodes), histories of queries in all modes with table changes between them; the active list checked against scores computed from an own record of the tables; non-trivial: labels present, ties, or the number of candidates on a limit")
	defer h.done(t)
	defer vQuiet()()
	for n := 0; h.more(n, 60, 2500); n++ {
		nodes, prev, most := h.intv(1, 40), h.intv(1, 40), 6
		if h.rng.Intn(12) == 0 {
			nodes, prev, most = h.intv(990, 1700), h.intv(1, 4), 3000
			if h.rng.Intn(2) == 0 {
				nodes = h.intv(995, 1005)
			}
		}
		g := vNewLayer(h, nodes, prev, node.NodeType(h.rng.Intn(2)))
		for r := h.intv(1, 5); r > 0 && len(h.Findings) == 0; r-- {
			g.change()
			q := g.query(most)
			g.checkSelection(q)
		}
	}
}

func (g *vLayer) checkSelection(q *vQuery) {
	h := g.h
	soft := g.typ == node.Softmax
	seen := make([]bool, g.n)
	var ids []int
	for _, p := range q.out {
		if p.Index < 0 || p.Index >= g.n {
			h.fail("active node in range", g.n, p.Index)
			return
		}
		if seen[p.Index] {
			h.fail("node listed once", "once", p.Index)
			return
		}
		seen[p.Index] = true
		ids = append(ids, p.Index)
	}
	isLabel := make([]bool, g.n)
	for _, v := range q.labels {
		isLabel[v] = true
	}
	share := int(math.Floor(float64(g.n) * q.sparsity))
	all := make([]int, g.n)
	for i := range all {
		all[i] = i
	}
	text := func(l []int) string {
		if len(l) > 60 {
			return fmt.Sprint(len(l), " nodes ", l[:60], "...")
		}
		return fmt.Sprint(l)
	}
	if q.sparsity == 1 {
		if fmt.Sprint(ids) != fmt.Sprint(all) {
			h.fail("active nodes, sparsity 1", text(all), text(ids))
		}
		if q.in != 0 {
			h.fail("count returned, sparsity 1", 0, q.in)
		}
		return
	}
	switch configuration.Global.LayerMode {
	case configuration.LayerMode1:
		var want []int
		for v := 0; v < g.n; v++ {
			s := q.counts[v]
			if soft && isLabel[v] {
				s += g.lt
			}
			if s > 2 {
				want = append(want, v)
			}
			if s == 2 || s == 3 {
				h.nontrivial(fmt.Sprint("score on the threshold ", g.lt, soft, isLabel[v], q.counts[v]))
			}
		}
		sort.Ints(ids)
		if fmt.Sprint(want) != fmt.Sprint(ids) {
			h.fail("active nodes, mode 1", text(want), text(ids))
		}
		if q.in != len(want) {
			h.fail("count returned, mode 1", len(want), q.in)
		}
	case configuration.LayerMode2:
		if !soft {
			share = 0
		}
		if len(ids) != share || q.in != 0 {
			h.fail("number of active nodes and count returned, mode 2", fmt.Sprint(share, 0), fmt.Sprint(len(ids), q.in))
		}
		if !soft {
			return
		}
		missing, others := -1, -1
		for _, v := range q.labels {
			if !seen[v] {
				missing = v
			}
		}
		for _, v := range ids {
			if !isLabel[v] {
				others = v
			}
		}
		if missing >= 0 && others >= 0 {
			h.fail("mode 2: labels come first", fmt.Sprintf("label %d active", missing), fmt.Sprintf("%d active instead", others))
		}
		h.nontrivial(fmt.Sprint("mode 2 ", len(q.labels), share, g.n))
	case configuration.LayerMode3:
		if !soft {
			if len(ids) != 0 || q.in != 0 {
				h.fail("mode 3, not softmax", "0 0", fmt.Sprint(len(ids), q.in))
			}
			return
		}
		val := make([]float64, g.n)
		for v := range val {
			val[v] = -g.preact(v, q.list)
			if isLabel[v] {
				val[v] = -1e9
			}
			if val[v] != val[v] {
				return
			}
		}
		sort.SliceStable(all, func(i, j int) bool { return val[all[i]] < val[all[j]] })
		if fmt.Sprint(all[:share]) != fmt.Sprint(ids) {
			h.fail("active nodes, mode 3", text(all[:share]), text(ids))
		}
		in := 0
		for _, v := range ids {
			if isLabel[v] {
				in = 1
			}
		}
		if in != q.in {
			h.fail("value returned, mode 3", in, q.in)
		}
		if share > 0 && share < g.n && val[all[share-1]] == val[all[share]] {
			h.nontrivial(fmt.Sprint("mode 3 tie at the edge ", share, g.n))
		}
	case configuration.LayerMode4:
		in := 0
		for v := 0; v < g.n; v++ {
			if q.counts[v] > 0 || soft && isLabel[v] {
				in++
				if !seen[v] {
					h.fail("mode 4: candidate active", v, "not active")
				}
			}
		}
		want := in
		if want < 1000 {
			want = 1000
			if g.n < want {
				want = g.n
			}
		}
		if q.in != in || len(ids) != want {
			h.fail("mode 4: candidates counted and number of active nodes", fmt.Sprint(in, want), fmt.Sprint(q.in, len(ids)))
		}
		if !sort.IntsAreSorted(ids) {
			h.fail("mode 4: order of the active nodes", "ascending", text(ids))
		}
		h.nontrivial(fmt.Sprint("mode 4 ", in, want, g.n))
	}
}

func TestVerifA02(t *testing.T) {
	h := vNew(t, "random layers (all hash functions, node types, table shapes), histories of queries in all modes; activations, softmax values and normalisation constants checked against own sums over the node's weights, the other nodes and slots against what they held before; non-trivial: negative sums, values above the range of exp, empty lists")
	defer h.done(t)
	defer vQuiet()()
	for n := 0; h.more(n, 60, 2500); n++ {
		nodes, prev, most := h.intv(1, 30), h.intv(1, 30), 6
		if h.rng.Intn(20) == 0 {
			nodes, prev, most = h.intv(900, 1100), h.intv(1, 4), 40
		}
		g := vNewLayer(h, nodes, prev, node.NodeType(h.rng.Intn(2)))
		scale := []float64{0.01, 1, 1, 100}[h.rng.Intn(4)]
		for i := range g.weights {
			g.weights[i] *= scale
		}
		if h.rng.Intn(4) == 0 { // every sum negative
			for v := 0; v < nodes; v++ {
				g.l.GetNodeById(v).SetBias(0, -1e4*scale)
			}
		}
		norm := make([]float64, g.batch)
		for r := h.intv(1, 6); r > 0 && len(h.Findings) == 0; r-- {
			g.change()
			q := g.query(most)
			g.checkActivations(q, norm)
		}
	}
}

func (g *vLayer) checkActivations(q *vQuery, norm []float64) {
	h := g.h
	soft := g.typ == node.Softmax
	raw := make([]float64, len(q.out))
	top := 0.0
	for i, p := range q.out {
		if p.Index < 0 || p.Index >= g.n {
			return
		}
		raw[i] = g.preact(p.Index, q.list)
		if !soft && raw[i] < 0 {
			raw[i] = 0
			h.nontrivial(fmt.Sprint("negative ", g.n, g.prev, p.Index))
		}
		if raw[i] > top {
			top = raw[i]
		}
	}
	if len(raw) == 0 {
		h.nontrivial(fmt.Sprint("empty ", g.n, g.prev))
	}
	sum := 0.0
	for i, p := range q.out {
		want := raw[i]
		if soft {
			want = math.Exp(raw[i] - top)
			sum += want
		}
		if !vSame(p.Value, want) {
			h.fail(fmt.Sprintf("value of active node %d", p.Index), want, p.Value)
		}
		g.active[p.Index][q.slot], g.last[p.Index][q.slot] = true, want
	}
	if soft {
		norm[q.slot] = sum
		for s := range norm {
			if got := g.l.GetNomalizationConstant(s); !vSame(got, norm[s]) {
				h.fail(fmt.Sprintf("normalization constant of slot %d", s), norm[s], got)
			}
		}
	}
	for v := 0; v < g.n; v++ {
		nd := g.l.GetNodeById(v)
		for s := 0; s < g.batch; s++ {
			want := 0.0
			if g.active[v][s] {
				want = g.last[v][s]
			}
			if got := nd.GetLastActivation(s); !vSame(got, want) {
				h.fail(fmt.Sprintf("activation recorded for node %d, slot %d", v, s), want, got)
			}
			if g.n <= 40 && g.active[v][s] != vActive(nd, s) {
				h.fail(fmt.Sprintf("node %d active for slot %d", v, s), g.active[v][s], !g.active[v][s])
			}
		}
	}
}

// a node that is not active for a slot refuses to take a delta
func vActive(nd *node.Node, slot int) (a bool) {
	defer func() {
		if recover() != nil {
			a = false
		}
	}()
	nd.IncrementDelta(0, slot, 0)
	return true
}

// vTables finds the layer's hash tables by their type.
func vTables(l *layer.Layer) *lsh.LSH {
	v := reflect.ValueOf(l).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf((*lsh.LSH)(nil)) {
			return (*lsh.LSH)(unsafe.Pointer(v.Field(i).Pointer()))
		}
	}
	return nil
}

func TestVerifA03(t *testing.T) {
	h := vNew(t, "random layers (all hash functions, node types, loaded or random weights, with and without Adam moments, batches 0..5, up to 400 nodes); every node's weights row, bias, moments and per-input records, and every bucket of every table against the nodes' own codes, after construction and after redrawing, emptying and refilling; non-trivial: two nodes in one bucket and two rows differ")
	defer h.done(t)
	defer vQuiet()()
	for n := 0; h.more(n, 60, 2500); n++ {
		nodes, prev := h.intv(1, 40), h.intv(1, 24)
		if h.rng.Intn(6) == 0 {
			nodes, prev = h.intv(120, 400), h.intv(1, 4)
		}
		vBuild(h, nodes, prev)
	}
}

func vBuild(h *vH, n, prev int) {
	g := &vLayer{h: h, n: n, prev: prev, typ: node.NodeType(h.rng.Intn(2))}
	g.k, g.lt, g.rangePow, g.batch = h.intv(1, 3), h.intv(1, 6), h.intv(0, 7), h.intv(0, 5)
	g.hf = configuration.HashFunctionType(1 + h.rng.Intn(4))
	cfg := configuration.Default()
	cfg.HashFunction = g.hf
	cfg.LoadWeight = h.rng.Intn(3) > 0
	cfg.UseAdam = h.rng.Intn(2) == 0
	configuration.Global = cfg
	owner := h.intv(0, 3)
	var weights, bias, mom, vel []float64
	draw := func(n int) (a []float64) {
		for i := 0; i < n; i++ {
			a = append(a, h.vFloat())
		}
		return
	}
	if cfg.LoadWeight {
		weights, bias = draw(n*prev), draw(n)
		if cfg.UseAdam {
			mom, vel = draw(n*prev), draw(n*prev)
		}
	}
	g.in = map[string]interface{}{"nodes": n, "previous": prev, "type": int(g.typ), "k": g.k, "l": g.lt, "rangePow": g.rangePow, "batch": g.batch, "hash": int(g.hf), "loaded": cfg.LoadWeight, "adam": cfg.UseAdam}
	if n*prev <= 300 {
		g.in["weights"], g.in["bias"], g.in["moments"], g.in["velocities"] = append([]float64{}, weights...), append([]float64{}, bias...), append([]float64{}, mom...), append([]float64{}, vel...)
	}
	h.begin(g.in)
	given := append([]float64{}, weights...)
	givenM, givenV := append([]float64{}, mom...), append([]float64{}, vel...)
	g.l = layer.New(owner, n, prev, 1, g.typ, g.batch, g.k, g.lt, g.rangePow, h.rng.Float64(), weights, bias, mom, vel)
	if g.l.NumOfNodes() != n || len(g.l.GetAllNodes()) != n {
		h.fail("number of nodes", n, g.l.NumOfNodes())
		return
	}
	rows := func(when string) bool {
		for v := 0; v < n; v++ {
			nd := g.l.GetNodeById(v)
			if nd == nil || nd != g.l.GetAllNodes()[v] {
				h.fail(fmt.Sprintf("node %d by number and in the list of all, %s", v, when), "the same node", "another")
				return false
			}
			if len(nd.Weights()) != prev {
				h.fail(fmt.Sprintf("number of weights of node %d, %s", v, when), prev, len(nd.Weights()))
				return false
			}
			for i, w := range nd.Weights() {
				if !vSame(w, given[v*prev+i]) {
					h.fail(fmt.Sprintf("weight %d of node %d, %s", i, v, when), given[v*prev+i], w)
					return false
				}
			}
		}
		return true
	}
	if !cfg.LoadWeight {
		same, first := true, 0.0
		for v := 0; v < n; v++ {
			w := g.l.GetNodeById(v).Weights()
			given = append(given, w...)
			for i := range w {
				if v+i == 0 {
					first = w[0]
				}
				if w[i] != first {
					same = false
				}
				if w[i] != w[i] || math.IsInf(w[i], 0) || math.Abs(w[i]) > 0.5 {
					h.fail(fmt.Sprintf("drawn weight %d of node %d", i, v), "about 0 (standard deviation 0.01)", w[i])
				}
			}
			bias = append(bias, g.l.GetNodeById(v).Bias())
			if b := bias[v]; b != b || math.Abs(b) > 0.5 {
				h.fail(fmt.Sprintf("drawn bias of node %d", v), "about 0 (standard deviation 0.01)", b)
			}
		}
		if same && n*prev > 3 {
			h.fail("drawn weights", "not all equal", first)
		}
		givenM, givenV = make([]float64, n*prev), make([]float64, n*prev)
		if len(given) != n*prev {
			h.fail("number of weights", n*prev, len(given))
			return
		}
	}
	if !rows("after construction") {
		return
	}
	for v := 0; v < n; v++ {
		nd := g.l.GetNodeById(v)
		if !vSame(nd.Bias(), bias[v]) {
			h.fail(fmt.Sprintf("bias of node %d", v), bias[v], nd.Bias())
		}
		if !cfg.UseAdam {
			if nd.AdamTDim() != 0 {
				h.fail(fmt.Sprintf("gradient sums of node %d without Adam", v), 0, nd.AdamTDim())
			}
			continue
		}
		if nd.AdamTDim() != prev {
			h.fail(fmt.Sprintf("gradient sums of node %d", v), prev, nd.AdamTDim())
			return
		}
		for i := 0; i < prev; i++ {
			if nd.GetT(i) != 0 || !vSame(nd.GetAdamAvgMom(i), givenM[v*prev+i]) || !vSame(nd.GetAdamAvgVel(i), givenV[v*prev+i]) {
				h.fail(fmt.Sprintf("gradient sum, moment and velocity %d of node %d", i, v), []float64{0, givenM[v*prev+i], givenV[v*prev+i]}, []float64{nd.GetT(i), nd.GetAdamAvgMom(i), nd.GetAdamAvgVel(i)})
				return
			}
		}
	}
	if len(h.Findings) > 0 {
		return
	}
	// the tables
	expect := func() {
		g.forget()
		for v := 0; v < n; v++ {
			g.note(g.keys(given[v*prev:(v+1)*prev]), v)
		}
	}
	tables := vTables(g.l)
	shared := false
	check := func(when string) bool {
		if tables == nil {
			return true
		}
		for j := 0; j < 1<<uint(g.rangePow); j++ {
			idx := make([]int, g.lt)
			for i := range idx {
				idx[i] = j
			}
			raw := tables.RetrieveRaw(idx)
			if len(raw) != g.lt {
				h.fail("number of tables", g.lt, len(raw))
				return false
			}
			for i := range raw {
				all := g.fifo[i][j]
				want := append([]int{}, all...)
				if len(all) > 128 {
					want = want[:128]
					for x, v := range all {
						want[x%128] = v
					}
				}
				shared = shared || len(want) > 1
				if fmt.Sprint(raw[i]) != fmt.Sprint(want) {
					h.fail(fmt.Sprintf("bucket %d of table %d, %s", j, i, when), want, fmt.Sprint(raw[i]))
					return false
				}
			}
		}
		return true
	}
	expect()
	if !check("after construction") {
		return
	}
	if shared && n > 1 {
		h.nontrivial(fmt.Sprint(g.in["nodes"], prev, g.k, g.lt, g.rangePow, g.batch, int(g.hf), h.Evaluations))
	}
	// drawn again, with the old contents; emptied; filled under the new codes
	l2 := g.l.UpdateTable(owner)
	if l2 != g.l {
		h.fail("layer returned for its own owner", "the layer itself", "another")
		return
	}
	if !check("after drawing the hash functions again") || !rows("after drawing the hash functions again") {
		return
	}
	for v := 0; v < n && v < 20; v++ {
		codes := g.l.GetHashForInputProcessing(given[v*prev : (v+1)*prev])
		if len(codes) < g.k*g.lt {
			h.fail("number of codes", g.k*g.lt, len(codes))
			return
		}
		for i, j := range g.keys(given[v*prev : (v+1)*prev]) {
			if j < 0 || j >= 1<<uint(g.rangePow) {
				h.fail(fmt.Sprintf("index of node %d in table %d", v, i), fmt.Sprintf("below %d", 1<<uint(g.rangePow)), j)
				return
			}
		}
	}
	g.l.ClearHashTables()
	g.forget()
	if !check("after emptying") || !rows("after emptying") {
		return
	}
	for v := 0; v < n; v++ {
		if h.rng.Intn(5) > 0 {
			k := g.keys(given[v*prev : (v+1)*prev])
			g.l.HashTablesAdd(append([]int{}, k...), v)
			g.note(k, v)
		}
	}
	if !check("after filling again") || !rows("after filling again") {
		return
	}
	// every node has a record of its own for each input, unused at first
	for v := 0; v < n; v++ {
		for s := 0; s < g.batch; s++ {
			nd := g.l.GetNodeById(v)
			if a := nd.GetLastActivation(s); a != 0 {
				h.fail(fmt.Sprintf("activation of node %d for input %d", v, s), 0, a)
				return
			}
			if a, nn := nd.GetActivation(owner, nil, s); nn != nd || !vSame(a, bias[v]) && !(g.typ == node.ReLU && bias[v] < 0 && a == 0) {
				h.fail(fmt.Sprintf("activation of node %d for input %d without inputs", v, s), bias[v], a)
				return
			}
			nd.SetlastActivation(owner, s, float64(1+v*g.batch+s))
		}
	}
	for v := 0; v < n; v++ {
		for s := 0; s < g.batch; s++ {
			if a := g.l.GetNodeById(v).GetLastActivation(s); a != float64(1+v*g.batch+s) {
				h.fail(fmt.Sprintf("activation of node %d for input %d", v, s), 1+v*g.batch+s, a)
				return
			}
		}
	}
	// and weights of its own
	for v := 0; v < n; v++ {
		i := h.rng.Intn(prev)
		given[v*prev+i] = float64(v) + 0.25
		g.l.GetNodeById(v).Weights()[i] = given[v*prev+i]
	}
	if !rows("after writing one weight of every node") {
		return
	}
	if cfg.UseAdam { // and moments of its own
		for x := 0; x < n*prev; x++ {
			nd := g.l.GetNodeById(x / prev)
			nd.SetT(owner, x%prev, float64(3*x+1))
			nd.SetAdamAvgMom(owner, x%prev, float64(3*x+2))
			nd.SetAdamAvgVel(owner, x%prev, float64(3*x+3))
		}
		for x := 0; x < n*prev; x++ {
			nd := g.l.GetNodeById(x / prev)
			if i := x % prev; nd.GetT(i) != float64(3*x+1) || nd.GetAdamAvgMom(i) != float64(3*x+2) || nd.GetAdamAvgVel(i) != float64(3*x+3) {
				h.fail(fmt.Sprintf("gradient sum, moment and velocity %d of node %d after writing all", i, x/prev), []int{3*x + 1, 3*x + 2, 3*x + 3}, []float64{nd.GetT(i), nd.GetAdamAvgMom(i), nd.GetAdamAvgVel(i)})
				return
			}
		}
		if !rows("after writing the moments") {
			return
		}
	}
	for s := 0; s < g.batch && g.typ == node.Softmax; s++ {
		if c := g.l.GetNomalizationConstant(s); c != 0 {
			h.fail(fmt.Sprintf("normalisation constant of input %d", s), 0, c)
		}
	}
}
