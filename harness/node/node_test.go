package node_test

import (
	"fmt"
	"math"
	"testing"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/node"
)

// What can be seen of a node through its exported methods.
type obs struct {
	W, M, T, Mom, Vel     []float64
	B, MB, TB, MomB, VelB float64
	Act                   []float64 // last activation of each input (0 when inactive)
	Delta                 []float64
	Active                []bool
	Raw                   []float64 // stored activation, also when inactive
	DimT                  int
	Kind, ID, Batch       int
	freshID               int
}

var owners = 1000

func newOwner() int { owners++; return owners }

func clonef(a []float64) []float64 { return append([]float64(nil), a...) }

func (o *obs) clone() *obs {
	c := *o
	c.W, c.M, c.T, c.Mom, c.Vel = clonef(o.W), clonef(o.M), clonef(o.T), clonef(o.Mom), clonef(o.Vel)
	c.Act, c.Delta, c.Raw = clonef(o.Act), clonef(o.Delta), clonef(o.Raw)
	c.Active = append([]bool(nil), o.Active...)
	return &c
}

// look reads everything readable; what cannot be read (activity, stored value of inactive inputs, kind) comes from the model m.
func look(n *node.Node, m *obs) *obs {
	o := m.clone()
	o.W = clonef(n.Weights())
	o.B = n.Bias()
	o.DimT = n.AdamTDim()
	o.T = nil
	for i := 0; i < o.DimT; i++ {
		o.T = append(o.T, n.GetT(i))
	}
	for i := range o.Mom {
		o.Mom[i] = n.GetAdamAvgMom(i)
	}
	for i := range o.Vel {
		o.Vel[i] = n.GetAdamAvgVel(i)
	}
	o.TB, o.MomB, o.VelB = n.GetTBias(), n.GetAdamAvgMomBias(), n.GetAdamAvgVelBias()
	for i := range o.Act {
		o.Act[i] = n.GetLastActivation(i)
		o.Delta[i] = -n.GetGradient(0, 0, i, 1)
		if o.Active[i] {
			o.Raw[i] = o.Act[i]
		}
	}
	c := n.CopyWeightsAndBiasFromMirror(newOwner())
	o.M, o.MB = clonef(c.Weights()), c.Bias()
	return o
}

func near(a, b float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	return math.Abs(a-b) <= 1e-11*(1+math.Abs(a)+math.Abs(b))
}
func nearS(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !near(a[i], b[i]) {
			return false
		}
	}
	return true
}

// diff names the first part in which the two differ ("" if none); parts limits what is compared.
func diff(want, got *obs, parts string) string {
	for _, x := range []struct {
		n    byte
		name string
		w, g []float64
	}{
		{'w', "weights", want.W, got.W}, {'m', "mirror weights", want.M, got.M}, {'t', "gradient accumulators", want.T, got.T},
		{'o', "first moments", want.Mom, got.Mom}, {'v', "second moments", want.Vel, got.Vel},
		{'a', "last activations", want.Act, got.Act}, {'d', "deltas", want.Delta, got.Delta},
		{'b', "bias", []float64{want.B}, []float64{got.B}}, {'c', "mirror bias", []float64{want.MB}, []float64{got.MB}},
		{'x', "bias gradient", []float64{want.TB}, []float64{got.TB}},
		{'y', "bias moments", []float64{want.MomB, want.VelB}, []float64{got.MomB, got.VelB}},
	} {
		for _, p := range []byte(parts) {
			if p == x.n && !nearS(x.w, x.g) {
				return fmt.Sprintf("%s: want %v, got %v", x.name, x.w, x.g)
			}
		}
	}
	return ""
}

const allParts = "wmtovadbcxy"

type live struct {
	n     *node.Node
	m     *obs // model
	owner int
	id    int
}

type drv struct {
	h    *vH
	adam bool
	ops  []string
	nw   int
	bs   int
}

func (d *drv) val() float64 {
	r := d.h.rng
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return float64(r.Intn(7) - 3)
	case 2:
		return r.NormFloat64() * 100
	}
	return r.NormFloat64()
}
func (d *drv) vec(n int) []float64 {
	o := make([]float64, n)
	for i := range o {
		o[i] = d.val()
	}
	return o
}

func (d *drv) make(owner, id int) *live {
	kind := node.ReLU
	if d.h.rng.Intn(2) == 0 {
		kind = node.Softmax
	}
	w := d.vec(d.nw)
	if d.h.rng.Intn(3) == 0 && d.nw > 0 { // a slice of a longer row, as the layer passes
		w = d.vec(d.nw * 3)[d.nw : 2*d.nw]
	}
	mom, vel := d.vec(d.nw), d.vec(d.nw)
	m := &obs{W: clonef(w), M: clonef(w), B: d.val(), Kind: int(kind), ID: id, Batch: d.bs,
		Act: make([]float64, d.bs), Delta: make([]float64, d.bs), Active: make([]bool, d.bs), Raw: make([]float64, d.bs)}
	m.MB = m.B
	if d.adam {
		m.Mom, m.Vel, m.T = clonef(mom), clonef(vel), make([]float64, d.nw)
		m.DimT = d.nw
	}
	var n *node.Node
	if d.h.rng.Intn(2) == 0 {
		n = node.NewNode(owner, d.nw, id, 0, kind, d.bs, w, m.B, mom, vel)
	} else {
		blob := make([]*node.NodeTrain, d.bs)
		for i := range blob {
			blob[i] = node.NewNodeTrain(owner)
		}
		n = node.NewEmptyNode(owner).Update(owner, d.nw, id, 0, kind, d.bs, w, m.B, mom, vel, blob)
	}
	return &live{n, m, owner, id}
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// run performs a random history; checks is the set of property letters whose violations are reported.
// A chain of versions: each version is either continued by its owner (which replaces it), or frozen and forked by an unused owner.
func nodeHistory(t *testing.T, prop string, rule string, weights map[string]int) {
	h := vNew(t, rule)
	defer h.done(t)
	var names []string
	for k, w := range weights {
		for i := 0; i < w; i++ {
			names = append(names, k)
		}
	}
	sortStrings(names)
	for n := 0; h.more(n, 150, 3000); n++ {
		d := &drv{h: h, adam: h.rng.Intn(2) == 0, nw: h.intv(1, 6), bs: h.intv(1, 4)}
		if h.rng.Intn(6) == 0 {
			d.nw = h.intv(7, 40)
		}
		configuration.Global = configuration.Default()
		configuration.Global.UseAdam = d.adam
		h.begin(map[string]interface{}{"case": n, "adam": d.adam, "weights": d.nw, "batch": d.bs})
		cur := d.make(0, 3)
		type frozen struct {
			n *node.Node
			m *obs
			v int
		}
		var fz []frozen
		if prop == "N04" {
			if x := diff(cur.m, look(cur.n, cur.m), allParts); x != "" {
				h.fail("a new node: "+x, "", "")
				return
			}
		}
		if prop == "N01" {
			if x := diff(cur.m, look(cur.n, cur.m), "a"); x != "" {
				h.fail("a new node reads as inactive: "+x, "", "")
				return
			}
		}
		cur.m = look(cur.n, cur.m)
		steps := h.intv(1, 30)
		forks := 0
	steps:
		for s := 0; s < steps && len(h.Findings) == 0; s++ {
			owner := cur.owner
			before, nfz := cur, len(fz)
			undo := func() { cur, fz = before, fz[:nfz] }
			forking := h.rng.Intn(4) == 0
			if forking {
				owner = newOwner()
				fz = append(fz, frozen{cur.n, cur.m.clone(), cur.owner})
				forks++
				if h.rng.Intn(3) == 0 { // fork an older version instead
					k := h.rng.Intn(len(fz))
					cur = &live{fz[k].n, fz[k].m.clone(), fz[k].v, cur.id}
				}
			}
			op := names[h.rng.Intn(len(names))]
			i := h.rng.Intn(d.bs)
			h.curIn = map[string]interface{}{"adam": d.adam, "weights": d.nw, "batch": d.bs, "kind": cur.m.Kind, "history": append(append([]string(nil), d.ops...), fmt.Sprintf("%s owner=%d input=%d", op, owner, i))}
			d.ops = append(d.ops, fmt.Sprintf("%s owner=%d input=%d", op, owner, i))
			w := cur.m.clone()
			parts := allParts
			tag := ""
			switch op {
			case "act":
				tag = "N01"
				var data []index_value.Pair
				for k := h.intv(0, 6); k > 0; k-- {
					data = append(data, index_value.Pair{Index: h.rng.Intn(d.nw), Value: d.val()})
				}
				var v float64
				var r *node.Node
				if p := panics(func() { v, r = cur.n.GetActivation(owner, data, i) }); p {
					if prop == tag {
						h.fail(fmt.Sprintf("GetActivation(%v, input %d) panics", data, i), "a value", "panic")
					}
					break steps
				}
				x := 0.0
				for _, p := range data {
					x += w.W[p.Index] * p.Value
				}
				x += w.B
				if w.Kind == int(node.ReLU) && x < 0 {
					x = 0
					w.Delta[i] = 0
				}
				w.Active[i], w.Act[i], w.Raw[i] = true, x, x
				if prop == tag && !near(v, x) {
					h.fail(fmt.Sprintf("GetActivation(%v, input %d) of a node with weights %v, bias %v", data, i, w.W, w.B), x, v)
				}
				cur = &live{r, w, owner, cur.id}
				if x != 0 {
					h.nontrivial(fmt.Sprint(data, i, x))
				}
			case "setact":
				tag = "N01"
				v := d.val()
				cur = &live{cur.n.SetlastActivation(owner, i, v), w, owner, cur.id}
				w.Raw[i] = v
				if w.Active[i] {
					w.Act[i] = v
				}
			case "softmax":
				tag = "N02"
				norm := math.Abs(d.val())
				var labels []int
				for k := h.intv(0, 4); k > 0; k-- {
					labels = append(labels, h.rng.Intn(6))
				}
				var r *node.Node
				p := panics(func() { r = cur.n.ComputeExtaStatsForSoftMax(owner, norm, i, labels) })
				if p != !w.Active[i] {
					if prop == tag {
						h.fail(fmt.Sprintf("ComputeExtaStatsForSoftMax for an input with active=%v: panics", w.Active[i]), !w.Active[i], p)
					}
					break steps
				}
				if p {
					undo()
					continue
				}
				a := w.Act[i] / (norm + 0.0000001)
				w.Act[i], w.Raw[i] = a, a
				is := false
				for _, l := range labels {
					is = is || l == cur.id
				}
				if is {
					w.Delta[i] = (1/float64(len(labels)) - a) / float64(d.bs)
					h.nontrivial(fmt.Sprint(labels, norm, a))
				} else {
					w.Delta[i] = -a / float64(d.bs)
				}
				cur = &live{r, w, owner, cur.id}
			case "inc":
				tag = "N03"
				v := d.val()
				var r *node.Node
				p := panics(func() { r = cur.n.IncrementDelta(owner, i, v) })
				if p != !w.Active[i] {
					if prop == tag {
						h.fail(fmt.Sprintf("IncrementDelta for an input with active=%v: panics", w.Active[i]), !w.Active[i], p)
					}
					break steps
				}
				if p {
					undo()
					continue
				}
				if !(w.Act[i] <= 0) {
					w.Delta[i] += v
					cur = &live{r, w, owner, cur.id}
				} else if r != cur.n {
					cur = &live{r, w, owner, cur.id}
				} else if forking { // nothing was written: the version stays with its old owner
					if x := diff(w, look(r, w), allParts); x != "" && prop == tag {
						h.fail("IncrementDelta at a non-positive activation: "+x, "", "")
					}
					undo()
					continue
				}
			case "back1":
				tag = "N03"
				lr := d.val()
				var data []index_value.Pair
				for k := h.intv(0, 6); k > 0; k-- {
					data = append(data, index_value.Pair{Index: h.rng.Intn(d.nw), Value: d.val()})
				}
				var r *node.Node
				p := panics(func() { r = cur.n.BackPropagateFirstLayer(owner, data, lr, i) })
				if p != !w.Active[i] {
					if prop == tag {
						h.fail(fmt.Sprintf("BackPropagateFirstLayer for an input with active=%v: panics", w.Active[i]), !w.Active[i], p)
					}
					break steps
				}
				if p {
					undo()
					continue
				}
				dl := w.Delta[i]
				for _, x := range data {
					if d.adam {
						w.T[x.Index] += dl * x.Value
					} else {
						w.M[x.Index] += lr * (dl * x.Value)
					}
				}
				if d.adam {
					w.TB += dl
				} else {
					w.MB += lr * dl
					parts = "mtovadbcxy"
				}
				w.Active[i], w.Act[i], w.Raw[i], w.Delta[i] = false, 0, 0, 0
				cur = &live{r, w, owner, cur.id}
				h.nontrivial(fmt.Sprint(data, dl))
			case "back":
				tag = "N03"
				lr := d.val()
				np := d.nw
				prev := make([]*node.Node, np)
				pm := make([]*obs, np)
				po := 0
				if h.rng.Intn(2) == 0 {
					po = owner
				}
				for k := range prev {
					p := d.make(po, k)
					prev[k], pm[k] = p.n, p.m
					for j := 0; j < d.bs; j++ {
						if h.rng.Intn(20) != 0 {
							_, prev[k] = prev[k].GetActivation(po, nil, j)
							prev[k] = prev[k].SetlastActivation(po, j, d.val())
							pm[k].Active[j] = true
							pm[k].Act[j] = prev[k].GetLastActivation(j)
							pm[k].Raw[j] = pm[k].Act[j]
						}
					}
					pm[k] = look(prev[k], pm[k])
				}
				orig := append([]*node.Node(nil), prev...)
				om := append([]*obs(nil), pm...)
				var pairs []index_value.Pair
				mustPanic := !w.Active[i]
				for _, k := range h.rng.Perm(np)[:h.rng.Intn(np+1)] {
					pairs = append(pairs, index_value.Pair{Index: k, Value: d.val()})
					mustPanic = mustPanic || !pm[k].Active[i]
				}
				var r *node.Node
				p := panics(func() { r = cur.n.BackPropagate(owner, &prev, pairs, lr, i) })
				if p != mustPanic {
					if prop == tag {
						h.fail(fmt.Sprintf("BackPropagate(%v): panics", pairs), mustPanic, p)
					}
					break steps
				}
				if p {
					break steps // partial effects are unspecified
				}
				dl := w.Delta[i]
				for _, x := range pairs {
					k := x.Index
					q := pm[k].clone()
					if !(q.Act[i] <= 0) {
						q.Delta[i] += dl * w.W[k]
					}
					pm[k] = q
					if d.adam {
						w.T[k] += dl * q.Act[i]
					} else {
						w.M[k] += lr * (dl * q.Act[i])
					}
				}
				if d.adam {
					w.TB += dl
				} else {
					w.MB += lr * dl
					parts = "mtovadbcxy"
				}
				w.Active[i], w.Act[i], w.Raw[i], w.Delta[i] = false, 0, 0, 0
				cur = &live{r, w, owner, cur.id}
				h.nontrivial(fmt.Sprint(pairs, dl))
				for k := range prev {
					if prop == "N03" {
						if x := diff(pm[k], look(prev[k], pm[k]), allParts); x != "" {
							h.fail(fmt.Sprintf("BackPropagate(%v), node %d of the previous layer: %s", pairs, k, x), "", "")
						}
					}
					if prop == "N04" && po != owner {
						if x := diff(om[k], look(orig[k], om[k]), allParts); x != "" {
							h.fail(fmt.Sprintf("BackPropagate by owner %d changed node %d of the previous layer, which belongs to owner %d: %s", owner, k, po, x), "", "")
						}
					}
				}
			case "copy":
				tag = "N04"
				w.W, w.B = clonef(w.M), w.MB
				cur = &live{cur.n.CopyWeightsAndBiasFromMirror(owner), w, owner, cur.id}
			case "perturb":
				tag = "N04"
				k, v := h.rng.Intn(d.nw), d.val()
				w.W[k] += v
				g, r := cur.n.PurturbWeight(owner, k, v)
				if prop == tag && !near(g, w.W[k]) {
					h.fail("PurturbWeight returns the new weight", w.W[k], g)
				}
				cur = &live{r, w, owner, cur.id}
				parts = "wtovadbcxy"
			case "set":
				tag = "N04"
				v := d.val()
				k := h.rng.Intn(d.nw)
				c := h.rng.Intn(7)
				if !d.adam && c < 3 {
					c += 3
				}
				var r *node.Node
				switch c {
				case 0:
					r = cur.n.SetT(owner, k, v)
					w.T[k] = v
				case 1:
					r = cur.n.SetAdamAvgMom(owner, k, v)
					w.Mom[k] = v
				case 2:
					r = cur.n.SetAdamAvgVel(owner, k, v)
					w.Vel[k] = v
				case 3:
					r = cur.n.SetBias(owner, v)
					w.B = v
				case 4:
					r = cur.n.SetTBias(owner, v)
					w.TB = v
				case 5:
					r = cur.n.SetAdamAvgMomBias(owner, v)
					w.MomB = v
				case 6:
					r = cur.n.SetAdamAvgVelBias(owner, v)
					w.VelB = v
				}
				cur = &live{r, w, owner, cur.id}
			}
			g := look(cur.n, cur.m)
			if tag == prop {
				if x := diff(cur.m, g, parts); x != "" {
					h.fail(op+": "+x, "", "")
				}
			}
			cur.m = g
			if prop == "N04" {
				for k, f := range fz {
					if x := diff(f.m, look(f.n, f.m), allParts); x != "" {
						h.fail(fmt.Sprintf("%s by owner %d changed an older version (%d) it does not own: %s", op, owner, k, x), "", "")
						break
					}
				}
			}
		}
		if prop == "N04" && forks > 1 {
			h.nontrivial(fmt.Sprint(d.ops))
		}
	}
}

func sortStrings(a []string) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func TestVerifN01(t *testing.T) {
	nodeHistory(t, "N01", "random histories of activations, softmax, backpropagation and writes on versions of one node, every activation compared with bias plus weighted sum; non-trivial: a non-zero activation",
		map[string]int{"act": 8, "setact": 2, "softmax": 1, "back1": 2, "inc": 1, "set": 1, "perturb": 1})
}
func TestVerifN02(t *testing.T) {
	nodeHistory(t, "N02", "random histories on versions of one node; every softmax delta compared with its formula; non-trivial: the node is a label",
		map[string]int{"act": 5, "softmax": 6, "back1": 1, "inc": 1, "setact": 1})
}
func TestVerifN03(t *testing.T) {
	nodeHistory(t, "N03", "random histories on versions of one node with random previous layers; every gradient accumulation compared with its formula; non-trivial: a backward step",
		map[string]int{"act": 5, "softmax": 3, "back1": 4, "back": 3, "inc": 3, "setact": 1})
}
func TestVerifN04(t *testing.T) {
	nodeHistory(t, "N04", "random histories forking versions under unused owners; every older version is compared with its recorded content after every step; non-trivial: at least two forks",
		map[string]int{"act": 3, "softmax": 2, "back1": 2, "back": 1, "inc": 2, "setact": 2, "set": 4, "copy": 2, "perturb": 2})
}
