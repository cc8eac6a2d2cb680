package props

import (
	"fmt"
	"math"
	"runtime"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{
		ID: "C01",
		Families: []core.Family{
			{Name: "growth", Quick: len(ladders), Thorough: len(ladders), Run: c01Growth},
			{Name: "random", Quick: 240000, Thorough: 2500000, Run: c01Random},
			{Name: "big", Quick: 12000, Thorough: 150000, Run: c01Big},
			{Name: "explicit", Quick: 24000, Thorough: 200000, Run: c01Explicit},
			{Name: "topo", Quick: 90000, Thorough: 600000, Run: c01Topo},
			{Name: "ladder", Quick: len(ladders) * 400, Thorough: len(ladders) * 300, Run: c01Ladder},
			{Name: "multi", Quick: 40000, Thorough: 400000, Run: c01Multi},
			{Name: "alias", Quick: 15000, Thorough: 100000, Run: c01Alias},
			{Name: "deep", Quick: 480, Thorough: 1200, Run: c01Deep},
			{Name: "giant", Quick: 20, Thorough: 100, Run: c01Giant},
		},
		Rule: "programs over the public API (random, exhaustive small topologies, ladders, shared leaves, deep and wide graphs); " +
			"distinct and non-trivial = distinct program structure (ops, operand wiring, shapes, arguments) in which at least one tracked tensor feeds two consumers or the graph has depth >= 3",
		Assumptions: []string{
			"values are drawn where every operation is differentiable and well-conditioned; elsewhere the derivative is not defined or not comparable in floating point",
			"polynomial work is judged on heap allocation counts per back-propagation, not on wall-clock time",
		},
		MinEvents: map[string]uint64{"grads_compared": 10000, "fanout_tensors": 5000, "growth_points": 8},
	})
}

// structSig is the signature of a program without its values.
func structSig(p []prog.Ins, root int) uint64 {
	h := uint64(root)
	for _, in := range p {
		h = core.HashS(h, in.Op)
		for _, a := range in.A {
			h = core.Hash(h, uint64(a))
		}
		for _, d := range in.D {
			h = core.Hash(h, uint64(d)+99)
		}
		for _, r := range in.R {
			h = core.Hash(h, uint64(r.From), uint64(r.To))
		}
		h = core.Hash(h, uint64(in.I), math.Float64bits(in.F), uint64(in.Cut))
		if in.Tracked {
			h = core.Hash(h, 5)
		}
	}
	return h
}

// shapeStats counts fan-out and depth of the part of the program root depends on.
func shapeStats(p []prog.Ins, reach []bool) (fan, depth int) {
	use := make([]int, len(p))
	dep := make([]int, len(p))
	for i, in := range p {
		if !reach[i] {
			continue
		}
		for _, a := range in.A {
			if reach[a] && in.Cut == 0 {
				use[a]++
				if dep[a]+1 > dep[i] {
					dep[i] = dep[a] + 1
				}
			}
		}
		if dep[i] > depth {
			depth = dep[i]
		}
	}
	for _, u := range use {
		if u > 1 {
			fan++
		}
	}
	return
}

// bpCheck back-propagates from root and compares every gradient of the graph with the tape.
func bpCheck(c *core.Ctx, p []prog.Ins, tape *ref.Tape, rts []*ref.T, root int) {
	c.Detail(func() string { return fmt.Sprintf("root t%d; %s", root, prog.Show(p)) })
	ts := exec(c, p)
	// forward sanity: same shapes (values are other properties' business, but gross divergence explains gradients)
	tr := trackedOf(p)
	reach := reachOf(p, tr, root)
	if err := tensor.BackPropagate(ts[root]); err != nil {
		c.Violate("BackPropagate(t%d) failed: %v", root, err)
	}
	g, tol := tape.Backward(rts[root], false)
	var gk, tolk []float64
	known := ""
	for i := range p {
		if !reach[i] {
			continue
		}
		m := gradMismatch(ts[i], rts[i], g, tol)
		c.Count("grads_compared", 1)
		if m == "" {
			continue
		}
		if tape.Find {
			if gk == nil {
				gk, tolk = tape.Backward(rts[root], true)
			}
			if gradMismatch(ts[i], rts[i], gk, tolk) == "" {
				known = fmt.Sprintf("t%d: %s", i, m)
				continue
			}
		}
		c.Violate("t%d (%s): %s", i, p[i].Op, m)
	}
	if known != "" {
		c.Known(findBroadcast, "%s in %s", known, prog.Show(p))
	}
	fan, depth := shapeStats(p, reach)
	c.Count("fanout_tensors", fan)
	c.Max("depth", float64(depth))
	c.Max("fanout_tensors_in_one_graph", float64(fan))
	if fan > 0 || depth >= 3 {
		c.Eval(structSig(p, root))
	}
	if c.Idx%997 == 0 {
		c.Sample(fmt.Sprintf("root t%d; %s", root, prog.Show(p)))
	}
}

// grow adds leaves and n random operations; returns ids of all tensors.
func grow(b *prog.Builder, leaves, ops int, cutProb int) {
	for i := 0; i < leaves; i++ {
		b.Leaf(b.Shape(), i == 0 || b.R.Int(4) > 0)
	}
	fails := 0
	for n := 0; n < ops && fails < ops*12; {
		cands := make([]int, len(b.P))
		for i := range cands {
			cands[i] = i
		}
		if b.C.FreshProb > 0 && b.R.P(b.C.FreshProb) {
			b.Leaf(b.Shape(), b.R.Bool())
			n++
			continue
		}
		if id, ok := b.RandOp(cands); ok {
			if cutProb > 0 && b.R.P(cutProb) {
				b.Cut(id, b.R.In(1, 2))
			}
			n++
		} else {
			fails++
		}
	}
}

// pickRoot picks a tracked root, preferring late tensors.
func pickRoot(r *core.R, p []prog.Ins) (int, bool) {
	tr := trackedOf(p)
	var c []int
	for i := range p {
		if tr[i] && p[i].Op != "leaf" {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return 0, false
	}
	if r.Int(4) > 0 {
		return c[len(c)-1-r.Int((len(c)+2)/3)], true
	}
	return c[r.Int(len(c))], true
}

func c01Random(c *core.Ctx) {
	conf := prog.GenConf{MaxRank: 3, MaxDim: 3, MaxElems: 24, Cmp: true, FreshProb: 12}
	if c.Idx%5 == 0 {
		conf = prog.GenConf{MaxRank: 2, MaxDim: 2, MaxElems: 4, Cmp: c.R.Bool(), FreshProb: 0}
	}
	b := prog.NewBuilder(c.R, conf)
	cut := 0
	if c.R.P(3) {
		cut = 8
	}
	grow(b, c.R.In(1, 4), c.R.In(2, 22), cut)
	root, ok := pickRoot(c.R, b.P)
	if !ok {
		c.Count("no_tracked_root", 1)
		return
	}
	bpCheck(c, b.P, b.Tape, b.T, root)
}

func c01Big(c *core.Ctx) {
	confs := []prog.GenConf{
		{MaxRank: 5, MaxDim: 4, MaxElems: 200, FreshProb: 10},
		{MaxRank: 3, MaxDim: 9, MaxElems: 400, FreshProb: 10},
		{MaxRank: 2, MaxDim: 40, MaxElems: 300, FreshProb: 10},
		{MaxRank: 6, MaxDim: 2, MaxElems: 64, FreshProb: 10},
	}
	b := prog.NewBuilder(c.R, confs[c.Idx%4])
	ops := c.R.In(8, 60)
	if c.R.P(4) {
		b.C.MaxElems = 12
		b.C.MaxDim = 4
		ops = c.R.In(60, 160)
	}
	grow(b, c.R.In(1, 5), ops, 0)
	root, ok := pickRoot(c.R, b.P)
	if !ok {
		return
	}
	bpCheck(c, b.P, b.Tape, b.T, root)
}

func c01Explicit(c *core.Ctx) {
	b := prog.NewBuilder(c.R, prog.GenConf{MaxRank: 3, MaxDim: 3, MaxElems: 24, Explicit: true})
	grow(b, c.R.In(1, 3), c.R.In(1, 4), 0)
	// make sure an expanding Broadcast is present
	x := c.R.Int(len(b.P))
	b.Try(prog.Ins{Op: "Broadcast", A: []int{x}, D: prog.RandTarget(c.R, b.T[x].Shape, 3, 3)})
	for k := c.R.In(1, 8); k > 0; k-- {
		cands := make([]int, len(b.P))
		for i := range cands {
			cands[i] = i
		}
		b.RandOp(cands)
	}
	root, ok := pickRoot(c.R, b.P)
	if !ok {
		return
	}
	bpCheck(c, b.P, b.Tape, b.T, root)
}

// c01Topo enumerates the wirings of k binary operations over two leaves.
func c01Topo(c *core.Ctx) {
	r := c.R
	k := 3
	total := 4 * 9 * 16
	idx := c.Idx
	if idx >= total*4 {
		k = 4
		idx = int(r.U64() % uint64(total*25))
		if r.P(3) {
			k = 5
			idx = int(r.U64() % uint64(total*25*36))
		}
	}
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 2, MaxDim: 2, MaxElems: 4})
	sh := [][]int{{2}, {}, {2, 2}, {1, 2}}[r.Int(4)]
	b.Leaf(sh, true)
	b.Leaf(sh, r.Int(4) > 0)
	for j := 0; j < k; j++ {
		n := len(b.P)
		pair := idx % (n * n)
		idx /= n * n
		x, y := pair/n, pair%n
		ops := []string{"Mul", "Add", "Sub", "Mul", "ElMax", "Div"}
		if len(sh) == 2 && sh[0] == sh[1] {
			ops = append(ops, "MatMul")
		}
		if len(sh) > 0 {
			ops = append(ops, "Patch")
		}
		st := r.Int(len(ops))
		done := false
		for q := 0; q < len(ops) && !done; q++ {
			_, done = b.Try(prog.Ins{Op: ops[(st+q)%len(ops)], A: []int{x, y}})
		}
		if !done {
			c.Count("topo_skipped", 1)
			return
		}
	}
	root := len(b.P) - 1
	if !trackedOf(b.P)[root] {
		return
	}
	bpCheck(c, b.P, b.Tape, b.T, root)
}

// ---- ladders: reconverging paths, repeated ----

type ladder struct {
	name string
	step func(b *prog.Builder, y int) int // appends one rung
	prev bool
}

func add(b *prog.Builder, op string, a ...int) int {
	return b.Push(prog.Ins{Op: op, A: a})
}

func addF(b *prog.Builder, op string, f float64, a ...int) int {
	return b.Push(prog.Ins{Op: op, A: a, F: f})
}

func addI(b *prog.Builder, op string, i int, a ...int) int {
	return b.Push(prog.Ins{Op: op, A: a, I: i})
}

var ladders = []ladder{
	{name: "double", step: func(b *prog.Builder, y int) int { return addF(b, "Scale", 0.5, add(b, "Add", y, y)) }},
	{name: "residual", step: func(b *prog.Builder, y int) int {
		return addF(b, "Scale", 0.6, add(b, "Add", y, add(b, "Sin", y)))
	}},
	{name: "diamond", step: func(b *prog.Builder, y int) int {
		return add(b, "Tanh", add(b, "Add", addF(b, "Scale", 1.1, y), add(b, "Cos", y)))
	}},
	{name: "gate", step: func(b *prog.Builder, y int) int {
		return add(b, "Add", add(b, "Mul", add(b, "Tanh", y), add(b, "Cos", y)), addF(b, "Scale", 0.5, y))
	}},
	{name: "fibonacci", prev: true, step: func(b *prog.Builder, y int) int {
		return add(b, "Add", addF(b, "Scale", 0.6, y), addF(b, "Scale", 0.4, y-1))
	}},
	{name: "concat", step: func(b *prog.Builder, y int) int {
		return addI(b, "AvgAlong", 0, add3(b, y))
	}},
	{name: "patch", step: func(b *prog.Builder, y int) int {
		id := add(b, "Patch", addF(b, "Scale", 0.9, y), add(b, "Sin", y))
		return add(b, "Add", id, addF(b, "Scale", 0.3, y))
	}},
	{name: "triple", step: func(b *prog.Builder, y int) int {
		u := add(b, "Add", add(b, "Sin", y), add(b, "Cos", y))
		return addF(b, "Scale", 0.4, add(b, "Add", u, y))
	}},
}

func add3(b *prog.Builder, y int) int {
	u := addI(b, "UnSqueeze", 0, y)
	return addI(b, "Concat", 0, u, u, u)
}

func buildLadder(r *core.R, l ladder, depth int, shape []int) *prog.Builder {
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 4, MaxDim: 4, MaxElems: 64})
	y := b.Leaf(shape, true)
	if l.prev {
		y = addF(b, "Scale", 0.9, y)
	}
	for i := 0; i < depth; i++ {
		y = l.step(b, y)
	}
	return b
}

func mallocs() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.Mallocs
}

// bpMallocs builds the ladder and counts the heap allocations of one back-propagation.
func bpMallocs(c *core.Ctx, l ladder, depth int) float64 {
	b := buildLadder(core.NewR(uint64(depth)*77+c.Seed), l, depth, []int{2})
	c.Detail(func() string { return fmt.Sprintf("ladder %s of depth %d", l.name, depth) })
	ts := exec(c, b.P)
	m0 := mallocs()
	err := tensor.BackPropagate(ts[len(ts)-1])
	m1 := mallocs()
	if err != nil {
		c.Violate("BackPropagate failed: %v", err)
	}
	c.Count("growth_points", 1)
	return float64(m1 - m0)
}

// c01Growth: the work of one back-propagation must grow polynomially with the ladder's depth: from depth
// 6 to 12 a rule-per-edge walk doubles, a cubic one grows 8 times, a walk over paths at least 64 times.
func c01Growth(c *core.Ctx) {
	l := ladders[c.Idx%len(ladders)]
	m6, m12 := bpMallocs(c, l, 6), bpMallocs(c, l, 12)
	if m12 > 12*m6+5000 {
		c.Violate("ladder %s: back-propagation allocates %v objects at depth 6 and %v at depth 12: more than polynomial growth of degree 3", l.name, m6, m12)
	}
	m24 := bpMallocs(c, l, 24)
	if m24 > 12*m12+5000 {
		c.Violate("ladder %s: back-propagation allocates %v objects at depth 12 and %v at depth 24: more than polynomial growth of degree 3", l.name, m12, m24)
	}
	m300, m600 := bpMallocs(c, l, 300), bpMallocs(c, l, 600)
	if m600 > 10*m300 {
		c.Violate("ladder %s: back-propagation allocates %v objects at depth 300 and %v at depth 600", l.name, m300, m600)
	}
	c.Max("mallocs_ratio_12_over_6."+l.name, m12/m6)
	c.Max("mallocs_ratio_600_over_300."+l.name, m600/m300)
	c.EvalS(l.name)
	c.Sample(fmt.Sprintf("ladder %s: %v, %v, %v, %v, %v allocations at depth 6, 12, 24, 300, 600", l.name, m6, m12, m24, m300, m600))
}

func c01Ladder(c *core.Ctx) {
	l := ladders[c.Idx%len(ladders)]
	depth := 1 + (c.Idx/len(ladders))%40
	sh := [][]int{{2}, {3}, {1}, {2, 2}, {1, 3}, {2, 1, 2}, {5}}[c.R.Int(7)]
	b := buildLadder(c.R, l, depth, sh)
	root := len(b.P) - 1
	bpCheck(c, b.P, b.Tape, b.T, root)
}

// c01Multi: several graphs over shared leaves, built first, back-propagated in random order.
func c01Multi(c *core.Ctx) {
	r := c.R
	nl := r.In(1, 3)
	ng := r.In(2, 5)
	if r.P(10) {
		ng = r.In(6, 14)
	}
	conf := prog.GenConf{MaxRank: 2, MaxDim: 3, MaxElems: 9}
	b := prog.NewBuilder(r, conf)
	for i := 0; i < nl; i++ {
		b.Leaf(b.Shape(), i == 0 || r.Int(4) > 0)
	}
	type graph struct{ from, to, root int }
	var gs []graph
	for k := 0; k < ng; k++ {
		from := len(b.P)
		for n, fails := r.In(1, 8), 0; n > 0 && fails < 60; {
			var cands []int
			for i := 0; i < nl; i++ {
				cands = append(cands, i)
			}
			for i := from; i < len(b.P); i++ {
				cands = append(cands, i)
			}
			if _, ok := b.RandOp(cands); ok {
				n--
			} else {
				fails++
			}
		}
		tr := trackedOf(b.P)
		var roots []int
		for i := from; i < len(b.P); i++ {
			if tr[i] {
				roots = append(roots, i)
			}
		}
		if r.P(8) { // the leaf itself as root
			gs = append(gs, graph{from, from, 0})
			continue
		}
		if len(roots) > 0 {
			gs = append(gs, graph{from, len(b.P), roots[len(roots)-1-r.Int((len(roots)+1)/2)]})
		}
	}
	if len(gs) < 2 {
		return
	}
	order := r.Perm(len(gs))
	c.Detail(func() string {
		return fmt.Sprintf("graphs %v back-propagated in order %v; %s", gs, order, prog.Show(b.P))
	})
	ts := exec(c, b.P)
	tr := trackedOf(b.P)
	sumG := make([]float64, b.Tape.Len())
	sumA := make([]float64, b.Tape.Len())
	touched := make([]bool, nl)
	for _, k := range order {
		gr := gs[k]
		if err := tensor.BackPropagate(ts[gr.root]); err != nil {
			c.Violate("BackPropagate(t%d) failed: %v", gr.root, err)
		}
		g, tol := b.Tape.Backward(b.T[gr.root], false)
		reach := reachOf(b.P, tr, gr.root)
		for i := gr.from; i < gr.to; i++ {
			if reach[i] {
				if m := gradMismatch(ts[i], b.T[i], g, tol); m != "" {
					c.Violate("graph %d: t%d (%s): %s", k, i, b.P[i].Op, m)
				}
				c.Count("grads_compared", 1)
			}
		}
		for i := 0; i < nl; i++ {
			if !reach[i] {
				continue
			}
			touched[i] = true
			for _, n := range b.T[i].N {
				sumG[n] += g[n]
				sumA[n] += tol[n]
			}
			if m := gradMismatch(ts[i], b.T[i], sumG, sumA); m != "" {
				c.Violate("leaf t%d after graph %d: %s", i, k, m)
			}
			c.Count("leaf_sums_compared", 1)
		}
	}
	// earlier graphs keep their own gradients
	for _, gr := range gs {
		g, tol := b.Tape.Backward(b.T[gr.root], false)
		reach := reachOf(b.P, tr, gr.root)
		for i := gr.from; i < gr.to; i++ {
			if reach[i] {
				if m := gradMismatch(ts[i], b.T[i], g, tol); m != "" {
					c.Violate("after all back-propagations t%d (%s) of another graph changed: %s", i, b.P[i].Op, m)
				}
			}
		}
	}
	c.Eval(core.Hash(structSig(b.P, 0), uint64(len(gs))))
	if c.Idx%997 == 0 {
		c.Sample(fmt.Sprintf("graphs %v in order %v; %s", gs, order, prog.Show(b.P)))
	}
}

// c01Alias: one tensor in every operand position, feeding further uses.
func c01Alias(c *core.Ctx) {
	r := c.R
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 3, MaxDim: 3, MaxElems: 27})
	n := r.In(1, 3)
	sh := [][]int{{n}, {n, n}, {2, n, n}, {1, n, n}, {}}[r.Int(5)]
	x := b.Leaf(sh, true)
	if r.Bool() {
		if y, ok := b.Try(prog.Ins{Op: "Sin", A: []int{x}}); ok {
			x = y
		}
	}
	ids := []int{x}
	for k := r.In(1, 5); k > 0; k-- {
		y := ids[r.Int(len(ids))]
		s := b.T[y].Shape
		ops := []string{"Add", "Sub", "Mul", "Div", "ElMax", "ElMin"}
		if len(s) > 0 {
			ops = append(ops, "Dot", "Concat", "Patch")
		}
		if len(s) > 1 && s[len(s)-1] == s[len(s)-2] {
			ops = append(ops, "MatMul", "MatMul")
		}
		in := prog.Ins{Op: ops[r.Int(len(ops))], A: []int{y, y}}
		if in.Op == "Concat" {
			in.I = r.Int(len(s))
			for q := r.In(1, 3); q > 0; q-- {
				in.A = append(in.A, y)
			}
		}
		if in.Op == "Patch" {
			in.R, in.RNil = nil, r.Bool()
		}
		if id, ok := b.Try(in); ok {
			ids = append(ids, id)
		}
	}
	if len(ids) < 2 {
		return
	}
	bpCheck(c, b.P, b.Tape, b.T, ids[len(ids)-1])
}

// c01Deep: long chains and wide fan-out, on values kept tame.
func c01Deep(c *core.Ctx) {
	n := 1500
	if c.Thorough() {
		n = 12000
	}
	c01Long(c, n/2+c.R.Int(n))
}

// c01Giant: the same with more than 2^16 nodes, consumers or operands.
func c01Giant(c *core.Ctx) {
	n := 66000 + c.R.Int(40000)
	switch c.Idx % 5 {
	case 2:
		n /= 4 // the library's Concat takes quadratic time in the number of operands
	case 3, 4:
		n *= 4 // one member for every 4
	}
	c01Long(c, n)
}

func c01Long(c *core.Ctx, n int) {
	r := c.R
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 2, MaxDim: 4, MaxElems: 1 << 20})
	x := b.Leaf([]int{r.In(1, 3)}, true)
	kind := c.Idx % 5
	switch kind {
	case 0: // chain
		y := x
		for i := 0; i < n; i++ {
			y = addF(b, "Scale", []float64{-1, 1, 1.0001, 0.9999}[r.Int(4)], y)
		}
	case 1: // wide fan-out, folded
		acc := addF(b, "Scale", 0.5, x)
		for i := 0; i < n; i++ {
			u := addF(b, "Scale", r.Range(-1, 1), x)
			acc = add(b, "Add", acc, u)
		}
	case 2: // wide concat
		var xs []int
		for i := 0; i < n/3; i++ {
			xs = append(xs, addF(b, "Scale", r.Range(-1, 1), x))
		}
		addI(b, "SumAlong", 0, addI(b, "Concat", 0, xs...))
	case 3: // recurrent cell with a shared weight
		w := b.Leaf(b.T[x].Shape, true)
		y := x
		for i := 0; i < n/4; i++ {
			y = add(b, "Tanh", add(b, "Add", add(b, "Mul", w, y), x))
		}
	case 4: // balanced tree over one leaf
		lv := []int{}
		for i := 0; i < n/4; i++ {
			lv = append(lv, addF(b, "Scale", r.Range(-1, 1), x))
		}
		for len(lv) > 1 {
			var nx []int
			for i := 0; i+1 < len(lv); i += 2 {
				nx = append(nx, addF(b, "Scale", 0.7, add(b, "Sub", lv[i], lv[i+1])))
			}
			if len(lv)%2 == 1 {
				nx = append(nx, lv[len(lv)-1])
			}
			lv = nx
		}
	}
	c.Detail(func() string { return fmt.Sprintf("deep graph kind %d with %d tensors", kind, len(b.P)) })
	p := b.P
	bpCheck(c, p, b.Tape, b.T, len(p)-1)
	c.Detail(func() string { return fmt.Sprintf("deep graph kind %d with %d tensors", kind, len(p)) })
}
