package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

func init() {
	nu := len(c08Unary) * len(stateNames) * 2
	nb := len(c08Binary) * len(stateNames) * len(stateNames)
	core.Register(&core.Prop{
		ID: "C08",
		Families: []core.Family{
			{Name: "gradients", Quick: 25000, Thorough: 400000, Run: gradObjects},
			{Name: "unary-matrix", Quick: nu * 4, Thorough: nu * 20, Run: c08UnaryMatrix},
			{Name: "binary-matrix", Quick: nb * 2, Thorough: nb * 20, Run: c08BinaryMatrix},
			{Name: "concat-matrix", Quick: 3000, Thorough: 60000, Run: c08ConcatMatrix},
			{Name: "leaves", Quick: 3000, Thorough: 40000, Run: c08Leaves},
			{Name: "histories", Quick: 40000, Thorough: 800000, Run: c08Histories},
			{Name: "tiny-histories", Quick: 60000, Thorough: 1000000, Run: c08Tiny},
			{Name: "long", Quick: 300, Thorough: 6000, Run: c08Long},
		},
		Rule: "histories of creation, operations, BackPropagate and ResetGradContext: every operation with operands in every combination of 9 states (untracked, tracked leaf, tracked result, spent leaf, spent result, result of a spent tensor, reset leaf tracked/untracked, reset spent) enumerated, longer histories drawn under the property's two provisos; " +
			"after each event Gradient() nil/non-nil of every tensor is compared with the state-machine model, values and foreign gradients with snapshots, and hidden state is probed by replaying the history and back-propagating a probe; distinct = distinct event sequence (kinds, operands, states)",
		Assumptions: []string{
			"not judged (statement ambiguous): operations mixing a tracked tensor with a gradient tensor or with the comparison result of a spent tensor",
		},
		MinEvents: map[string]uint64{"probes": 100000, "bp": 50000, "resets": 5000, "untracked_bp": 5000},
	})
}

var stateNames = []string{"untracked", "leaf", "result", "spent-leaf", "spent-result", "from-spent", "reset-true", "reset-false", "spent-reset-true"}

var c08Unary = []string{"Slice", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Broadcast", "SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong",
	"Scale", "Pow", "Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh"}
var c08Binary = []string{"Patch", "Concat", "ElMax", "ElMin", "Add", "Sub", "Mul", "Div", "Dot", "MatMul", "Eq", "Ne", "Gt", "Ge", "Lt", "Le"}

// hctx models one gradient context.
type hctx struct {
	tracked, part, dirty, grad, amb, leaf bool
	par                                   []*hctx
}

type hev struct {
	kind string // op, bp, reset, gradop
	in   prog.Ins
	id   int
	b    bool
}

func (e hev) String() string {
	switch e.kind {
	case "op":
		return e.in.String()
	case "bp":
		return fmt.Sprintf("BP(t%d)", e.id)
	case "reset":
		return fmt.Sprintf("Reset(t%d,%v)", e.id, e.b)
	}
	return fmt.Sprintf("%s(t%d)", e.kind, e.id)
}

func showHist(h []hev) string {
	var b strings.Builder
	n := 0
	for _, e := range h {
		if e.kind == "op" {
			fmt.Fprintf(&b, "t%d=", n)
			n++
		}
		b.WriteString(e.String() + "; ")
	}
	return b.String()
}

type hmodel struct{ c []*hctx }

// ambiguous operations are not generated.
func (m *hmodel) ambiguous(in prog.Ins) bool {
	amb, tr := false, false
	for _, a := range in.A {
		amb = amb || m.c[a].amb
		tr = tr || m.c[a].tracked
	}
	return amb && tr
}

func (m *hmodel) op(in prog.Ins) {
	x := &hctx{leaf: in.Op == "leaf", tracked: in.Op == "leaf" && in.Tracked}
	any := false
	for _, a := range in.A {
		p := m.c[a]
		any = any || p.tracked
		x.dirty = x.dirty || p.dirty || p.part
		x.amb = x.amb || p.amb
	}
	switch {
	case x.leaf:
	case prog.IsCmp(in.Op):
		x.amb = x.amb || x.dirty
		x.dirty = false
	case any && !x.dirty:
		x.tracked = true
		for _, a := range in.A {
			x.par = append(x.par, m.c[a])
		}
	}
	m.c = append(m.c, x)
}

func reachSet(x *hctx, set map[*hctx]bool) {
	if !x.tracked || set[x] {
		return
	}
	set[x] = true
	for _, p := range x.par {
		reachSet(p, set)
	}
}

func (m *hmodel) canBP(id int) bool {
	set := map[*hctx]bool{}
	reachSet(m.c[id], set)
	for x := range set {
		if x.part && !x.leaf {
			return false
		}
	}
	return true
}

func (m *hmodel) bp(id int) map[*hctx]bool {
	set := map[*hctx]bool{}
	reachSet(m.c[id], set)
	for x := range set {
		x.part, x.grad = true, true
	}
	return set
}

func (m *hmodel) canReset(id int) bool {
	for i, x := range m.c {
		if i == id || !x.tracked || x.part {
			continue
		}
		set := map[*hctx]bool{}
		reachSet(x, set)
		if set[m.c[id]] {
			return false
		}
		// untracked operands of a tracked result also stay in its graph
		for y := range set {
			for _, p := range y.par {
				if p == m.c[id] {
					return false
				}
			}
		}
	}
	return true
}

func (m *hmodel) reset(id int, b bool) { m.c[id] = &hctx{leaf: true, tracked: b} }

// hrun is a live history: real tensors next to the model.
type hrun struct {
	c  *core.Ctx
	m  *hmodel
	ts []tensor.Tensor
	sh [][]int
	vs [][]float64
}

type gsnap struct {
	ok bool
	s  []int
	v  []float64
}

func (h *hrun) grads() []gsnap {
	o := make([]gsnap, len(h.ts))
	for i, t := range h.ts {
		if g := t.Gradient(); g != nil {
			s, v := read(h.c, g, fmt.Sprintf("gradient of t%d", i))
			o[i] = gsnap{true, s, v}
		}
	}
	return o
}

// nilness compares gradient presence of every tensor with the model.
func (h *hrun) nilness(when string) {
	for i, t := range h.ts {
		if got := t.Gradient() != nil; got != h.m.c[i].grad {
			h.c.Violate("%s: t%d has gradient: %v, want %v", when, i, got, h.m.c[i].grad)
		}
	}
}

func (h *hrun) step(e hev, check bool) {
	c := h.c
	switch e.kind {
	case "op":
		t, err := prog.Apply(e.in, h.ts, nil)
		t = must(c, t, err)(e.String())
		h.ts = append(h.ts, t)
		h.m.op(e.in)
		if check {
			s, v := read(c, t, "result")
			h.sh, h.vs = append(h.sh, s), append(h.vs, v)
		}
	case "bp":
		var before []gsnap
		if check {
			before = h.grads()
		}
		part := h.m.bp(e.id)
		if err := tensor.BackPropagate(h.ts[e.id]); err != nil {
			c.Violate("%s failed: %v", e, err)
		}
		c.Count("bp", 1)
		if len(part) == 0 {
			c.Count("untracked_bp", 1)
		}
		if check {
			after := h.grads()
			for i := range h.ts {
				if part[h.m.c[i]] {
					if !after[i].ok {
						c.Violate("after %s: t%d has no gradient", e, i)
					}
					if !prog.SameShape(after[i].s, h.ts[i].Shape()) {
						c.Violate("after %s: t%d has a gradient of shape %v", e, i, after[i].s)
					}
					continue
				}
				if after[i].ok != before[i].ok {
					c.Violate("after %s: t%d, which the root was not computed from, has gradient: %v (was %v)", e, i, after[i].ok, before[i].ok)
				}
				for k := range after[i].v {
					if !prog.SameBits(after[i].v[k], before[i].v[k]) {
						c.Violate("after %s: gradient element %d of t%d, which the root was not computed from, changed from %v to %v", e, k, i, before[i].v[k], after[i].v[k])
					}
				}
			}
		}
	case "reset":
		h.ts[e.id].ResetGradContext(e.b)
		h.m.reset(e.id, e.b)
		c.Count("resets", 1)
	case "gradop":
		// results of gradient tensors (with untracked, unspent partners) are untracked
		g := h.ts[e.id].Gradient()
		if g == nil {
			break
		}
		before := h.grads()
		y := g.Scale(2)
		if z, err := y.Mul(mk(c, y.Shape(), make([]float64, y.NElems()), false)); err == nil {
			y = z
		}
		if err := tensor.BackPropagate(y); err != nil {
			c.Violate("BackPropagate from a result of a gradient tensor failed: %v", err)
		}
		if y.Gradient() != nil || g.Gradient() != nil {
			c.Violate("a result of the gradient tensor of t%d is tracked", e.id)
		}
		if err := tensor.BackPropagate(g); err != nil {
			c.Violate("BackPropagate from a gradient tensor failed: %v", err)
		}
		if g.Gradient() != nil {
			c.Violate("the gradient tensor of t%d is tracked", e.id)
		}
		after := h.grads()
		for i := range after {
			if after[i].ok != before[i].ok {
				c.Violate("back-propagating from a result of the gradient of t%d changed t%d", e.id, i)
			}
			for k := range after[i].v {
				if !prog.SameBits(after[i].v[k], before[i].v[k]) {
					c.Violate("back-propagating from a result of the gradient of t%d changed the gradient of t%d", e.id, i)
				}
			}
		}
		c.Count("gradops", 1)
	}
	if check {
		h.nilness("after " + e.String())
	}
}

func newRun(c *core.Ctx) *hrun { return &hrun{c: c, m: &hmodel{}} }

func replayHist(c *core.Ctx, h []hev) *hrun {
	r := newRun(c)
	for _, e := range h {
		r.step(e, false)
	}
	return r
}

// probe replays the history and observes the hidden state of tensor t.
func probe(c *core.Ctx, h []hev, t int, kind int) {
	run := replayHist(c, h)
	n := len(run.ts)
	shape := run.ts[t].Shape()
	what := ""
	switch kind {
	case 0: // a single-operand result of t
		run.step(hev{kind: "op", in: prog.Ins{Op: "Scale", A: []int{t}, F: 2}}, false)
		what = "probe t.Scale(2)"
		if !run.m.canBP(n) {
			return
		}
		run.stepProbe(hev{kind: "bp", id: n}, what, t)
	case 1: // a result of t and a fresh tracked leaf
		if run.m.c[t].amb {
			return
		}
		run.step(hev{kind: "op", in: prog.Ins{Op: "leaf", D: shape, V: make([]float64, ref.Prod(shape)), Tracked: true}}, false)
		run.step(hev{kind: "op", in: prog.Ins{Op: "Add", A: []int{t, n}}}, false)
		if !run.m.canBP(n + 1) {
			return
		}
		run.stepProbe(hev{kind: "bp", id: n + 1}, "probe t.Add(fresh tracked leaf)", t)
	case 2, 3: // reset, then a result
		if !run.m.canReset(t) {
			return
		}
		run.step(hev{kind: "reset", id: t, b: kind == 2}, false)
		run.nilness(fmt.Sprintf("after Reset(t%d)", t))
		run.step(hev{kind: "op", in: prog.Ins{Op: "Scale", A: []int{t}, F: 3}}, false)
		run.stepProbe(hev{kind: "bp", id: n}, fmt.Sprintf("probe t.Scale(3) after Reset(%v)", kind == 2), t)
	case 4: // back-propagate from t itself
		if !run.m.canBP(t) {
			return
		}
		run.stepProbe(hev{kind: "bp", id: t}, "probe BP(t)", t)
	}
	c.Count("probes", 1)
	c.Count(fmt.Sprintf("probe.%d", kind), 1)
}

func (h *hrun) stepProbe(e hev, what string, t int) {
	before := h.grads()
	part := h.m.bp(e.id)
	if err := tensor.BackPropagate(h.ts[e.id]); err != nil {
		h.c.Violate("%s of t%d: BackPropagate failed: %v", what, t, err)
	}
	for i, x := range h.ts {
		g := x.Gradient()
		if (g != nil) != h.m.c[i].grad {
			h.c.Violate("%s of t%d: afterwards t%d has gradient: %v, want %v", what, t, i, g != nil, h.m.c[i].grad)
		}
		if !part[h.m.c[i]] && before[i].ok {
			_, v := read(h.c, g, "gradient")
			for k := range v {
				if !prog.SameBits(v[k], before[i].v[k]) {
					h.c.Violate("%s of t%d: gradient of t%d, which is not in the probe's graph, changed", what, t, i)
				}
			}
		}
	}
}

// finish compares forward values with an untracked run and probes tensors.
func finish(c *core.Ctx, h []hev, live *hrun, probes int) {
	// values never depend on tracking, back-propagation or resets
	var plain []tensor.Tensor
	for _, e := range h {
		if e.kind != "op" {
			continue
		}
		in := e.in
		in.Tracked = false
		t, err := prog.Apply(in, plain, nil)
		plain = append(plain, must(c, t, err)("untracked "+e.String()))
	}
	for i := range plain {
		s, v := read(c, plain[i], "untracked result")
		checkBits(c, fmt.Sprintf("t%d at the end of the history vs the untracked run", i), live.ts[i], s, v)
		c.Count("values_compared", len(v))
	}
	n := len(live.ts)
	all := n * 5
	if probes >= all {
		for k := 0; k < all; k++ {
			probe(c, h, k/5, k%5)
		}
		return
	}
	for k := 0; k < probes; k++ {
		probe(c, h, c.R.Int(n), c.R.Int(5))
	}
}

// runHist executes with full checking, then probes.
func runHist(c *core.Ctx, h []hev, probes int) {
	c.Detail(func() string { return showHist(h) })
	live := newRun(c)
	for _, e := range h {
		live.step(e, true)
	}
	finish(c, h, live, probes)
	sig := core.HashS(11, c.Family)
	for _, e := range h {
		sig = core.HashS(sig, e.kind)
		sig = core.Hash(sig, uint64(e.id))
		if e.b || e.in.Tracked {
			sig = core.Hash(sig, 77)
		}
		sig = core.HashS(sig, e.in.Op)
		for _, a := range e.in.A {
			sig = core.Hash(sig, uint64(a))
		}
	}
	c.Eval(sig)
	c.Count("events", len(h))
	if c.Idx%4001 == 0 {
		c.Sample(showHist(h))
	}
}

// hbuild grows a history.
type hbuild struct {
	h []hev
	m *hmodel
}

func (b *hbuild) op(in prog.Ins) int {
	b.h = append(b.h, hev{kind: "op", in: in})
	b.m.op(in)
	return len(b.m.c) - 1
}

func (b *hbuild) bp(id int) {
	b.h = append(b.h, hev{kind: "bp", id: id})
	b.m.bp(id)
}

func (b *hbuild) reset(id int, v bool) {
	b.h = append(b.h, hev{kind: "reset", id: id, b: v})
	b.m.reset(id, v)
}

// inState makes a tensor with the given shape in a given state.
func (b *hbuild) inState(r *core.R, state int, shape []int) int {
	leaf := func(tr bool) int {
		return b.op(prog.Ins{Op: "leaf", D: shape, V: prog.Vals(r, ref.Prod(shape)), Tracked: tr})
	}
	sc := func(x int) int { return b.op(prog.Ins{Op: "Scale", A: []int{x}, F: r.Range(0.5, 2)}) }
	switch stateNames[state] {
	case "untracked":
		if r.Bool() {
			return sc(leaf(false))
		}
		return leaf(false)
	case "leaf":
		return leaf(true)
	case "result":
		return sc(leaf(true))
	case "spent-leaf":
		x := leaf(true)
		if r.Bool() {
			b.bp(x)
		} else {
			b.bp(sc(x))
		}
		return x
	case "spent-result":
		x := sc(leaf(true))
		if r.Bool() {
			b.bp(x)
		} else {
			b.bp(sc(x))
		}
		return x
	case "from-spent":
		x := leaf(true)
		b.bp(sc(x))
		y := sc(x)
		if r.Bool() {
			y = b.op(prog.Ins{Op: "Add", A: []int{leaf(r.Bool()), y}})
		}
		return y
	case "reset-true", "reset-false":
		x := leaf(r.Bool())
		if r.Bool() {
			x = sc(x)
		}
		b.reset(x, stateNames[state] == "reset-true")
		return x
	}
	x := leaf(true)
	y := sc(x)
	b.bp(y)
	if r.Bool() {
		x = y
	}
	b.reset(x, true)
	return x
}

// positive operands keep every operation in its domain.
func absLeaves(h []hev) {
	for i := range h {
		for k, v := range h[i].in.V {
			h[i].in.V[k] = math.Abs(v) + 0.1
		}
	}
}

// c08Single draws operand shapes and arguments for one application of op.
func c08Single(r *core.R, op string) prog.Single {
	if r.P(6) {
		return prog.GenSingle(r, op, 7, 2, 48)
	}
	return prog.GenSingle(r, op, 3, 3, 12)
}

func c08UnaryMatrix(c *core.Ctx) {
	r := c.R
	i := c.Idx
	op := c08Unary[i%len(c08Unary)]
	st := i / len(c08Unary) % len(stateNames)
	b := &hbuild{m: &hmodel{}}
	s := c08Single(r, op)
	if op == "Pow" {
		s.In.F = []float64{2, 3, 0, 1, 0.5}[r.Int(5)]
	}
	x := b.inState(r, st, s.Shapes[0])
	s.In.A = []int{x}
	y := b.op(s.In)
	if r.P(3) && b.m.canBP(y) {
		b.bp(y)
	}
	absLeaves(b.h)
	c.Count("state."+stateNames[st], 1)
	runHist(c, b.h, 1000)
}

func c08BinaryMatrix(c *core.Ctx) {
	r := c.R
	i := c.Idx
	op := c08Binary[i%len(c08Binary)]
	st := i / len(c08Binary)
	s1, s2 := st%len(stateNames), st/len(stateNames)%len(stateNames)
	b := &hbuild{m: &hmodel{}}
	s := c08Single(r, op)
	s.Shapes = s.Shapes[:2]
	x := b.inState(r, s1, s.Shapes[0])
	y := x
	if !(s1 == s2 && prog.SameShape(s.Shapes[0], s.Shapes[1]) && r.P(4)) {
		y = b.inState(r, s2, s.Shapes[1])
	}
	s.In.A = []int{x, y}
	z := b.op(s.In)
	if r.P(3) && b.m.canBP(z) {
		b.bp(z)
	}
	absLeaves(b.h)
	runHist(c, b.h, 1000)
}

func c08ConcatMatrix(c *core.Ctx) {
	r := c.R
	b := &hbuild{m: &hmodel{}}
	shape := prog.Dims(r, r.In(1, 3), 3, 12)
	if r.P(6) {
		shape = prog.Dims(r, r.In(4, 7), 2, 32)
	}
	in := prog.Ins{Op: "Concat", I: r.Int(len(shape))}
	for k := r.In(2, 5); k > 0; k-- {
		st := r.Int(len(stateNames))
		if r.Bool() {
			st = r.Int(3)
		}
		sh := append([]int{}, shape...)
		sh[in.I] = r.In(1, 3)
		in.A = append(in.A, b.inState(r, st, sh))
	}
	z := b.op(in)
	if r.P(3) && b.m.canBP(z) {
		b.bp(z)
	}
	runHist(c, b.h, 40)
}

// c08Leaves: every constructor honours the requested tracking.
func c08Leaves(c *core.Ctx) {
	r := c.R
	mode := r.Int(4) // nil config, empty config, untracked, tracked
	var conf *tensor.Config
	switch mode {
	case 1:
		conf = &tensor.Config{Device: tensor.CPU}
	case 2, 3:
		conf = &tensor.Config{Device: tensor.CPU, GradTrack: mode == 3}
	}
	tracked := mode == 3
	shape := prog.Dims(r, r.In(0, 4), 3, 30)
	sh := func() []int { return append([]int{}, shape...) }
	names := []string{"Full", "Zeros", "Ones", "Eye", "RandU", "RandN", "TensorOf0", "TensorOf1", "TensorOf2", "TensorOf3", "TensorOf4"}
	name := names[c.Idx%len(names)]
	c.Detail(func() string { return fmt.Sprintf("%s %v with config %+v", name, shape, conf) })
	var t tensor.Tensor
	var err error
	switch name {
	case "Full":
		t, err = tensor.Full(sh(), r.Range(-2, 2), conf)
	case "Zeros":
		t, err = tensor.Zeros(sh(), conf)
	case "Ones":
		t, err = tensor.Ones(sh(), conf)
	case "Eye":
		t, err = tensor.Eye(r.In(1, 4), conf)
	case "RandU":
		t, err = tensor.RandU(sh(), -1, 1, conf)
	case "RandN":
		t, err = tensor.RandN(sh(), 0, 1, conf)
	case "TensorOf0":
		t, err = tensor.TensorOf(1.5, conf)
	case "TensorOf1":
		t, err = tensor.TensorOf([]float64{1, 2}, conf)
	case "TensorOf2":
		t, err = tensor.TensorOf([][]float64{{1, 2}}, conf)
	case "TensorOf3":
		t, err = tensor.TensorOf([][][]float64{{{1}, {2}}}, conf)
	case "TensorOf4":
		t, err = tensor.TensorOf([][][][]float64{{{{1}, {2}}}}, conf)
	}
	t = must(c, t, err)(name)
	if t.Gradient() != nil {
		c.Violate("a new tensor has a gradient")
	}
	if conf != nil { // a later change of the configuration object must not matter
		conf.GradTrack = !conf.GradTrack
	}
	var root tensor.Tensor
	switch r.Int(3) {
	case 0:
		root = t
	case 1:
		root = t.Scale(2)
	default:
		root, err = t.Add(t)
		root = must(c, root, err)("Add")
	}
	if err := tensor.BackPropagate(root); err != nil {
		c.Violate("BackPropagate failed: %v", err)
	}
	if got := t.Gradient() != nil; got != tracked {
		c.Violate("%s with config tracking %v: gradient present %v", name, tracked, got)
	}
	if got := root.Gradient() != nil; got != tracked {
		c.Violate("result of %s with config tracking %v: gradient present %v", name, tracked, got)
	}
	c.Count("leaves", 1)
	c.EvalS(fmt.Sprint(name, mode, shape))
}

// c08Gen draws a history of n events.
func c08Gen(r *core.R, conf prog.GenConf, n int, leaves int, bpP, rsP int) []hev {
	b := &hbuild{m: &hmodel{}}
	pb := prog.NewBuilder(r, conf)
	leaf := func(tr bool) {
		id := pb.Leaf(pb.Shape(), tr)
		b.op(pb.P[id])
	}
	for i := 0; i < leaves; i++ {
		leaf(i == 0 || r.Bool())
	}
	for tries := 0; len(b.h) < n && tries < n*10; tries++ {
		k := len(pb.P)
		switch q := r.Int(100); {
		case q < bpP:
			id := r.Int(k)
			if r.Bool() {
				id = k - 1 - r.Int((k+2)/3)
			}
			if b.m.canBP(id) {
				b.bp(id)
			}
		case q < bpP+rsP:
			id := r.Int(k)
			if b.m.canReset(id) {
				b.reset(id, r.Bool())
			}
		case q < bpP+rsP+2:
			b.h = append(b.h, hev{kind: "gradop", id: r.Int(k)})
		case q < bpP+rsP+8:
			leaf(r.Bool())
		default:
			cands := make([]int, k)
			for i := range cands {
				cands[i] = i
			}
			id, ok := pb.RandOp(cands)
			if !ok {
				continue
			}
			if b.m.ambiguous(pb.P[id]) {
				pb.P = pb.P[:id]
				pb.T = pb.T[:id]
				continue
			}
			b.op(pb.P[id])
		}
	}
	return b.h
}

func c08Histories(c *core.Ctx) {
	r := c.R
	conf := prog.GenConf{MaxRank: 3, MaxDim: 3, MaxElems: 12, Cmp: true, Explicit: true}
	h := c08Gen(r, conf, r.In(5, 26), r.In(1, 3), []int{8, 15, 25}[r.Int(3)], []int{5, 12, 20}[r.Int(3)])
	runHist(c, h, 12)
}

func c08Tiny(c *core.Ctx) {
	r := c.R
	conf := prog.GenConf{MaxRank: 1, MaxDim: 2, MaxElems: 2, Cmp: r.P(3)}
	h := c08Gen(r, conf, r.In(3, 11), r.In(1, 2), 25, 20)
	runHist(c, h, 14)
}

func c08Long(c *core.Ctx) {
	r := c.R
	conf := prog.GenConf{MaxRank: 2, MaxDim: 3, MaxElems: 8, Cmp: true}
	h := c08Gen(r, conf, r.In(60, 160), 3, 6, 8)
	runHist(c, h, 8)
}
