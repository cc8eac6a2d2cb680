package props

import (
	"errors"
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

var c09Shapes4, c09Shapes3 [][]int

func init() {
	c09Shapes4, c09Shapes3 = c03Enum(4, 3), c03Enum(3, 3)
	n3, n4 := len(c09Shapes3), len(c09Shapes4)
	core.Register(&core.Prop{
		ID: "C09",
		Families: []core.Family{
			{Name: "dims", Quick: 820 * len(dimCtors), Thorough: 820 * len(dimCtors) * 8, Run: c09Dims},
			{Name: "dim-arg", Quick: n4 * 9, Thorough: n4 * 9 * 10, Run: c09DimArg},
			{Name: "pairs", Quick: n3 * n3, Thorough: n3 * n3 * 10, Run: c09Pairs},
			{Name: "targets", Quick: n3 * 20, Thorough: n3 * 400, Run: c09Targets},
			{Name: "range1", Quick: 4 * 81, Thorough: 4 * 81 * 4, Run: c09Range1},
			{Name: "range2", Quick: 81 * 81, Thorough: 81 * 81 * 9, Run: c09Range2},
			{Name: "index", Quick: 180000, Thorough: 800000, Run: c09Index},
			{Name: "concat", Quick: 180000, Thorough: 800000, Run: c09Concat},
			{Name: "ragged", Quick: 180000, Thorough: 800000, Run: c09Ragged},
			{Name: "random", Quick: 360000, Thorough: 1600000, Run: c09Random},
			{Name: "extreme", Quick: 60000, Thorough: 500000, Run: c09Extreme},
			{Name: "nil", Quick: 12000, Thorough: 40000, Run: c09Nil},
			{Name: "components", Quick: 360000, Thorough: 1600000, Run: c09Components},
		},
		Rule: "calls with arbitrary arguments: all dimension lists of length <= 3 over [-2,6] for the constructors, all dims in [-2,6] for all shapes of rank <= 4 with sizes <= 3, all shape pairs of rank <= 3 with sizes <= 3 for every two-operand operation, all single ranges over [-2,6] and all range pairs, enumerated; longer index / range / target / operand lists, ragged and nil nested data of depth 1..4, nil and foreign tensors, invalid configurations and component calls drawn; " +
			"each call must return, without panicking, exactly a result of the defined shape when an independent predicate says the arguments are valid and exactly an error otherwise; distinct = distinct (entry point, arguments)",
		Assumptions: []string{
			"not judged: calls on nil receivers, component structs written as literals other than FC and Input, infinite random bounds, FC.Forward with a feature count different from Inputs (only: no panic, result xor error, shape)",
		},
		MinEvents: map[string]uint64{"expected_errors": 100000, "expected_results": 50000},
	})
}

// verdict judges one call: exactly one of result and error, as predicted.
func verdict(c *core.Ctx, desc string, valid bool, shape []int, t tensor.Tensor, err error) {
	if err != nil && t != nil {
		c.Violate("%s returned a result and an error (%v)", desc, err)
	}
	if err == nil && t == nil {
		c.Violate("%s returned neither a result nor an error", desc)
	}
	if valid {
		c.Count("expected_results", 1)
		if err != nil {
			c.Violate("%s was rejected although its arguments are valid: %v", desc, err)
		}
		if s := t.Shape(); !prog.SameShape(s, shape) {
			c.Violate("%s has shape %v, want %v", desc, s, shape)
		}
		if n := t.NElems(); n != ref.Prod(shape) {
			c.Violate("%s has %d elements, want %d", desc, n, ref.Prod(shape))
		}
	} else {
		c.Count("expected_errors", 1)
		if err == nil {
			c.Violate("%s was accepted (result shape %v) although its arguments are invalid", desc, t.Shape())
		}
		if err.Error() == "" {
			c.Violate("%s returned an empty error", desc)
		}
	}
	c.EvalS(desc)
}

// call runs f with the call's description installed and judges it.
func call(c *core.Ctx, valid bool, shape []int, f func() (tensor.Tensor, error), format string, args ...any) {
	desc := fmt.Sprintf(format, args...)
	c.Detail(func() string { return desc })
	t, err := f()
	verdict(c, desc, valid, shape, t, err)
	if c.Idx%20011 == 0 {
		c.Sample(desc)
	}
}

func positive(d []int) bool {
	for _, x := range d {
		if x <= 0 {
			return false
		}
	}
	return true
}

func randConf(r *core.R) (*tensor.Config, bool) {
	switch r.Int(12) {
	case 0:
		return nil, true
	case 1:
		return &tensor.Config{Device: tensor.Device(r.In(2, 4)), GradTrack: r.Bool()}, false
	case 2:
		return &tensor.Config{Device: tensor.Device(-1)}, false
	case 3:
		return &tensor.Config{GradTrack: r.Bool()}, false
	}
	return &tensor.Config{Device: tensor.CPU, GradTrack: r.Bool()}, true
}

var dimCtors = []string{"Full", "Zeros", "Ones", "RandU", "RandN", "FullInit", "UniformInit", "NormalInit", "HeUInit", "XavierNInit"}

func ctor(name string, d []int, conf *tensor.Config) (tensor.Tensor, error) {
	switch name {
	case "Full":
		return tensor.Full(d, 2.5, conf)
	case "Zeros":
		return tensor.Zeros(d, conf)
	case "Ones":
		return tensor.Ones(d, conf)
	case "RandU":
		return tensor.RandU(d, -1, 1, conf)
	case "RandN":
		return tensor.RandN(d, 0, 1, conf)
	case "FullInit":
		return initializers.NewFull(nil).Init(d)
	case "UniformInit":
		u, err := initializers.NewUniform(nil)
		if err != nil {
			return nil, fmt.Errorf("NewUniform(nil): %w", err)
		}
		return u.Init(d)
	case "NormalInit":
		u, err := initializers.NewNormal(nil)
		if err != nil {
			return nil, fmt.Errorf("NewNormal(nil): %w", err)
		}
		return u.Init(d)
	case "HeUInit":
		u, err := initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: 3})
		if err != nil {
			return nil, err
		}
		return u.Init(d)
	case "XavierNInit":
		u, err := initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: 3, FanOut: 1})
		if err != nil {
			return nil, err
		}
		return u.Init(d)
	}
	panic(name)
}

// c09Dims: every dimension list of length <= 3 over [-2,6], longer ones at random.
func c09Dims(c *core.Ctx) {
	r := c.R
	name := dimCtors[c.Idx%len(dimCtors)]
	k := c.Idx / len(dimCtors)
	var d []int
	conf, ok := prog.Conf(true), true
	if k < 820 {
		n := k
		switch {
		case n == 0:
			if r.Bool() {
				d = []int{}
			}
		case n < 10:
			d = []int{n - 1 - 2}
		case n < 91:
			n -= 10
			d = []int{n%9 - 2, n/9 - 2}
		default:
			n -= 91
			d = []int{n%9 - 2, n/9%9 - 2, n/81 - 2}
		}
	} else {
		d = make([]int, r.In(0, 5))
		for i := range d {
			d[i] = r.In(-2, 6)
			if r.Bool() {
				d[i] = r.In(1, 4)
			}
		}
		if len(d) == 5 {
			d[r.Int(5)] = r.In(-1, 2)
		}
		conf, ok = randConf(r)
	}
	if len(name) > 5 { // initializers take no configuration
		ok = true
	}
	arg := append([]int(nil), d...)
	call(c, ok && positive(d), d, func() (tensor.Tensor, error) { return ctor(name, arg, conf) }, "%s(%#v, %+v)", name, d, conf)
}

func randT(c *core.Ctx, s []int) tensor.Tensor {
	v := make([]float64, ref.Prod(s))
	for i := range v {
		v[i] = c.R.Range(0.2, 2)
	}
	return mkVia(c, s, v, c.R.Bool())
}

// c09DimArg: every dimension argument in [-2,6] for every shape of rank <= 4 with sizes <= 3.
func c09DimArg(c *core.Ctx) {
	s := c09Shapes4[c.Idx%len(c09Shapes4)]
	c09CheckDim(c, s, c.Idx/len(c09Shapes4)%9-2)
}

func c09CheckDim(c *core.Ctx, s []int, d int) {
	t := randT(c, s)
	in := d >= 0 && d < len(s)
	for _, op := range []string{"UnSqueeze", "Squeeze", "Flatten", "SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong"} {
		valid, sh := in, []int(nil)
		switch op {
		case "UnSqueeze":
			if valid = d >= 0 && d <= len(s); valid {
				sh = ref.UnSqueezeShape(s, d)
			}
		case "Squeeze":
			if valid = in && s[d] == 1; valid {
				sh = ref.DropDim(s, d)
			}
		case "Flatten":
			if in {
				sh = ref.FlattenShape(s, d)
			}
		default:
			if in {
				sh = ref.DropDim(s, d)
			}
		}
		call(c, valid, sh, func() (tensor.Tensor, error) {
			return prog.Apply(prog.Ins{Op: op, A: []int{0}, I: d}, []tensor.Tensor{t}, nil)
		}, "%s(%d) of shape %v", op, d, s)
	}
	valid := len(s) >= 2
	var sh []int
	if valid {
		sh = append([]int{}, s...)
		sh[len(s)-1], sh[len(s)-2] = s[len(s)-2], s[len(s)-1]
	}
	call(c, valid, sh, t.Transpose, "Transpose of shape %v", s)
	sm, err := activations.NewSoftmax(&activations.SoftmaxConfig{Dim: d})
	if (err == nil) != (d >= 0) || (err == nil) != (sm != nil) {
		c.Violate("NewSoftmax with Dim %d: result %v, error %v", d, sm, err)
	}
	if err == nil {
		call(c, d < len(s), s, func() (tensor.Tensor, error) { return sm.Forward(t) }, "Softmax(Dim %d).Forward of shape %v", d, s)
	}
}

// c09Pairs: all shape pairs of rank <= 3 with sizes <= 3 for every two-operand operation and component.
func c09Pairs(c *core.Ctx) {
	n := len(c09Shapes3)
	a, b := c09Shapes3[c.Idx%n], c09Shapes3[c.Idx/n%n]
	x, y := randT(c, a), randT(c, b)
	for _, op := range []string{"Eq", "Ne", "Gt", "Ge", "Lt", "Le", "ElMax", "ElMin", "Add", "Sub", "Mul", "Div", "Dot", "MatMul", "Patch"} {
		var valid bool
		var sh []int
		switch op {
		case "Add", "Sub", "Mul", "Div":
			sh, valid = ref.BShape(a, b)
		case "Dot":
			if valid = prog.DotOK(a, b); valid {
				sh, _ = ref.BShape(a[:len(a)-1], b[:len(b)-1])
			}
		case "MatMul":
			if valid = prog.MatMulOK(a, b); valid {
				bs, _ := ref.BShape(a[:len(a)-2], b[:len(b)-2])
				sh = cat(bs, a[len(a)-2], b[len(b)-1])
			}
		case "Patch":
			valid, sh = len(a) == len(b), a
			for i := range a {
				valid = valid && b[i] <= a[i]
			}
		default:
			valid, sh = prog.SameShape(a, b), a
		}
		call(c, valid, sh, func() (tensor.Tensor, error) {
			return prog.Apply(prog.Ins{Op: op, A: []int{0, 1}, RNil: true}, []tensor.Tensor{x, y}, nil)
		}, "%s of shapes %v and %v", op, a, b)
	}
	same := prog.SameShape(a, b)
	eq, err := x.Equals(y)
	if (err == nil) != same || (err != nil && eq) {
		c.Violate("Equals of shapes %v and %v returned %v, %v", a, b, eq, err)
	}
	for d := 0; d < 4; d++ {
		valid := len(a) == len(b) && d < len(a)
		sh := append([]int{}, a...)
		for i := range a {
			if valid && i != d {
				valid = a[i] == b[i]
			}
		}
		if valid {
			sh[d] += b[d]
		}
		call(c, valid, sh, func() (tensor.Tensor, error) { return tensor.Concat([]tensor.Tensor{x, y}, d) }, "Concat of shapes %v and %v along %d", a, b, d)
	}
	call(c, same && len(a) == 1, []int{}, func() (tensor.Tensor, error) { return losses.NewMSE().Compute(x, y) }, "MSE of shapes %v and %v", a, b)
	call(c, same && len(a) == 1, []int{}, func() (tensor.Tensor, error) { return losses.NewBCE().Compute(x, y) }, "BCE of shapes %v and %v", a, b)
	call(c, same && len(a) == 2, []int{}, func() (tensor.Tensor, error) { return losses.NewCE().Compute(x, y) }, "CE of shapes %v and %v", a, b)
	acc := metrics.NewAccuracy()
	if err := acc.Accumulate(x, y); (err == nil) != (same && len(a) == 1) {
		c.Violate("Accuracy.Accumulate of shapes %v and %v: error %v", a, b, err)
	}
	if v, err := acc.Result(); err != nil || !(v >= 0 && v <= 1) {
		c.Violate("Accuracy.Result is %v, %v", v, err)
	}
	// a forward pass that was accepted must also back-propagate
	if z, err := x.Add(y); err == nil {
		if err := tensor.BackPropagate(z); err != nil {
			c.Violate("BackPropagate of Add of shapes %v and %v: %v", a, b, err)
		}
	}
	// FC with replaced parameters: never panics
	fc := &layers.FC{Weight: x, Bias: y}
	t, err := fc.Forward(mk(c, []int{2, 3}, make([]float64, 6), false))
	if (t == nil) == (err == nil) {
		c.Violate("FC.Forward with parameters of shapes %v and %v: result %v, error %v", a, b, t, err)
	}
	if len(a) == 1 && len(b) == 1 && a[0] == b[0] {
		if err != nil || !prog.SameShape(t.Shape(), []int{2, a[0]}) {
			c.Violate("FC.Forward with parameters of shapes %v and %v failed: %v", a, b, err)
		}
	}
}

// c09Targets: Reshape and Broadcast to arbitrary targets.
func c09Targets(c *core.Ctx) {
	r := c.R
	s := c09Shapes3[c.Idx%len(c09Shapes3)]
	t := randT(c, s)
	for k := 0; k < 12; k++ {
		var d []int
		switch r.Int(4) {
		case 0: // perturbed valid reshape target
			d = prog.RandFactor(r, ref.Prod(s), 4)
		case 1:
			d = prog.RandTarget(r, s, 5, 3)
		case 2:
			d = append([]int{}, s...)
		default:
			d = make([]int, r.In(0, 5))
			for i := range d {
				d[i] = r.In(-2, 6)
			}
		}
		if len(d) > 0 && r.P(3) {
			d[r.Int(len(d))] = r.In(-2, 6)
		}
		if len(d) > 1 && r.P(6) { // two negatives with the right product
			d[0], d[1] = -d[0], -d[1]
		}
		if len(d) == 0 && r.Bool() {
			d = nil
		}
		if positive(d) && ref.Prod(d) > 5000 {
			continue
		}
		vr := positive(d) && ref.Prod(d) == ref.Prod(s)
		vb := positive(d) && ref.CanBroadcast(s, d)
		call(c, vr, d, func() (tensor.Tensor, error) { return t.Reshape(append([]int(nil), d...)) }, "Reshape(%#v) of shape %v", d, s)
		call(c, vb, d, func() (tensor.Tensor, error) { return t.Broadcast(append([]int(nil), d...)) }, "Broadcast(%#v) of shape %v", d, s)
	}
}

// sliceValid is the documented range rule.
func sliceValid(ix []tensor.Range, s []int) (bool, []int) {
	if len(ix) > len(s) {
		return false, nil
	}
	o := append([]int{}, s...)
	for i, q := range ix {
		if q.From == 0 && q.To == 0 {
			continue
		}
		if !(0 <= q.From && q.From < q.To && q.To <= s[i]) {
			return false, nil
		}
		o[i] = q.To - q.From
	}
	return true, o
}

func patchValid(ix []tensor.Range, u, s []int) bool {
	if ok, _ := sliceValid(ix, s); !ok || len(u) != len(s) {
		return false
	}
	for i := range s {
		if u[i] > s[i] {
			return false
		}
		if i < len(ix) && (ix[i] != tensor.Range{}) && ix[i].To-ix[i].From != u[i] {
			return false
		}
	}
	return true
}

func c09CheckRanges(c *core.Ctx, s []int, ix []tensor.Range) {
	t := randT(c, s)
	ok, sh := sliceValid(ix, s)
	arg := func() []tensor.Range { return append([]tensor.Range(nil), ix...) }
	call(c, ok, sh, func() (tensor.Tensor, error) { return t.Slice(arg()) }, "Slice(%v) of shape %v", ix, s)
	// sources: the covered block, off by one, the whole
	u := append([]int{}, s...)
	for i := range u {
		if i < len(ix) && ix[i].From >= -7 && ix[i].To > ix[i].From && ix[i].To <= 14 {
			u[i] = ix[i].To - ix[i].From
		}
	}
	for k := 0; k < 3; k++ {
		w := append([]int{}, u...)
		if k > 0 && len(w) > 0 {
			i := c.R.Int(len(w))
			if w[i] += c.R.In(-1, 1); w[i] < 1 {
				w[i] = 1
			}
		}
		if k == 2 && c.R.P(3) {
			w = append(w, 1)
		}
		src := randT(c, w)
		call(c, patchValid(ix, w, s), s, func() (tensor.Tensor, error) { return t.Patch(arg(), src) }, "Patch(%v, shape %v) of shape %v", ix, w, s)
	}
}

func c09Range1(c *core.Ctx) {
	k := c.Idx % (4 * 81)
	c09CheckRanges(c, []int{k/81 + 1}, []tensor.Range{{From: k%9 - 2, To: k/9%9 - 2}})
}

func c09Range2(c *core.Ctx) {
	k := c.Idx % (81 * 81)
	s := []int{c.R.In(1, 4), c.R.In(1, 4)}
	c09CheckRanges(c, s, []tensor.Range{{From: k%9 - 2, To: k/9%9 - 2}, {From: k/81%9 - 2, To: k/729%9 - 2}})
}

// c09Index: At and longer range lists.
func c09Index(c *core.Ctx) {
	r := c.R
	s := prog.Dims(r, r.In(0, 5), 4, 100)
	if r.Bool() {
		t := randT(c, s)
		for k := 0; k < 6; k++ {
			n := len(s)
			if r.P(3) {
				n = r.In(0, 6)
			}
			ix := make([]int, n)
			valid := n == len(s)
			for i := range ix {
				ix[i] = r.In(-2, 6)
				if i < len(s) && r.Int(3) > 0 {
					ix[i] = []int{0, s[i] - 1, r.Int(s[i]), s[i]}[r.Int(4)]
				}
				valid = valid && ix[i] >= 0 && ix[i] < s[i]
			}
			if n == 0 && r.Bool() {
				ix = nil
			}
			desc := fmt.Sprintf("At(%v) of shape %v", ix, s)
			c.Detail(func() string { return desc })
			v, err := t.At(ix...)
			if (err == nil) != valid {
				c.Violate("%s: valid %v, error %v", desc, valid, err)
			}
			if err == nil && !(v >= 0.2 && v <= 2) {
				c.Violate("%s returned %v, which is no element", desc, v)
			}
			if valid {
				c.Count("expected_results", 1)
			} else {
				c.Count("expected_errors", 1)
			}
			c.EvalS(desc)
		}
		return
	}
	n := len(s)
	if r.P(3) {
		n = r.In(0, 6)
	}
	var ix []tensor.Range
	for i := 0; i < n; i++ {
		q := tensor.Range{From: r.In(-2, 6), To: r.In(-2, 6)}
		if i < len(s) && r.Int(4) > 0 {
			f := r.Int(s[i])
			q = tensor.Range{From: f, To: r.In(f+1, s[i])}
			switch r.Int(12) {
			case 0:
				q = tensor.Range{}
			case 1:
				q = tensor.Range{From: q.To, To: q.From}
			case 2:
				q.To = s[i] + 1
			case 3:
				q.From = q.To
			}
		}
		ix = append(ix, q)
	}
	c09CheckRanges(c, s, ix)
}

func c09Concat(c *core.Ctx) {
	r := c.R
	n := r.In(0, 4)
	base := prog.Dims(r, r.In(0, 4), 3, 30)
	d := r.In(-2, 6)
	if len(base) > 0 && r.Int(4) > 0 {
		d = r.Int(len(base))
	}
	var ts []tensor.Tensor
	if r.Bool() {
		ts = []tensor.Tensor{}
	}
	var shapes [][]int
	valid := n >= 2
	sh := append([]int{}, base...)
	if d >= 0 && d < len(sh) {
		sh[d] = 0
	}
	for i := 0; i < n; i++ {
		if r.P(15) {
			ts, shapes = append(ts, nil), append(shapes, nil)
			valid = false
			continue
		}
		s := append([]int{}, base...)
		if d >= 0 && d < len(s) {
			s[d] = r.In(1, 3)
		}
		if len(s) > 0 && r.P(8) {
			s[r.Int(len(s))] = r.In(1, 3)
		}
		if r.P(12) {
			s = prog.Dims(r, r.In(0, 4), 3, 30)
		}
		ts, shapes = append(ts, randT(c, s)), append(shapes, s)
	}
	if valid {
		f := shapes[0]
		valid = d >= 0 && d < len(f)
		for _, s := range shapes {
			valid = valid && len(s) == len(f)
			for k := range s {
				valid = valid && (k == d || s[k] == f[k])
			}
		}
		if valid {
			sh = append([]int{}, f...)
			sh[d] = 0
			for _, s := range shapes {
				sh[d] += s[d]
			}
		}
	}
	call(c, valid, sh, func() (tensor.Tensor, error) { return tensor.Concat(ts, d) }, "Concat of shapes %v along %d", shapes, d)
}

// nested random data: returns the value, its dims and whether it is rectangular without empty levels.
func nest1(r *core.R, n int, k int) ([]float64, []int, bool) {
	if k >= 0 {
		n = k
	}
	if n == 0 {
		if r.Bool() {
			return nil, nil, false
		}
		return []float64{}, nil, false
	}
	return make([]float64, n), []int{n}, true
}

func nestN[T any](r *core.R, lens []int, dev int, sub func(r *core.R, lens []int, dev int) (T, []int, bool)) ([]T, []int, bool) {
	n := lens[0]
	if r.Int(1000) < dev {
		n = r.In(0, 3)
	}
	if n == 0 {
		if r.Bool() {
			return nil, nil, false
		}
		return []T{}, nil, false
	}
	var base []int
	ok := true
	o := make([]T, n)
	for i := range o {
		v, d, k := sub(r, lens[1:], dev)
		o[i] = v
		ok = ok && k
		if i == 0 {
			base = d
		} else {
			ok = ok && prog.SameShape(base, d)
		}
	}
	return o, append([]int{n}, base...), ok
}

func leaf1(r *core.R, lens []int, dev int) ([]float64, []int, bool) {
	n := lens[0]
	if r.Int(1000) < dev {
		n = r.In(0, 3)
	}
	return nest1(r, n, -1)
}

func leaf2(r *core.R, lens []int, dev int) ([][]float64, []int, bool) {
	return nestN(r, lens, dev, leaf1)
}
func leaf3(r *core.R, lens []int, dev int) ([][][]float64, []int, bool) {
	return nestN(r, lens, dev, leaf2)
}
func leaf4(r *core.R, lens []int, dev int) ([][][][]float64, []int, bool) {
	return nestN(r, lens, dev, leaf3)
}

func c09Ragged(c *core.Ctx) {
	r := c.R
	lens := []int{r.In(1, 3), r.In(1, 3), r.In(1, 3), r.In(1, 4)}
	if r.P(8) {
		lens[r.Int(4)] = 0
	}
	dev := []int{0, 30, 100, 300}[r.Int(4)]
	conf, cok := randConf(r)
	switch c.Idx % 4 {
	case 0:
		v, d, ok := leaf1(r, lens, dev)
		call(c, ok && cok, d, func() (tensor.Tensor, error) { return tensor.TensorOf(v, conf) }, "TensorOf(%#v, %+v)", v, conf)
	case 1:
		v, d, ok := leaf2(r, lens, dev)
		call(c, ok && cok, d, func() (tensor.Tensor, error) { return tensor.TensorOf(v, conf) }, "TensorOf(%#v, %+v)", v, conf)
	case 2:
		v, d, ok := leaf3(r, lens, dev)
		call(c, ok && cok, d, func() (tensor.Tensor, error) { return tensor.TensorOf(v, conf) }, "TensorOf(%#v, %+v)", v, conf)
	case 3:
		v, d, ok := leaf4(r, lens, dev)
		call(c, ok && cok, d, func() (tensor.Tensor, error) { return tensor.TensorOf(v, conf) }, "TensorOf(%#v, %+v)", v, conf)
	}
}

// c09Random: everything else with scalar parameters, and total operations.
func c09Random(c *core.Ctx) {
	r := c.R
	fl := []float64{0, 1, -1, 0.5, 2, -2, math.NaN(), 1e-300, -1e308, 1e308, 5e-324}
	conf, cok := randConf(r)
	d := make([]int, r.In(0, 3))
	for i := range d {
		d[i] = r.In(1, 3)
		if r.P(8) {
			d[i] = r.In(-2, 0)
		}
	}
	arg := append([]int(nil), d...)
	switch c.Idx % 8 {
	case 0:
		n := r.In(-2, 6)
		call(c, cok && n > 0, []int{n, n}, func() (tensor.Tensor, error) { return tensor.Eye(n, conf) }, "Eye(%d, %+v)", n, conf)
	case 1:
		l, u := fl[r.Int(len(fl))], fl[r.Int(len(fl))]
		call(c, cok && positive(d) && l < u, d, func() (tensor.Tensor, error) { return tensor.RandU(arg, l, u, conf) }, "RandU(%v, %v, %v, %+v)", d, l, u, conf)
	case 2:
		m, s := fl[r.Int(len(fl))], fl[r.Int(len(fl))]
		call(c, cok && positive(d) && s > 0, d, func() (tensor.Tensor, error) { return tensor.RandN(arg, m, s, conf) }, "RandN(%v, %v, %v, %+v)", d, m, s, conf)
	case 3:
		v := hostile[r.Int(len(hostile))]
		call(c, cok && positive(d), d, func() (tensor.Tensor, error) { return tensor.Full(arg, v, conf) }, "Full(%v, %v, %+v)", d, v, conf)
	case 4:
		v := hostile[r.Int(len(hostile))]
		call(c, cok, []int{}, func() (tensor.Tensor, error) { return tensor.TensorOf(v, conf) }, "TensorOf(%v, %+v)", v, conf)
	default: // total single-operand operations on hostile values keep the shape
		s := prog.Dims(r, r.In(0, 5), 3, 40)
		v := hostileVals(r, ref.Prod(s), true)
		t := mkVia(c, s, v, r.Bool())
		op := []string{"Scale", "Pow", "Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh"}[r.Int(10)]
		f := hostile[r.Int(len(hostile))]
		var y tensor.Tensor
		call(c, true, s, func() (t2 tensor.Tensor, err error) {
			y, err = prog.Apply(prog.Ins{Op: op, A: []int{0}, F: f}, []tensor.Tensor{t}, nil)
			return y, err
		}, "%s(%v) of shape %v", op, f, s)
		for _, nm := range statNames {
			wholeStat(t, nm)
		}
		if err := tensor.BackPropagate(y); err != nil {
			c.Violate("BackPropagate of %s: %v", op, err)
		}
		if g := t.Gradient(); g != nil && !prog.SameShape(g.Shape(), s) {
			c.Violate("gradient of %s has shape %v, operand %v", op, g.Shape(), s)
		}
	}
}

// foreign is a tensor implementation the library does not know.
type foreign struct{ tensor.Tensor }

// c09Nil: nil and foreign tensors everywhere.
func c09Nil(c *core.Ctx) {
	r := c.R
	s := prog.Dims(r, r.In(0, 3), 3, 20)
	t := randT(c, s)
	var bad tensor.Tensor
	kind := "nil"
	if r.P(3) {
		bad, kind = foreign{t}, "foreign"
	}
	for _, op := range []string{"Eq", "Ne", "Gt", "Ge", "Lt", "Le", "ElMax", "ElMin", "Add", "Sub", "Mul", "Div", "Dot", "MatMul", "Patch"} {
		desc := fmt.Sprintf("%s of shape %v with a %s tensor", op, s, kind)
		c.Detail(func() string { return desc })
		y, err := prog.Apply(prog.Ins{Op: op, A: []int{0, 1}, RNil: true}, []tensor.Tensor{t, bad}, nil)
		verdict(c, desc, false, nil, y, err)
	}
	if eq, err := t.Equals(bad); err == nil || eq {
		c.Violate("Equals with a %s tensor returned %v, %v", kind, eq, err)
	}
	if err := tensor.BackPropagate(bad); err == nil {
		c.Violate("BackPropagate of a %s tensor returned no error", kind)
	}
	if len(s) > 0 {
		ts := [][]tensor.Tensor{{bad, t}, {t, bad}, {t, t, bad}, {bad, bad}, {bad}, {t}, nil, {}}[r.Int(8)]
		call(c, false, nil, func() (tensor.Tensor, error) { return tensor.Concat(ts, 0) }, "Concat with %d tensors, one %s", len(ts), kind)
	}
	if kind == "nil" {
		v := mk(c, []int{2}, []float64{0, 1}, false)
		m := mk(c, []int{2, 1}, []float64{0, 1}, false)
		for k, f := range []func() (tensor.Tensor, error){
			func() (tensor.Tensor, error) { return losses.NewMSE().Compute(nil, v) },
			func() (tensor.Tensor, error) { return losses.NewMSE().Compute(v, nil) },
			func() (tensor.Tensor, error) { return losses.NewBCE().Compute(nil, v) },
			func() (tensor.Tensor, error) { return losses.NewBCE().Compute(v, nil) },
			func() (tensor.Tensor, error) { return losses.NewCE().Compute(nil, m) },
			func() (tensor.Tensor, error) { return losses.NewCE().Compute(m, nil) },
			func() (tensor.Tensor, error) { return losses.NewCE().Compute(nil, nil) },
			func() (tensor.Tensor, error) { return activations.NewRelu().Forward(nil) },
			func() (tensor.Tensor, error) { return activations.NewTanh().Forward(nil) },
			func() (tensor.Tensor, error) { return activations.NewSigmoid().Forward(nil) },
			func() (tensor.Tensor, error) { return activations.NewLeakyRelu(nil).Forward(nil) },
			func() (tensor.Tensor, error) { return (&layers.FC{Weight: v, Bias: v}).Forward(nil) },
			func() (tensor.Tensor, error) { return (&layers.FC{Weight: v, Bias: nil}).Forward(m) },
			func() (tensor.Tensor, error) { return (&layers.FC{Weight: nil, Bias: v}).Forward(m) },
			func() (tensor.Tensor, error) { return (&layers.FC{}).Forward(m) },
			func() (tensor.Tensor, error) { return layers.NewInput().Forward() },
			func() (tensor.Tensor, error) { return layers.NewInput().Forward(v) },
			func() (tensor.Tensor, error) { return layers.NewInput().Forward(nil) },
		} {
			call(c, false, nil, f, "nil argument call %d", k)
		}
		if err := metrics.NewAccuracy().Accumulate(nil, v); err == nil {
			c.Violate("Accumulate(nil, v) returned no error")
		}
		if err := metrics.NewAccuracy().Accumulate(v, nil); err == nil {
			c.Violate("Accumulate(v, nil) returned no error")
		}
		sgd := optimizers.NewSGD(nil)
		var nt tensor.Tensor
		if err := sgd.Update(nil); err == nil {
			c.Violate("SGD.Update(nil) returned no error")
		}
		if err := sgd.Update(&nt); err == nil || nt != nil {
			c.Violate("SGD.Update(pointer to nil) returned %v", err)
		}
		if err := sgd.Update(&t); err == nil {
			c.Violate("SGD.Update of a tensor without gradient returned no error")
		}
	}
}

type initFunc func(shape []int) (tensor.Tensor, error)

func (f initFunc) Init(shape []int) (tensor.Tensor, error) { return f(shape) }

// c09Components: constructors and forward calls of the components.
func c09Components(c *core.Ctx) {
	r := c.R
	conf := func(ok, got bool, err error, format string, args ...any) {
		desc := fmt.Sprintf(format, args...)
		if got == (err != nil) {
			c.Violate("%s: result present %v, error %v", desc, got, err)
		}
		if ok != (err == nil) {
			c.Violate("%s: arguments valid %v, error %v", desc, ok, err)
		}
		if ok {
			c.Count("expected_results", 1)
		} else {
			c.Count("expected_errors", 1)
		}
		c.EvalS(desc)
	}
	fl := []float64{0, 1, -1, 0.5, -0.05, 0.05, 2, math.NaN(), 1e-300, 1e300, -1e300}
	fi, fo := r.In(-2, 6), r.In(-2, 6)
	a, b := fl[r.Int(len(fl))], fl[r.Int(len(fl))]
	null := r.P(6)
	d := make([]int, r.In(0, 3))
	for i := range d {
		d[i] = r.In(0, 4)
		if r.Bool() {
			d[i] = r.In(1, 3)
		}
	}
	initCheck := func(x interface {
		Init([]int) (tensor.Tensor, error)
	}, name string) {
		call(c, positive(d), d, func() (tensor.Tensor, error) { return x.Init(append([]int(nil), d...)) }, "%s.Init(%v)", name, d)
	}
	switch c.Idx % 12 {
	case 0:
		k := &initializers.HeNormalConfig{FanIn: fi}
		if null {
			k = nil
		}
		x, err := initializers.NewHeNormal(k)
		conf(!null && fi > 0, x != nil, err, "NewHeNormal(%+v)", k)
		if err == nil {
			initCheck(x, "HeNormal")
		}
	case 1:
		k := &initializers.HeUniformConfig{FanIn: fi}
		if null {
			k = nil
		}
		x, err := initializers.NewHeUniform(k)
		conf(!null && fi > 0, x != nil, err, "NewHeUniform(%+v)", k)
		if err == nil {
			initCheck(x, "HeUniform")
		}
	case 2:
		k := &initializers.XavierNormalConfig{FanIn: fi, FanOut: fo}
		if null {
			k = nil
		}
		x, err := initializers.NewXavierNormal(k)
		conf(!null && fi > 0 && fo > 0, x != nil, err, "NewXavierNormal(%+v)", k)
		if err == nil {
			initCheck(x, "XavierNormal")
		}
	case 3:
		k := &initializers.XavierUniformConfig{FanIn: fi, FanOut: fo}
		if null {
			k = nil
		}
		x, err := initializers.NewXavierUniform(k)
		conf(!null && fi > 0 && fo > 0, x != nil, err, "NewXavierUniform(%+v)", k)
		if err == nil {
			initCheck(x, "XavierUniform")
		}
	case 4:
		k := &initializers.NormalConfig{Mean: a, StdDev: b}
		if null {
			k = nil
		}
		x, err := initializers.NewNormal(k)
		conf(null || b > 0, x != nil, err, "NewNormal(%+v)", k)
		if err == nil {
			initCheck(x, "Normal")
		}
	case 5:
		k := &initializers.UniformConfig{Lower: a, Upper: b}
		if null {
			k = nil
		}
		x, err := initializers.NewUniform(k)
		conf(null || a < b, x != nil, err, "NewUniform(%+v)", k)
		if err == nil {
			initCheck(x, "Uniform")
		}
		f := initializers.NewFull(&initializers.FullConfig{Value: a})
		if f == nil {
			c.Violate("NewFull returned nil")
		}
		initCheck(f, "Full")
	case 6, 7: // FC configurations
		k := &layers.FCConfig{Inputs: fi, Outputs: fo}
		if r.Bool() {
			k.Inputs, k.Outputs = r.In(1, 4), r.In(1, 4)
		}
		valid := k.Inputs > 0 && k.Outputs > 0
		desc := ""
		if r.Int(3) > 0 {
			k.Initializers = map[string]layers.Initializer{}
			for _, key := range []string{"Weight", "Bias"} {
				switch r.Int(9) {
				case 0, 1:
				case 2:
					k.Initializers[key] = nil
					valid = false
					desc += key + "=nil "
				case 3:
					k.Initializers[key] = initFunc(func([]int) (tensor.Tensor, error) { return nil, errors.New("no") })
					valid = false
					desc += key + "=failing "
				case 4:
					k.Initializers[key] = initFunc(func(s []int) (tensor.Tensor, error) {
						return tensor.Zeros([]int{s[0] + 1}, nil)
					})
					valid = false
					desc += key + "=wrong size "
				case 5:
					k.Initializers[key] = initFunc(func(s []int) (tensor.Tensor, error) {
						return tensor.Zeros([][]int{nil, {s[0], 1}, {1, s[0]}}[r.Int(3)], nil)
					})
					valid = false
					desc += key + "=wrong rank "
				case 6:
					k.Initializers[key] = initFunc(func([]int) (tensor.Tensor, error) { return nil, nil })
					valid = false
					desc += key + "=no tensor "
				default:
					k.Initializers[key] = initializers.NewFull(&initializers.FullConfig{Value: 2})
					desc += key + "=Full "
				}
			}
			if r.P(4) {
				k.Initializers["Other"] = nil
			}
		}
		in, out := k.Inputs, k.Outputs
		desc = fmt.Sprintf("NewFC(Inputs %d, Outputs %d, %s)", in, out, desc)
		c.Detail(func() string { return desc })
		if null {
			k, valid, desc = nil, false, "NewFC(nil)"
		}
		fc, err := layers.NewFC(k)
		conf(valid, fc != nil, err, "%s", desc)
		if err != nil {
			return
		}
		ws := fc.Weights()
		if len(ws) != 2 {
			c.Violate("FC has %d weights", len(ws))
		}
		for _, w := range ws {
			if w.Value == nil || *w.Value == nil || !prog.SameShape((*w.Value).Shape(), []int{out}) || !w.Trainable {
				c.Violate("FC weight is missing, of the wrong shape or not trainable")
			}
		}
		s := prog.Dims(r, r.In(0, 4), 4, 60)
		if r.Bool() {
			s = []int{r.In(1, 4), in}
		}
		x := randT(c, s)
		xs := [][]tensor.Tensor{{x}, {x}, {x}, {}, {x, x}, {nil}, nil}[r.Int(7)]
		desc = fmt.Sprintf("FC(%d,%d).Forward of %d tensors, shape %v", in, out, len(xs), s)
		c.Detail(func() string { return desc })
		y, err := fc.Forward(xs...)
		ok := len(xs) == 1 && xs[0] != nil && len(s) == 2
		if ok && s[1] != in { // not judged which
			if (y == nil) == (err == nil) || (y != nil && !prog.SameShape(y.Shape(), []int{s[0], out})) {
				c.Violate("%s: result %v, error %v", desc, y, err)
			}
			return
		}
		var sh []int
		if ok {
			sh = []int{s[0], out}
		}
		verdict(c, desc, ok, sh, y, err)
	case 8, 9: // activations with wrong operand counts
		s := prog.Dims(r, r.In(0, 5), 3, 60)
		x := randT(c, s)
		xs := [][]tensor.Tensor{{x}, {x}, {}, {x, x}, {nil}, nil, {nil, x}}[r.Int(7)]
		ok := len(xs) == 1 && xs[0] != nil
		var f func(...tensor.Tensor) (tensor.Tensor, error)
		name := ""
		switch r.Int(5) {
		case 0:
			name, f = "Relu", activations.NewRelu().Forward
		case 1:
			k := &activations.LeakyReluConfig{M: a}
			if null {
				k = nil
			}
			name, f = fmt.Sprintf("LeakyRelu(%+v)", k), activations.NewLeakyRelu(k).Forward
		case 2:
			name, f = "Sigmoid", activations.NewSigmoid().Forward
		case 3:
			name, f = "Tanh", activations.NewTanh().Forward
		case 4:
			k := &activations.SoftmaxConfig{Dim: fi}
			dim := fi
			if null {
				k, dim = nil, 0
			}
			m, err := activations.NewSoftmax(k)
			conf(dim >= 0, m != nil, err, "NewSoftmax(%+v)", k)
			if err != nil {
				return
			}
			ok = ok && dim < len(s)
			name, f = fmt.Sprintf("Softmax(%d)", dim), m.Forward
		}
		call(c, ok, s, func() (tensor.Tensor, error) { return f(xs...) }, "%s.Forward of %d tensors, shape %v, first nil %v", name, len(xs), s, len(xs) > 0 && xs[0] == nil)
	case 10: // Input
		in := layers.NewInput()
		x := randT(c, []int{2})
		set := r.Bool()
		if set {
			in.SeedFunc = func() tensor.Tensor { return x }
		}
		xs := [][]tensor.Tensor{{}, nil, {x}, {nil}, {x, x}}[r.Int(5)]
		call(c, set && len(xs) == 0, []int{2}, func() (tensor.Tensor, error) { return in.Forward(xs...) }, "Input.Forward, SeedFunc set %v, %d tensors", set, len(xs))
	case 11: // optimizer
		s := prog.Dims(r, r.In(0, 5), 3, 60)
		w := randT(c, s)
		w.ResetGradContext(true)
		has := r.Bool()
		if has {
			if err := tensor.BackPropagate(w.Scale(2)); err != nil {
				c.Violate("BackPropagate failed: %v", err)
			}
		}
		k := &optimizers.SGDConfig{LearningRate: a}
		if null {
			k = nil
		}
		old := w
		err := optimizers.NewSGD(k).Update(&w)
		if (err == nil) != has {
			c.Violate("Update of a tensor with gradient %v: %v", has, err)
		}
		if err != nil && w != old {
			c.Violate("a failed Update replaced the tensor")
		}
		if w == nil || !prog.SameShape(w.Shape(), s) {
			c.Violate("Update of shape %v left %v", s, w)
		}
		c.EvalS(fmt.Sprint("sgd", s, has, a))
	}
}

var extremeInts = []int{math.MinInt, math.MinInt + 1, -1 << 32, -1 << 31, -1, 0, 1, 2, 1 << 31, 1<<31 - 1, 1 << 32, 1<<32 + 1, math.MaxInt - 1, math.MaxInt}

// inv64 is the inverse of an odd number modulo 2^64.
func inv64(a uint64) uint64 {
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

// c09Extreme: high ranks, arguments near the limits of int, and size lists whose product wraps around to the
// number of elements.
func c09Extreme(c *core.Ctx) {
	r := c.R
	s := deepDims(r)
	if r.Bool() {
		s = prog.Dims(r, r.In(0, 5), 4, 60)
	}
	arg := func(n int) int {
		switch r.Int(4) {
		case 0:
			return extremeInts[r.Int(len(extremeInts))]
		case 1:
			return r.In(-2, n+2)
		case 2:
			return n - 1
		}
		return r.In(0, max(0, n-1))
	}
	switch c.Idx % 6 {
	case 0:
		c09CheckDim(c, s, arg(len(s)))
	case 1:
		var ix []tensor.Range
		for i := range s {
			q := tensor.Range{}
			if r.P(3) {
				q.From = r.Int(s[i])
				q.To = q.From + 1
			}
			ix = append(ix, q)
		}
		if r.Bool() && len(ix) > 0 {
			ix[r.Int(len(ix))] = tensor.Range{From: arg(3), To: arg(4)}
		}
		c09CheckRanges(c, s, ix[:r.In(0, len(ix))])
	case 2:
		t := randT(c, s)
		ix := make([]int, len(s))
		valid := true
		for i := range ix {
			ix[i] = r.Int(s[i])
		}
		if len(ix) > 0 && r.Bool() {
			i := r.Int(len(ix))
			ix[i] = arg(s[i])
			valid = ix[i] >= 0 && ix[i] < s[i]
		}
		desc := fmt.Sprintf("At(%v) of shape %v", ix, s)
		c.Detail(func() string { return desc })
		if v, err := t.At(ix...); (err == nil) != valid || (err == nil && !(v >= 0.2 && v <= 2)) {
			c.Violate("%s: valid %v, result %v, error %v", desc, valid, v, err)
		}
		c.EvalS(desc)
	case 3: // a wrapped product
		t := randT(c, s)
		n := uint64(ref.Prod(s))
		var d []int
		for d == nil {
			a := uint64(2*r.In(1, 700) + 1)
			b := n * inv64(a)
			if r.P(3) {
				a *= uint64(2*r.In(1, 700) + 1)
				b = n * inv64(a)
			}
			if int(b) > 1<<50 {
				d = []int{int(a), int(b)}
			}
		}
		if r.P(3) {
			d = append([]int{1}, d...)
		}
		if r.P(3) {
			d[len(d)-1], d[len(d)-2] = d[len(d)-2], d[len(d)-1]
		}
		call(c, false, nil, func() (tensor.Tensor, error) { return t.Reshape(append([]int{}, d...)) }, "Reshape(%v) of shape %v", d, s)
	case 4: // high rank targets
		t := randT(c, s)
		d := prog.RandTarget(r, s, deepRank+2, 3)
		if len(d) > 0 && r.P(3) {
			d[r.Int(len(d))] = []int{0, -1, math.MinInt, 2, 3, math.MinInt + 1}[r.Int(6)]
		}
		if positive(d) && ref.Prod(d) > 5000 {
			return
		}
		call(c, positive(d) && ref.CanBroadcast(s, d), d, func() (tensor.Tensor, error) { return t.Broadcast(append([]int{}, d...)) }, "Broadcast(%v) of shape %v", d, s)
		q := prog.RandFactor(r, ref.Prod(s), deepRank)
		if len(q) > 0 && r.P(3) {
			i := r.Int(len(q))
			q[i] = []int{q[i] + 1, -q[i], 0, math.MinInt, 1 << 40}[r.Int(5)]
		}
		ok := positive(q)
		p := 1
		for _, k := range q {
			ok = ok && k <= 5000
			if ok {
				p *= k
			}
		}
		call(c, ok && p == ref.Prod(s), q, func() (tensor.Tensor, error) { return t.Reshape(append([]int{}, q...)) }, "Reshape(%v) of shape %v", q, s)
	case 5: // constructors at high rank, one size possibly negative
		d := append([]int{}, s...)
		if len(d) > 0 && r.P(3) {
			d[r.Int(len(d))] = []int{0, -1, math.MinInt, math.MinInt + 1, -1 << 32}[r.Int(5)]
		}
		name := dimCtors[r.Int(len(dimCtors))]
		conf, cok := randConf(r)
		ok := cok || len(name) > 5 // initializers take no configuration
		call(c, ok && positive(d), d, func() (tensor.Tensor, error) { return ctor(name, append([]int{}, d...), conf) }, "%s(%v, %+v)", name, d, conf)
		n := []int{0, -1, math.MinInt, math.MinInt + 1, -1 << 32, -1 << 31}[r.Int(6)]
		call(c, false, nil, func() (tensor.Tensor, error) { return tensor.Eye(n, conf) }, "Eye(%d)", n)
		a, b := randT(c, []int{2, 2}), randT(c, []int{2, 2})
		k := extremeInts[r.Int(len(extremeInts))]
		sh := []int{2, 2}
		if k == 0 || k == 1 {
			sh[k] = 4
		}
		call(c, k == 0 || k == 1, sh, func() (tensor.Tensor, error) { return tensor.Concat([]tensor.Tensor{a, b}, k) }, "Concat along %d", k)
	}
	c.Count("extreme", 1)
}
