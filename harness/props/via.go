package props

import (
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

// mkVia builds an untracked-or-tracked tensor holding exactly the given values through a random
// construction route, so that operands are not always fresh TensorOf results.
func mkVia(c *core.Ctx, shape []int, v []float64, tracked bool) tensor.Tensor {
	r := c.R
	fix := func(t tensor.Tensor, err error) tensor.Tensor {
		t = must(c, t, err)("operand construction")
		if tracked {
			t.ResetGradContext(true)
		}
		return t
	}
	switch r.Int(10) {
	case 0: // from a flat vector
		f := mk(c, []int{len(v)}, v, false)
		t, err := f.Reshape(append([]int{}, shape...))
		return fix(t, err)
	case 1: // block of a larger tensor
		big := make([]int, len(shape))
		ix := make([]tensor.Range, len(shape))
		off := make([]int, len(shape))
		for i, d := range shape {
			off[i] = r.Int(3)
			big[i] = d + off[i] + r.Int(2)
			ix[i] = tensor.Range{From: off[i], To: off[i] + d}
		}
		if ref.Prod(big) > 20000 {
			break
		}
		bv := make([]float64, ref.Prod(big))
		for i := range bv {
			bv[i] = 1e3 + float64(i)
		}
		for i, x := range v {
			k := ref.Unravel(i, shape)
			for j := range k {
				k[j] += off[j]
			}
			bv[ref.Ravel(k, big)] = x
		}
		t, err := mk(c, big, bv, false).Slice(ix)
		return fix(t, err)
	case 2: // transpose of the transposed
		if len(shape) < 2 {
			break
		}
		tp := ref.NewTape()
		x := tp.Transpose(tp.Leaf(shape, v))
		t, err := mk(c, x.Shape, tp.Vals(x), false).Transpose()
		return fix(t, err)
	case 3: // concatenation
		if len(shape) == 0 {
			break
		}
		d := r.Int(len(shape))
		if shape[d] < 2 || (d > 0 && len(v) > 20000) { // the library's Concat takes quadratic time in the rows before d
			break
		}
		k := r.In(1, shape[d]-1)
		tp := ref.NewTape()
		x := tp.Leaf(shape, v)
		ra, rb := make([]ref.R, d+1), make([]ref.R, d+1)
		ra[d], rb[d] = ref.R{From: 0, To: k}, ref.R{From: k, To: shape[d]}
		a, b := tp.Slice(x, ra), tp.Slice(x, rb)
		t, err := tensor.Concat([]tensor.Tensor{mk(c, a.Shape, tp.Vals(a), false), mk(c, b.Shape, tp.Vals(b), false)}, d)
		return fix(t, err)
	case 4: // patched
		bv := make([]float64, len(v))
		for i := range bv {
			bv[i] = -float64(i)
		}
		t, err := mk(c, shape, bv, false).Patch(nil, mk(c, shape, v, false))
		return fix(t, err)
	case 5: // squeezed
		d := r.In(0, len(shape))
		t, err := mk(c, ref.UnSqueezeShape(shape, d), v, false).Squeeze(d)
		return fix(t, err)
	case 6: // spent leaf, reset
		t := mk(c, shape, v, true)
		if err := tensor.BackPropagate(t.Scale(2)); err != nil {
			c.Violate("BackPropagate failed: %v", err)
		}
		t.ResetGradContext(tracked)
		return t
	case 7: // constant through Full when possible
		same := len(v) > 0
		for _, x := range v {
			same = same && math.Float64bits(x) == math.Float64bits(v[0])
		}
		if !same {
			break
		}
		t, err := tensor.Full(append([]int{}, shape...), v[0], prog.Conf(tracked))
		return must(c, t, err)("Full")
	case 8: // computed from another one, tracked as an intermediate
		if !tracked {
			break
		}
		t := mk(c, shape, v, true)
		if r.Bool() {
			return t.Scale(1)
		}
		u, err := t.Reshape(append([]int{}, shape...))
		return must(c, u, err)("Reshape")
	}
	return mk(c, shape, v, tracked)
}

// mkVal is mkVia for checks of values only: the tensor may also be one that back-propagation went through (it has a
// gradient, and results of it are not tracked any more).
func mkVal(c *core.Ctx, shape []int, v []float64, tracked bool) tensor.Tensor {
	t := mkVia(c, shape, v, tracked)
	if tracked && c.R.P(4) {
		if err := tensor.BackPropagate(t.Scale(3)); err != nil {
			c.Violate("BackPropagate failed: %v", err)
		}
		c.Count("spent_operands", 1)
	}
	return t
}
