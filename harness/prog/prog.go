// Package prog is a small program language over qeep's public API: every instruction can be executed on
// the real library and on the reference tape.
package prog

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/ref"
)

// Ins is one instruction; its result is the tensor with the instruction's index.
type Ins struct {
	Op      string
	A       []int     // operand ids
	D       []int     // shape argument
	I       int       // dim argument
	R       []ref.R   // index ranges
	RNil    bool      // pass a nil index slice
	F       float64   // scalar argument
	V       []float64 // leaf values (row-major)
	Tracked bool      // leaf tracking
	Cut     int       // 1, 2: ResetGradContext(true), (false) right after creation
}

func (in Ins) String() string {
	var b strings.Builder
	b.WriteString(in.Op)
	b.WriteString("(")
	for i, a := range in.A {
		if i > 0 {
			b.WriteString(",")
		}
		fmt.Fprintf(&b, "t%d", a)
	}
	switch in.Op {
	case "leaf":
		fmt.Fprintf(&b, "%v tracked=%v %s", in.D, in.Tracked, Fmt(in.V, 24))
	case "Reshape", "Broadcast":
		fmt.Fprintf(&b, " %v", in.D)
	case "Slice", "Patch":
		fmt.Fprintf(&b, " idx=%v nil=%v", in.R, in.RNil)
	case "Scale", "Pow":
		fmt.Fprintf(&b, " %v", in.F)
	case "LeakyRelu":
		fmt.Fprintf(&b, " m=%v nil=%v", in.F, in.RNil)
	case "Softmax":
		fmt.Fprintf(&b, " dim=%d nil=%v", in.I, in.RNil)
	case "UnSqueeze", "Squeeze", "Flatten", "SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong", "Concat":
		fmt.Fprintf(&b, " dim=%d", in.I)
	}
	b.WriteString(")")
	if in.Cut > 0 {
		fmt.Fprintf(&b, ".Reset(%v)", in.Cut == 1)
	}
	return b.String()
}

// Fmt prints up to n floats exactly.
func Fmt(v []float64, n int) string {
	var b strings.Builder
	b.WriteString("[")
	for i, x := range v {
		if i > 0 {
			b.WriteString(" ")
		}
		if i == n {
			fmt.Fprintf(&b, "...(%d)", len(v))
			break
		}
		b.WriteString(strconv.FormatFloat(x, 'g', -1, 64))
	}
	b.WriteString("]")
	return b.String()
}

// Show prints a whole program.
func Show(p []Ins) string {
	var b strings.Builder
	for i, in := range p {
		fmt.Fprintf(&b, "t%d=%s; ", i, in)
	}
	return b.String()
}

var UnaryOps = []string{"Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh"}
var AlongOps = []string{"SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong"}
var ArithOps = []string{"Add", "Sub", "Mul", "Div"}
var CmpOps = []string{"Eq", "Ne", "Gt", "Ge", "Lt", "Le"}

// Conf is the CPU configuration.
func Conf(tracked bool) *tensor.Config {
	return &tensor.Config{Device: tensor.CPU, GradTrack: tracked}
}

// Make builds a real tensor of any rank from row-major values.
func Make(shape []int, v []float64, tracked bool) (tensor.Tensor, error) {
	switch len(shape) {
	case 0:
		return tensor.TensorOf(v[0], Conf(tracked))
	case 1:
		return tensor.TensorOf(append([]float64{}, v...), Conf(tracked))
	case 2:
		return tensor.TensorOf(nest2(shape, v), Conf(tracked))
	case 3:
		return tensor.TensorOf(nest3(shape, v), Conf(tracked))
	case 4:
		n := shape[1] * shape[2] * shape[3]
		d := make([][][][]float64, shape[0])
		for i := range d {
			d[i] = nest3(shape[1:], v[i*n:(i+1)*n])
		}
		return tensor.TensorOf(d, Conf(tracked))
	}
	f, err := tensor.TensorOf(append([]float64{}, v...), Conf(false))
	if err != nil {
		return nil, err
	}
	o, err := f.Reshape(append([]int{}, shape...))
	if err != nil {
		return nil, err
	}
	o.ResetGradContext(tracked)
	return o, nil
}

func nest2(s []int, v []float64) [][]float64 {
	d := make([][]float64, s[0])
	for i := range d {
		d[i] = append([]float64{}, v[i*s[1]:(i+1)*s[1]]...)
	}
	return d
}

func nest3(s []int, v []float64) [][][]float64 {
	n := s[1] * s[2]
	d := make([][][]float64, s[0])
	for i := range d {
		d[i] = nest2(s[1:], v[i*n:(i+1)*n])
	}
	return d
}

// Read returns the shape and row-major values of a real tensor through At.
func Read(t tensor.Tensor) ([]int, []float64, error) {
	if t == nil {
		return nil, nil, fmt.Errorf("nil tensor")
	}
	s := t.Shape()
	n := 1
	for _, d := range s {
		if d <= 0 {
			return s, nil, fmt.Errorf("non-positive dimension in shape %v", s)
		}
		n *= d
	}
	if k := t.NElems(); k != n {
		return s, nil, fmt.Errorf("NElems %d is not the product of shape %v", k, s)
	}
	v := make([]float64, n)
	ix := make([]int, len(s))
	for i := range v {
		x, err := t.At(ix...)
		if err != nil {
			return s, nil, fmt.Errorf("At(%v) of shape %v: %v", ix, s, err)
		}
		v[i] = x
		for k := len(s) - 1; k >= 0; k-- {
			ix[k]++
			if ix[k] < s[k] {
				break
			}
			ix[k] = 0
		}
	}
	return s, v, nil
}

func Ranges(r []ref.R, isNil bool) []tensor.Range {
	if isNil {
		return nil
	}
	o := make([]tensor.Range, len(r))
	for i := range r {
		o[i] = tensor.Range{From: r[i].From, To: r[i].To}
	}
	return o
}

// Args lets a caller see (and later mutate) the very slices handed to the library.
type Args struct {
	Ints   [][]int
	Ranges [][]tensor.Range
	Ts     [][]tensor.Tensor
	F1     [][]float64
	F2     [][][]float64
	F3     [][][][]float64
	F4     [][][][][]float64
}

// Apply executes an instruction on the real library. args (optional) collects the argument slices.
func Apply(in Ins, ts []tensor.Tensor, args *Args) (tensor.Tensor, error) {
	t, err := apply(in, ts, args)
	if in.Cut > 0 && err == nil && t != nil {
		t.ResetGradContext(in.Cut == 1)
	}
	return t, err
}

func apply(in Ins, ts []tensor.Tensor, args *Args) (tensor.Tensor, error) {
	ints := func(d []int) []int {
		c := append([]int{}, d...)
		if args != nil {
			args.Ints = append(args.Ints, c)
		}
		return c
	}
	rng := func() []tensor.Range {
		c := Ranges(in.R, in.RNil)
		if args != nil {
			args.Ranges = append(args.Ranges, c)
		}
		return c
	}
	a := func(i int) tensor.Tensor { return ts[in.A[i]] }
	switch in.Op {
	case "leaf":
		return Make(in.D, in.V, in.Tracked)
	case "Slice":
		return a(0).Slice(rng())
	case "Patch":
		return a(0).Patch(rng(), a(1))
	case "Transpose":
		return a(0).Transpose()
	case "Reshape":
		return a(0).Reshape(ints(in.D))
	case "UnSqueeze":
		return a(0).UnSqueeze(in.I)
	case "Squeeze":
		return a(0).Squeeze(in.I)
	case "Flatten":
		return a(0).Flatten(in.I)
	case "Broadcast":
		return a(0).Broadcast(ints(in.D))
	case "Concat":
		xs := make([]tensor.Tensor, len(in.A))
		for i := range xs {
			xs[i] = a(i)
		}
		if args != nil {
			args.Ts = append(args.Ts, xs)
		}
		return tensor.Concat(xs, in.I)
	case "SumAlong":
		return a(0).SumAlong(in.I)
	case "MaxAlong":
		return a(0).MaxAlong(in.I)
	case "MinAlong":
		return a(0).MinAlong(in.I)
	case "AvgAlong":
		return a(0).AvgAlong(in.I)
	case "VarAlong":
		return a(0).VarAlong(in.I)
	case "StdAlong":
		return a(0).StdAlong(in.I)
	case "MeanAlong":
		return a(0).MeanAlong(in.I)
	case "Scale":
		return a(0).Scale(in.F), nil
	case "Pow":
		return a(0).Pow(in.F), nil
	case "Exp":
		return a(0).Exp(), nil
	case "Log":
		return a(0).Log(), nil
	case "Sin":
		return a(0).Sin(), nil
	case "Cos":
		return a(0).Cos(), nil
	case "Tan":
		return a(0).Tan(), nil
	case "Sinh":
		return a(0).Sinh(), nil
	case "Cosh":
		return a(0).Cosh(), nil
	case "Tanh":
		return a(0).Tanh(), nil
	case "Eq":
		return a(0).Eq(a(1))
	case "Ne":
		return a(0).Ne(a(1))
	case "Gt":
		return a(0).Gt(a(1))
	case "Ge":
		return a(0).Ge(a(1))
	case "Lt":
		return a(0).Lt(a(1))
	case "Le":
		return a(0).Le(a(1))
	case "ElMax":
		return a(0).ElMax(a(1))
	case "ElMin":
		return a(0).ElMin(a(1))
	case "Add":
		return a(0).Add(a(1))
	case "Sub":
		return a(0).Sub(a(1))
	case "Mul":
		return a(0).Mul(a(1))
	case "Div":
		return a(0).Div(a(1))
	case "Dot":
		return a(0).Dot(a(1))
	case "MatMul":
		return a(0).MatMul(a(1))
	}
	return applyComp(in, a)
}

// Ref executes an instruction on the tape.
func Ref(in Ins, tp *ref.Tape, ts []*ref.T) *ref.T {
	t := refOf(in, tp, ts)
	if in.Cut > 0 {
		t = tp.Cut(t)
	}
	return t
}

func refOf(in Ins, tp *ref.Tape, ts []*ref.T) *ref.T {
	a := func(i int) *ref.T { return ts[in.A[i]] }
	switch in.Op {
	case "leaf":
		return tp.Leaf(in.D, in.V)
	case "Slice":
		return tp.Slice(a(0), in.R)
	case "Patch":
		return tp.Patch(a(0), a(1), in.R)
	case "Transpose":
		return tp.Transpose(a(0))
	case "Reshape":
		return tp.Reshape(a(0), in.D)
	case "UnSqueeze":
		return tp.Reshape(a(0), ref.UnSqueezeShape(a(0).Shape, in.I))
	case "Squeeze":
		return tp.Reshape(a(0), ref.DropDim(a(0).Shape, in.I))
	case "Flatten":
		return tp.Reshape(a(0), ref.FlattenShape(a(0).Shape, in.I))
	case "Broadcast":
		return tp.Broadcast(a(0), in.D)
	case "Concat":
		xs := make([]*ref.T, len(in.A))
		for i := range xs {
			xs[i] = a(i)
		}
		return tp.Concat(xs, in.I)
	case "SumAlong":
		return tp.SumAlong(a(0), in.I)
	case "MaxAlong":
		return tp.MaxAlong(a(0), in.I)
	case "MinAlong":
		return tp.MinAlong(a(0), in.I)
	case "AvgAlong", "MeanAlong":
		return tp.AvgAlong(a(0), in.I)
	case "VarAlong":
		return tp.VarAlong(a(0), in.I)
	case "StdAlong":
		return tp.StdAlong(a(0), in.I)
	case "Scale":
		return tp.Scale(a(0), in.F)
	case "Pow":
		return tp.Pow(a(0), in.F)
	case "Exp":
		return tp.Exp(a(0))
	case "Log":
		return tp.Log(a(0))
	case "Sin":
		return tp.Sin(a(0))
	case "Cos":
		return tp.Cos(a(0))
	case "Tan":
		return tp.Tan(a(0))
	case "Sinh":
		return tp.Sinh(a(0))
	case "Cosh":
		return tp.Cosh(a(0))
	case "Tanh":
		return tp.Tanh(a(0))
	case "Eq":
		return tp.Cmp(a(0), a(1), func(x, y float64) bool { return x == y })
	case "Ne":
		return tp.Cmp(a(0), a(1), func(x, y float64) bool { return x != y })
	case "Gt":
		return tp.Cmp(a(0), a(1), func(x, y float64) bool { return x > y })
	case "Ge":
		return tp.Cmp(a(0), a(1), func(x, y float64) bool { return x >= y })
	case "Lt":
		return tp.Cmp(a(0), a(1), func(x, y float64) bool { return x < y })
	case "Le":
		return tp.Cmp(a(0), a(1), func(x, y float64) bool { return x <= y })
	case "ElMax":
		return tp.ElMax(a(0), a(1))
	case "ElMin":
		return tp.ElMin(a(0), a(1))
	case "Add":
		return tp.Add(a(0), a(1))
	case "Sub":
		return tp.Sub(a(0), a(1))
	case "Mul":
		return tp.Mul(a(0), a(1))
	case "Div":
		return tp.Div(a(0), a(1))
	case "Dot":
		return tp.Dot(a(0), a(1))
	case "MatMul":
		return tp.MatMul(a(0), a(1))
	}
	return refComp(in, tp, a)
}

// IsCmp tells whether the op is a comparison.
func IsCmp(op string) bool {
	switch op {
	case "Eq", "Ne", "Gt", "Ge", "Lt", "Le":
		return true
	}
	return false
}

// SameShape compares shapes.
func SameShape(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Close compares with an absolute tolerance; equal infinities and NaNs agree.
func Close(a, b, tol float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a == b
	}
	return math.Abs(a-b) <= tol
}

// SameBits compares values bit by bit except that NaNs agree.
func SameBits(a, b float64) bool {
	if math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	return math.Float64bits(a) == math.Float64bits(b)
}
