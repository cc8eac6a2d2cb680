package prog

import (
	"math"

	"verif/harness/core"
	"verif/harness/ref"
)

// DiffOps are all differentiable operations.
var DiffOps = []string{
	"Slice", "Patch", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Broadcast", "Concat",
	"SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong",
	"Scale", "Pow", "Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh",
	"ElMax", "ElMin", "Add", "Sub", "Mul", "Div", "Dot", "MatMul",
}

// Dims draws a shape of exactly the given rank.
func Dims(r *core.R, rank, maxDim, maxElems int) []int {
	if rank > 8 { // mostly size 1
		s := make([]int, rank)
		for i := range s {
			s[i] = 1
		}
		for k := r.In(1, 5); k > 0; k-- {
			i := r.Int(rank)
			if d := r.In(2, max(2, maxDim)); s[i] == 1 && ref.Prod(s)*d <= maxElems {
				s[i] = d
			}
		}
		return s
	}
	for {
		s := make([]int, rank)
		for i := range s {
			s[i] = r.In(1, maxDim)
			if r.P(5) {
				s[i] = 1
			}
		}
		if ref.Prod(s) <= maxElems {
			return s
		}
		if maxDim > 2 && r.P(3) {
			maxDim--
		}
	}
}

// BPair draws two shapes compatible under right-aligned broadcasting.
func BPair(r *core.R, maxRank, maxDim, maxElems int) ([]int, []int) {
	for {
		full := Dims(r, r.In(0, maxRank), maxDim, maxElems)
		cut := func() []int {
			s := append([]int{}, full...)
			for i := range s {
				if r.P(3) {
					s[i] = 1
				}
			}
			if r.Bool() && len(s) > 0 {
				s = s[r.In(0, len(s)):]
			}
			return s
		}
		a, b := cut(), cut()
		if r.P(4) {
			a, b = full, append([]int{}, full...)
		}
		if o, ok := ref.BShape(a, b); ok && ref.Prod(o) <= maxElems {
			return a, b
		}
	}
}

// Single is one operation with the shapes of its operands; operand i is tensor i.
type Single struct {
	Shapes [][]int
	In     Ins
}

// Sizes are the dimension sizes (and element counts) of the sizes families: everything up to 40, then round numbers,
// powers of two and multiples of usual tile and batch sizes with their neighbours.
var Sizes = func() []int {
	var s []int
	for i := 4; i <= 40; i++ {
		s = append(s, i)
	}
	return append(s, 48, 49, 50, 56, 60, 63, 64, 65, 72, 80, 81, 96, 99, 100, 101, 112, 120, 121, 125, 127, 128, 129, 144, 150, 160, 192, 196, 199, 200, 201, 224, 225, 240,
		250, 255, 256, 257, 300, 320, 360, 384, 400, 448, 480, 499, 500, 501, 511, 512, 513, 576, 600, 625, 640, 700, 720, 729, 750, 768, 784, 800, 900, 960, 999, 1000, 1001,
		1023, 1024, 1025, 1200, 1280, 1296, 1500, 1536, 1600, 1920, 1999, 2000, 2001, 2047, 2048, 2049, 2187, 2400, 2500, 2560, 3000, 3072, 3125, 3600, 4000, 4095, 4096, 4097,
		5000, 5120, 6000, 6144, 7000, 7200, 8000, 8191, 8192, 8193, 9000, 9999, 10000, 10001, 10240, 12000, 15000, 16000, 16383, 16384, 16385, 20000, 24000, 25000, 30000,
		32767, 32768, 32769, 40000, 49152, 50000, 60000, 65535, 65536, 65537)
}()

// SizedDims draws a shape of rank >= lo. Positive size: one dimension, or the number of elements, is exactly size.
// Not positive: the number of elements lies just beyond 2^(16-size).
func SizedDims(r *core.R, size, lo int) []int {
	if size <= 0 {
		f := 1 << -size
		s := [][]int{{r.In(65536, 67000) * f}, {r.In(257, 262) * f, r.In(256, 260)}, {2, r.In(32769, 33000) * f}, {r.In(32769, 33000) * f, 2}, {1, r.In(65537, 66000) * f, 1},
			{41, 40 * f, r.In(40, 42)}, {17, 16, 16, r.In(16, 17) * f}, {2, 3, 2, 3, 2, 3, 2, 3, 2, 3, 9 * f}}[r.Int(8)]
		for len(s) < lo {
			s = append(s, 1)
		}
		return s
	}
	if r.P(4) && SizePos > 1 || r.P(8) {
		s := RandFactor(r, size, 4)
		for len(s) < lo {
			s = append(s, 1)
		}
		return s
	}
	s := make([]int, r.In(max(1, lo), 4))
	for i := range s {
		s[i] = 1
	}
	switch at := r.Int(len(s)); {
	case SizePos == 0:
		s[0] = size
	case SizePos == 1:
		s[len(s)-1] = size
	default:
		s[at] = size
	}
	room := max(size, 3000)
	if len(s) > 1 && size*size <= 20000 && r.P(4) { // another one
		s[r.Int(len(s))] = size
	}
	for i := range s {
		if m := min(room/ref.Prod(s), 40); s[i] == 1 && m > 1 && r.P(4) {
			s[i] = r.In(2, m)
		} else if s[i] == 1 && m > 1 {
			s[i] = r.In(1, min(3, m))
		}
	}
	return s
}

// SizePos says where SizedDims puts the size: first (0), last (1), anywhere.
var SizePos = 2

// GenSized draws a valid application of op with an operand or a result of SizedDims.
func GenSized(r *core.R, op string, size int) Single {
	in := Ins{Op: op, A: []int{0, 1}}
	lo := 1
	switch op {
	case "Transpose", "MatMul":
		lo = 2
	}
	s := SizedDims(r, size, lo)
	cut := func() []int {
		u := append([]int{}, s...)
		for i := range u {
			if r.P(3) {
				u[i] = 1
			}
		}
		return u[r.In(0, len(u)-1):]
	}
	swap := func(a, b []int) Single {
		if r.Bool() {
			a, b = b, a
		}
		return Single{[][]int{a, b}, in}
	}
	switch op {
	case "Add", "Sub", "Mul", "Div":
		if r.P(4) {
			return Single{[][]int{s, append([]int{}, s...)}, in}
		}
		if r.P(5) && len(s) > 1 { // neither has the result's shape
			k := r.Int(len(s))
			a, b := append([]int{}, s...), append([]int{}, s...)
			a[k], b[(k+1)%len(s)] = 1, 1
			return swap(a, b)
		}
		return swap(s, cut())
	case "Dot":
		k := s[len(s)-1]
		if r.P(4) && size > 0 { // the size is among the batch dimensions
			k = r.In(1, 4)
			s = append(s, k)
		}
		u := cut()
		u[len(u)-1] = k
		return swap(s, u)
	case "MatMul":
		if size <= 0 {
			b, f := r.In(16400, 16600), 1<<-size
			w := [][][]int{{{r.In(257, 262), 3}, {3, r.In(256, 260) * f}}, {{1, r.In(65537, 66000) * f}, {0, 2}}, {{b * f, 2, 2}, {2, 2}}, {{2, 1}, {b * f, 1, 2}}}[r.Int(4)]
			if w[1][0] == 0 {
				w[1][0] = w[0][1]
			}
			return Single{w, in}
		}
		d := []int{r.In(1, 3), r.In(1, 3), r.In(1, 3)} // m, k, n
		var a, b []int
		switch p := r.Perm(3); {
		case r.P(5): // a batch
			a, b = append(a, size), append(b, size)
			if k := r.Int(5); k == 0 {
				a = nil
			} else if k == 1 {
				b = nil
			} else if k == 2 {
				a[0] = 1
			} else if k == 3 {
				b[0] = 1
			}
		case size <= 50 && r.Bool():
			d = []int{size, size, size}
		case size <= 260 && r.P(3):
			d[p[0]], d[p[1]] = size, size
		case size <= 1100 && r.P(3):
			d[p[0]], d[p[1]] = size, r.In(2, 40)
		default:
			d[p[0]] = size
		}
		if len(a)+len(b) == 0 && size <= 50 && r.P(3) {
			a = []int{r.In(1, 3)}
		}
		return Single{[][]int{append(a, d[0], d[1]), append(b, d[1], d[2])}, in}
	case "Broadcast":
		in.A, in.D = []int{0}, s
		u := cut()
		if r.P(3) { // the size survives
			in.D, u = append([]int{r.In(1, 3)}, s...), s
		}
		return Single{[][]int{u}, in}
	case "Squeeze":
		in.A = []int{0}
		in.I = r.In(0, len(s))
		return Single{[][]int{append(append(append([]int{}, s[:in.I]...), 1), s[in.I:]...)}, in}
	case "Concat":
		in.I = r.Int(len(s))
		for i := 0; i < in.I; i++ { // quadratic time in the rows before I
			if s[i] > 70000 || (s[i] > 12000 && r.Int(4) > 0) {
				in.I = r.In(0, i)
			}
		}
		n := r.In(2, 4)
		in.A = make([]int, n)
		sh := make([][]int, n)
		left := s[in.I]
		for k := range sh {
			in.A[k] = k
			sh[k] = append([]int{}, s...)
			if k > 0 {
				sh[k][in.I] = r.In(1, max(1, min(9, 20000/(ref.Prod(s)/s[in.I]))))
			}
		}
		if left >= n && r.Bool() { // the result has the size
			for k := range sh {
				m := r.In(1, left-(n-1-k))
				if k == n-1 {
					m = left
				}
				sh[k][in.I] = m
				left -= m
			}
		}
		p := r.Perm(n)
		o := make([][]int, n)
		for k := range o {
			o[k] = sh[p[k]]
		}
		return Single{o, in}
	case "Slice":
		if r.Bool() { // the result has the size
			u := append([]int{}, s...)
			in.R = make([]ref.R, len(s))
			for i := range s {
				f := 0
				if e := r.Int(6); e > 0 && ref.Prod(u)/u[i]*(u[i]+e) <= max(6000, 2*ref.Prod(s)) {
					u[i] += e
					f = r.In(0, e)
				}
				in.R[i] = ref.R{From: f, To: f + s[i]}
			}
			in.A = []int{0}
			return Single{[][]int{u}, in}
		}
	case "Patch":
		if r.Bool() { // the source has the size
			u := append([]int{}, s...)
			for i := range u {
				if e := r.Int(3); ref.Prod(u)/u[i]*(u[i]+e) <= max(6000, 2*ref.Prod(s)) {
					u[i] += e
				}
			}
			in.R, in.RNil = RandPatchIndex(r, u, s)
			return Single{[][]int{u, s}, in}
		}
	}
	return genSingle(r, op, 4, 9, 1<<17, func(int) []int { return s }, nil)
}

// GenSingle draws a valid application of op.
func GenSingle(r *core.R, op string, maxRank, maxDim, maxElems int) Single {
	one := func(min int) []int {
		m := maxRank
		if m < min {
			m = min
		}
		return Dims(r, r.In(min, m), maxDim, maxElems)
	}
	return genSingle(r, op, maxRank, maxDim, maxElems, one, func(rank, el int) ([]int, []int) { return BPair(r, rank, maxDim, el) })
}

func genSingle(r *core.R, op string, maxRank, maxDim, maxElems int, one func(int) []int, pair func(rank, el int) ([]int, []int)) Single {
	in := Ins{Op: op, A: []int{0}}
	switch op {
	case "Slice":
		s := one(0)
		in.R, in.RNil = RandIndex(r, s)
		return Single{[][]int{s}, in}
	case "Patch":
		s := one(0)
		u := append([]int{}, s...)
		for i := range u {
			if r.Bool() {
				u[i] = r.In(1, s[i])
			}
		}
		in.A = []int{0, 1}
		in.R, in.RNil = RandPatchIndex(r, s, u)
		return Single{[][]int{s, u}, in}
	case "Transpose":
		return Single{[][]int{one(2)}, in}
	case "Reshape":
		s := one(0)
		in.D = RandFactor(r, ref.Prod(s), maxRank)
		return Single{[][]int{s}, in}
	case "UnSqueeze":
		s := one(0)
		in.I = r.In(0, len(s))
		return Single{[][]int{s}, in}
	case "Squeeze":
		s := one(1)
		in.I = r.Int(len(s))
		s[in.I] = 1
		return Single{[][]int{s}, in}
	case "Flatten":
		s := one(1)
		in.I = r.Int(len(s))
		return Single{[][]int{s}, in}
	case "Broadcast":
		s := one(0)
		in.D = RandTarget(r, s, maxRank+1, maxDim)
		for ref.Prod(in.D) > 4*maxElems {
			in.D = append([]int{}, s...)
		}
		return Single{[][]int{s}, in}
	case "Concat":
		s := one(1)
		in.I = r.Int(len(s))
		n := r.In(2, 4)
		sh := make([][]int, n)
		in.A = make([]int, n)
		for k := range sh {
			sh[k] = append([]int{}, s...)
			sh[k][in.I] = r.In(1, maxDim)
			in.A[k] = k
		}
		return Single{sh, in}
	case "SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong":
		s := one(1)
		in.I = r.Int(len(s))
		return Single{[][]int{s}, in}
	case "Scale":
		in.F = []float64{0, 1, -1, 0.5, -2.5, 1e-3, 1e3, r.Range(-10, 10)}[r.Int(8)]
		return Single{[][]int{one(0)}, in}
	case "Pow":
		in.F = []float64{0, 1, 2, 3, 4, -1, -2, -3, 0.5, 1.5, -0.5, r.Range(-3, 4)}[r.Int(12)]
		return Single{[][]int{one(0)}, in}
	case "Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh":
		return Single{[][]int{one(0)}, in}
	case "Eq", "Ne", "Gt", "Ge", "Lt", "Le", "ElMax", "ElMin":
		s := one(0)
		in.A = []int{0, 1}
		return Single{[][]int{s, append([]int{}, s...)}, in}
	case "Add", "Sub", "Mul", "Div":
		a, b := pair(maxRank, maxElems)
		in.A = []int{0, 1}
		return Single{[][]int{a, b}, in}
	case "Dot":
		a, b := pair(maxRank-1, maxElems)
		full, _ := ref.BShape(a, b)
		for maxDim > 2 && maxDim*ref.Prod(full) > 4*maxElems {
			maxDim--
		}
		k := r.In(1, maxDim)
		in.A = []int{0, 1}
		return Single{[][]int{append(a, k), append(b, k)}, in}
	case "MatMul":
		m := maxRank - 2
		if m < 0 {
			m = 0
		}
		a, b := pair(m, 1+maxElems/4)
		full, _ := ref.BShape(a, b)
		for maxDim > 2 && maxDim*maxDim*maxDim*ref.Prod(full) > 20*maxElems {
			maxDim--
		}
		m, k, n := r.In(1, maxDim), r.In(1, maxDim), r.In(1, maxDim)
		in.A = []int{0, 1}
		return Single{[][]int{append(append([]int{}, a...), m, k), append(append([]int{}, b...), k, n)}, in}
	}
	panic("prog: GenSingle " + op)
}

// OpVals draws operand values for a regime in which op is differentiable (mostly: the tape flags the rest).
func OpVals(r *core.R, in Ins, operand, n, regime int) []float64 {
	v := make([]float64, n)
	sgn := func() float64 {
		if r.Bool() {
			return -1
		}
		return 1
	}
	logu := func(lo, hi float64) float64 { return math.Pow(10, r.Range(lo, hi)) }
	ext := r.Int(4) // of regime 6: an operand may be far larger if the other one is far smaller
	positive := in.Op == "Log" || (in.Op == "Pow" && in.F != math.Trunc(in.F))
	nonzero := in.Op == "Log" || (in.Op == "Pow" && in.F < 1 && in.F != 0) || (in.Op == "Div" && operand == 1)
	for i := range v {
		var x float64
		switch regime {
		case 0:
			x = sgn() * r.Range(0.3, 2)
		case 1: // small integers and zeros
			x = float64(r.In(-3, 3))
		case 2: // tiny
			x = sgn() * logu(-60, -5)
			switch in.Op {
			case "MaxAlong", "MinAlong", "ElMax", "ElMin", "Add", "Sub", "Scale", "SumAlong", "AvgAlong", "MeanAlong", "Slice", "Patch", "Concat", "Exp", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh":
				x = sgn() * logu(-290, -100)
			}
		case 3: // large
			x = sgn() * logu(1, 40)
			switch in.Op {
			case "Exp", "Sinh", "Cosh":
				x = r.Range(-300, 300)
			case "Sin", "Cos", "Tan":
				x = r.Range(-1e4, 1e4)
			case "Tanh":
				x = sgn() * logu(0, 6)
			case "Pow":
				x = sgn() * logu(1, 20)
			}
		case 4: // clustered: distinct values that are very close, around a common offset
			x = 1 + float64(r.In(-400, 400))*2.220446049250313e-16*[]float64{1, 1e3, 1e9}[i%3]
			switch in.Op {
			case "VarAlong", "StdAlong":
				x = 1000 + r.Range(-1, 1)
			}
		case 5: // mixture
			x = sgn() * logu(-8, 8)
			switch in.Op {
			case "Exp", "Sinh", "Cosh", "Tan", "Sin", "Cos":
				x = sgn() * logu(-8, 2)
			}
			if r.P(5) {
				x = 0
			}
			if r.P(12) {
				x = sgn() * float64(r.In(1, 1<<r.In(1, 40))) * 5e-324
			}
		}
		if x == 0 && r.Bool() {
			x = math.Copysign(0, -1)
		}
		if regime == 6 { // extreme magnitudes, as far as the operation and its derivative stay representable
			e := 307.
			switch in.Op {
			case "Mul", "Dot", "MatMul", "VarAlong", "StdAlong":
				e = 145
			case "Div":
				e = 95
			case "Pow":
				e = math.Min(300, 290/math.Max(1, math.Abs(in.F-1)))
			case "Broadcast", "SumAlong", "AvgAlong", "MeanAlong":
				e = 303
			case "Scale":
				e = 280
			}
			x = sgn() * logu(-e, e)
			if r.P(3) {
				x = sgn() * logu(e-9, e)
			}
			switch in.Op {
			case "Mul", "Dot", "MatMul":
				if ext == 0 {
					x = sgn() * logu(150, 290)
				} else if ext == 1 {
					x = sgn() * logu(-300, -160)
				}
			case "Exp", "Sinh", "Cosh":
				x = r.Range(-690, 690)
			}
		}
		if positive {
			x = math.Abs(x)
		}
		if nonzero && math.Abs(x) < 1e-300 {
			x = []float64{1, 0.5, 2}[r.Int(3)]
		}
		v[i] = x
	}
	return v
}

// Regimes is the number of value regimes of OpVals.
const Regimes = 7
