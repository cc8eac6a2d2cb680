package prog

import (
	"math"

	"verif/harness/core"
	"verif/harness/ref"
)

// GenConf bounds a random program.
type GenConf struct {
	MaxRank   int
	MaxDim    int
	MaxElems  int
	Explicit  bool // allow explicit Broadcast that really expands
	Cmp       bool // allow comparisons
	FreshProb int  // 1/n chance that a leaf is added instead of an op (0: never)
}

// Builder grows a program together with its reference values.
type Builder struct {
	C    GenConf
	R    *core.R
	Tape *ref.Tape
	P    []Ins
	T    []*ref.T
}

func NewBuilder(r *core.R, c GenConf) *Builder {
	// Every so often a program over small tensors is drawn at a rank far above
	// what the library's own tests use.
	if c.MaxRank >= 2 && c.MaxRank <= 5 && r.P(8) {
		c.MaxRank = 7
		if r.P(3) {
			c.MaxRank = 18
		}
		if c.MaxDim > 4 {
			c.MaxDim = 4
		}
		if c.MaxElems < 48 {
			c.MaxElems = 48
		}
	}
	return &Builder{C: c, R: r, Tape: ref.NewTape()}
}

// Shape draws a random shape.
func (b *Builder) Shape() []int {
	return RandShape(b.R, b.C.MaxRank, b.C.MaxDim, b.C.MaxElems)
}

// RandShape draws a shape with bounded rank, sizes and element count.
func RandShape(r *core.R, maxRank, maxDim, maxElems int) []int {
	for {
		n := r.In(0, maxRank)
		if n > 8 {
			return Dims(r, n, maxDim, maxElems)
		}
		s := make([]int, n)
		for i := range s {
			s[i] = r.In(1, maxDim)
			if r.P(5) {
				s[i] = 1
			}
		}
		if ref.Prod(s) <= maxElems {
			return s
		}
	}
}

// Vals draws well-conditioned, pairwise distinct values.
func Vals(r *core.R, n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = r.Range(0.3, 2)
		if r.Bool() {
			v[i] = -v[i]
		}
	}
	return v
}

// Leaf appends a leaf.
func (b *Builder) Leaf(shape []int, tracked bool) int {
	return b.LeafV(shape, Vals(b.R, ref.Prod(shape)), tracked)
}

func (b *Builder) LeafV(shape []int, v []float64, tracked bool) int {
	return b.push(Ins{Op: "leaf", D: append([]int{}, shape...), V: v, Tracked: tracked})
}

func (b *Builder) push(in Ins) int {
	t := Ref(in, b.Tape, b.T)
	b.P = append(b.P, in)
	b.T = append(b.T, t)
	return len(b.P) - 1
}

// try appends the instruction if its reference result is well-conditioned.
func (b *Builder) try(in Ins) (int, bool) {
	mark := *b.Tape
	b.Tape.Bad = ""
	t := Ref(in, b.Tape, b.T)
	e, m, fin := b.Tape.MaxErr(t)
	if b.Tape.Bad != "" || !fin || m > 1e4 || e > 1e-10*math.Max(1, m) || len(t.N) > b.C.MaxElems*4 {
		*b.Tape = mark // appended slots are overwritten later
		return 0, false
	}
	b.P = append(b.P, in)
	b.T = append(b.T, t)
	return len(b.P) - 1, true
}

// Push appends an instruction without judging its conditioning.
func (b *Builder) Push(in Ins) int { return b.push(in) }

// Try appends a given instruction if well-conditioned.
func (b *Builder) Try(in Ins) (int, bool) { return b.try(in) }

// Cut makes the tensor a fresh leaf right after its creation (1: tracked, 2: untracked). It must be the
// most recent one.
func (b *Builder) Cut(id int, how int) {
	b.P[id].Cut = how
	b.T[id] = b.Tape.Cut(b.T[id])
}

// inRange tells whether all values of a tensor satisfy f.
func (b *Builder) all(id int, f func(v float64) bool) bool {
	for _, n := range b.T[id].N {
		if !f(b.Tape.Val[n]) {
			return false
		}
	}
	return true
}

func (b *Builder) mag(id int) float64 {
	_, m, _ := b.Tape.MaxErr(b.T[id])
	return m
}

// RandIndex draws a valid slice index for a shape, possibly partial.
func RandIndex(r *core.R, s []int) (ix []ref.R, isNil bool) {
	n := r.In(0, len(s))
	if n == 0 && r.Bool() {
		return nil, true
	}
	ix = make([]ref.R, n)
	for i := range ix {
		if r.P(4) {
			continue // {0,0}: whole dimension
		}
		f := r.Int(s[i])
		ix[i] = ref.R{From: f, To: r.In(f+1, s[i])}
	}
	return ix, false
}

// PickBy picks a random id among those satisfying f.
func (b *Builder) pick(cands []int, f func(id int) bool) (int, bool) {
	n := len(cands)
	if n == 0 {
		return 0, false
	}
	for k := 0; k < 6; k++ {
		id := cands[b.R.Int(n)]
		if f(id) {
			return id, true
		}
	}
	st := b.R.Int(n)
	for k := 0; k < n; k++ {
		id := cands[(st+k)%n]
		if f(id) {
			return id, true
		}
	}
	return 0, false
}

// RandOp appends one random operation whose operands are drawn from cands. It returns false when the
// drawn operation is not applicable or badly conditioned.
func (b *Builder) RandOp(cands []int) (int, bool) {
	r := b.R
	any := func(int) bool { return true }
	x, ok := b.pick(cands, any)
	if !ok {
		return 0, false
	}
	if r.Bool() { // prefer recent tensors: deeper graphs
		x = cands[len(cands)-1-r.Int(1+len(cands)/3)]
	}
	s := b.T[x].Shape
	rank := len(s)
	in := Ins{A: []int{x}}
	switch r.Int(26) {
	case 0:
		in.Op = "Slice"
		in.R, in.RNil = RandIndex(r, s)
	case 1:
		// patch x with a tensor of the same rank that fits
		u, ok := b.pick(cands, func(id int) bool { return fits(b.T[id].Shape, s) })
		if !ok {
			return 0, false
		}
		if u == x && r.Int(3) > 0 {
			return 0, false
		}
		in.Op, in.A = "Patch", []int{x, u}
		in.R, in.RNil = RandPatchIndex(r, s, b.T[u].Shape)
	case 2:
		if rank < 2 {
			return 0, false
		}
		in.Op = "Transpose"
	case 3:
		in.Op, in.D = "Reshape", RandFactor(r, ref.Prod(s), b.C.MaxRank)
	case 4:
		if rank >= b.C.MaxRank {
			return 0, false
		}
		in.Op, in.I = "UnSqueeze", r.In(0, rank)
	case 5:
		var ones []int
		for i, d := range s {
			if d == 1 {
				ones = append(ones, i)
			}
		}
		if len(ones) == 0 {
			return 0, false
		}
		in.Op, in.I = "Squeeze", ones[r.Int(len(ones))]
	case 6:
		if rank == 0 {
			return 0, false
		}
		in.Op, in.I = "Flatten", r.Int(rank)
	case 7:
		in.Op = "Broadcast"
		in.D = append([]int{}, s...)
		if b.C.Explicit {
			in.D = RandTarget(r, s, b.C.MaxRank, b.C.MaxDim)
		}
	case 8, 9, 10:
		if rank == 0 {
			return 0, false
		}
		in.Op, in.I = AlongOps[r.Int(len(AlongOps))], r.Int(rank)
	case 11:
		in.Op, in.F = "Scale", []float64{-1, 0.5, 2, -0.7, 1.3, 0, r.Range(-2, 2)}[r.Int(7)]
	case 12:
		in.Op, in.F = "Pow", []float64{0, 1, 2, 3, -1, -2, 0.5, 1.5, 2.5, r.Range(-2, 3)}[r.Int(10)]
		if in.F != math.Trunc(in.F) && !b.all(x, func(v float64) bool { return v > 0.05 }) {
			return 0, false
		}
		if in.F < 0 && !b.all(x, func(v float64) bool { return math.Abs(v) > 0.2 }) {
			return 0, false
		}
	case 13, 14:
		in.Op = UnaryOps[r.Int(len(UnaryOps))]
		lim := 4.
		switch in.Op {
		case "Log":
			if !b.all(x, func(v float64) bool { return v > 0.1 }) {
				return 0, false
			}
			lim = 1e4
		case "Tan":
			if !b.all(x, func(v float64) bool { return math.Abs(math.Cos(v)) > 0.2 }) {
				return 0, false
			}
		}
		if b.mag(x) > lim {
			return 0, false
		}
	case 15, 16:
		y, ok := b.pick(cands, func(id int) bool { return SameShape(b.T[id].Shape, s) })
		if !ok {
			return 0, false
		}
		in.Op, in.A = []string{"ElMax", "ElMin"}[r.Int(2)], []int{x, y}
		if b.C.Cmp && r.P(3) {
			in.Op = CmpOps[r.Int(len(CmpOps))]
		}
	case 17, 18, 19, 20, 21:
		y, ok := b.pick(cands, func(id int) bool { _, k := ref.BShape(b.T[id].Shape, s); return k })
		if !ok {
			return 0, false
		}
		in.Op, in.A = ArithOps[r.Int(4)], []int{x, y}
		if r.Bool() {
			in.A = []int{y, x}
		}
		if in.Op == "Div" && !b.all(in.A[1], func(v float64) bool { return math.Abs(v) > 0.2 }) {
			return 0, false
		}
	case 22:
		if rank == 0 {
			return 0, false
		}
		y, ok := b.pick(cands, func(id int) bool { return DotOK(s, b.T[id].Shape) })
		if !ok {
			return 0, false
		}
		in.Op, in.A = "Dot", []int{x, y}
	case 23, 24:
		if rank < 2 {
			return 0, false
		}
		y, ok := b.pick(cands, func(id int) bool { return MatMulOK(s, b.T[id].Shape) })
		if !ok {
			return 0, false
		}
		in.Op, in.A = "MatMul", []int{x, y}
	case 25:
		if rank == 0 {
			return 0, false
		}
		in.Op, in.I = "Concat", r.Int(rank)
		n := r.In(1, 3)
		for i := 0; i < n; i++ {
			y, ok := b.pick(cands, func(id int) bool { return concatOK(s, b.T[id].Shape, in.I) })
			if !ok {
				return 0, false
			}
			in.A = append(in.A, y)
		}
	}
	return b.try(in)
}

func fits(u, s []int) bool {
	if len(u) != len(s) {
		return false
	}
	for i := range u {
		if u[i] > s[i] {
			return false
		}
	}
	return true
}

// RandPatchIndex draws a valid patch index (partial / whole ranges included).
func RandPatchIndex(r *core.R, dst, src []int) ([]ref.R, bool) {
	n := r.In(0, len(dst))
	if n == 0 && r.Bool() {
		return nil, true
	}
	ix := make([]ref.R, n)
	for i := range ix {
		if r.P(4) {
			continue
		}
		f := r.In(0, dst[i]-src[i])
		ix[i] = ref.R{From: f, To: f + src[i]}
	}
	return ix, false
}

// RandFactor splits n into a random shape with that many elements.
func RandFactor(r *core.R, n, maxRank int) []int {
	if n == 1 && r.P(3) {
		return []int{}
	}
	if maxRank < 1 {
		maxRank = 1
	}
	k := r.In(1, maxRank)
	s := make([]int, k)
	for i := range s {
		s[i] = 1
	}
	for p := 2; n > 1; {
		if p*p > n {
			p = n
		}
		if n%p == 0 {
			s[r.Int(k)] *= p
			n /= p
		} else {
			p++
		}
	}
	return s
}

// RandTarget draws a valid broadcast target.
func RandTarget(r *core.R, s []int, maxRank, maxDim int) []int {
	var o []int
	if len(s) < maxRank {
		for i := r.Int(maxRank - len(s) + 1); i > 0; i-- {
			d := r.In(1, maxDim)
			if maxRank > 8 && (r.P(2) || ref.Prod(o) > 16) {
				d = 1
			}
			o = append(o, d)
		}
	}
	for _, d := range s {
		if d == 1 && r.Bool() && !(maxRank > 8 && ref.Prod(o)*ref.Prod(s) > 256) {
			d = r.In(1, maxDim)
		}
		o = append(o, d)
	}
	if o == nil {
		o = []int{}
	}
	return o
}

func DotOK(a, b []int) bool {
	if len(a) == 0 || len(b) == 0 || a[len(a)-1] != b[len(b)-1] {
		return false
	}
	_, ok := ref.BShape(a[:len(a)-1], b[:len(b)-1])
	return ok
}

func MatMulOK(a, b []int) bool {
	if len(a) < 2 || len(b) < 2 || a[len(a)-1] != b[len(b)-2] {
		return false
	}
	_, ok := ref.BShape(a[:len(a)-2], b[:len(b)-2])
	return ok
}

func concatOK(a, b []int, dim int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if i != dim && a[i] != b[i] {
			return false
		}
	}
	return true
}
