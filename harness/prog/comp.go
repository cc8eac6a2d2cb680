package prog

import (
	"fmt"

	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/ref"
)

// Component instructions: activations (F: slope of LeakyRelu, I: dimension of Softmax, RNil: nil
// configuration), FC (operands W, B, x) and losses (operands prediction, target).

// CompOps lists them.
var CompOps = []string{"Relu", "LeakyRelu", "Sigmoid", "TanhAct", "Softmax", "FC", "MSE", "BCE", "CE"}

type forwarder = interface {
	Forward(...tensor.Tensor) (tensor.Tensor, error)
}

type computer = interface {
	Compute(tensor.Tensor, tensor.Tensor) (tensor.Tensor, error)
}

// objects holds the component objects used so far in the current case (single goroutine), nil: every
// application builds its own.
var objects map[string]any

// ShareObjects starts a case whose activations and losses of equal configuration are one object each (or not).
func ShareObjects(on bool) {
	objects = nil
	if on {
		objects = map[string]any{}
	}
}

// Noise, if set, decides which shared component objects have a call rejected before they are used.
var Noise *core.R

// rejected runs an invalid call, whose outcome is not judged here, on a shared object.
func rejected(f func(r *core.R, t tensor.Tensor)) {
	if objects == nil || Noise == nil || !Noise.P(6) {
		return
	}
	defer func() { _ = recover() }()
	t, err := tensor.Ones([]int{2, 1, 2}[:Noise.In(0, 3)], Conf(Noise.Bool()))
	if err == nil {
		f(Noise, t)
	}
}

// Activation gives the real activation of an instruction.
func Activation(in Ins) (forwarder, error) {
	f, err := activation(in)
	if err == nil {
		rejected(func(r *core.R, t tensor.Tensor) {
			switch r.Int(4) {
			case 0:
				_, _ = f.Forward()
			case 1:
				_, _ = f.Forward(nil)
			case 2:
				_, _ = f.Forward(t, t)
			case 3:
				if t, err = tensor.Ones(nil, Conf(r.Bool())); err == nil && in.Op == "Softmax" {
					_, _ = f.Forward(t)
				}
				err = nil
			}
		})
	}
	return f, err
}

// Loss gives the real loss of an operation name.
func Loss(op string) computer {
	l := loss(op)
	rejected(func(r *core.R, t tensor.Tensor) {
		switch r.Int(4) {
		case 0:
			_, _ = l.Compute(nil, t)
		case 1:
			_, _ = l.Compute(t, nil)
		default:
			u, err := tensor.Zeros([]int{3, 3}[:r.In(0, 2)], Conf(r.Bool()))
			if err == nil {
				_, _ = l.Compute(t, u)
			}
		}
	})
	return l
}

func activation(in Ins) (forwarder, error) {
	if objects == nil {
		return newActivation(in)
	}
	k := fmt.Sprint(in.Op, in.RNil, in.F, in.I)
	if f, ok := objects[k]; ok {
		return f.(forwarder), nil
	}
	f, err := newActivation(in)
	if err == nil {
		objects[k] = f
	}
	return f, err
}

func loss(op string) computer {
	if l, ok := objects[op]; ok {
		return l.(computer)
	}
	var l computer
	switch op {
	case "MSE":
		l = losses.NewMSE()
	case "BCE":
		l = losses.NewBCE()
	case "CE":
		l = losses.NewCE()
	default:
		panic("prog: unknown loss " + op)
	}
	if objects != nil {
		objects[op] = l
	}
	return l
}

func newActivation(in Ins) (forwarder, error) {
	switch in.Op {
	case "Relu":
		return activations.NewRelu(), nil
	case "LeakyRelu":
		if in.RNil {
			return activations.NewLeakyRelu(nil), nil
		}
		return activations.NewLeakyRelu(&activations.LeakyReluConfig{M: in.F}), nil
	case "Sigmoid":
		return activations.NewSigmoid(), nil
	case "TanhAct":
		return activations.NewTanh(), nil
	case "Softmax":
		if in.RNil {
			return activations.NewSoftmax(nil)
		}
		return activations.NewSoftmax(&activations.SoftmaxConfig{Dim: in.I})
	}
	panic("prog: unknown op " + in.Op)
}

func applyComp(in Ins, a func(i int) tensor.Tensor) (tensor.Tensor, error) {
	switch in.Op {
	case "FC":
		l := &layers.FC{}
		if objects != nil {
			if o, ok := objects["FC"]; ok {
				l = o.(*layers.FC)
			}
			objects["FC"] = l
		}
		l.Weight, l.Bias = a(0), a(1)
		return l.Forward(a(2))
	case "MSE", "BCE", "CE":
		return Loss(in.Op).Compute(a(0), a(1))
	}
	l, err := Activation(in)
	if err != nil {
		return nil, err
	}
	return l.Forward(a(0))
}

// Slope is the effective LeakyRelu slope of an instruction.
func (in Ins) Slope() float64 {
	if in.RNil {
		return 0.01
	}
	return in.F
}

func refComp(in Ins, tp *ref.Tape, a func(i int) *ref.T) *ref.T {
	switch in.Op {
	case "Relu":
		return tp.Relu(a(0), 0)
	case "LeakyRelu":
		return tp.Relu(a(0), in.Slope())
	case "Sigmoid":
		return tp.Sigmoid(a(0))
	case "TanhAct":
		return tp.Tanh(a(0))
	case "Softmax":
		d := in.I
		if in.RNil {
			d = 0
		}
		return tp.Softmax(a(0), d)
	case "FC":
		return tp.FC(a(0), a(1), a(2))
	case "MSE":
		return tp.MSE(a(0), a(1))
	case "BCE":
		return tp.Xent(a(0), a(1), true)
	case "CE":
		return tp.Xent(a(0), a(1), false)
	}
	panic("prog: unknown op " + in.Op)
}
