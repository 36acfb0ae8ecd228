// Package c16 holds the contracts of the loss functions and activations.
package c16

import (
	"math"

	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

func in(name string, lo, hi float64) float64 { return spec.FloatsIn(name, 1, lo, hi)[0] }

type problem struct {
	n, k, o, N        int
	X, Y, T           *mat.Dense
	P, D, grad        *mat.Dense
	act               base.Activation
	kind, start       int
	alpha, l1         float64
	first             bool
	withGrad, penalty bool
}

func newProblem(kinds []int, penalty bool) *problem {
	p := &problem{n: spec.Nat("n", 1), N: spec.Nat("samples of all batches", 1), k: spec.Nat("k", 1), o: 1, withGrad: true, penalty: penalty}
	p.kind = kinds[0]
	if len(kinds) > 1 {
		p.kind = kinds[spec.Choose("activation", len(kinds))]
	}
	p.act = []base.Activation{base.Identity{}, base.Logistic{}, base.Tanh{}, base.ReLU{}}[p.kind]
	if !penalty {
		p.o = spec.Nat("outputs", 1)
		p.withGrad = spec.Choose("gradient wanted", 2) == 1
		p.first = spec.Bool("first feature not regularized")
		p.l1 = in("l1 ratio", 0, 1)
	} else {
		if spec.Choose("several outputs", 2) == 1 {
			p.o = spec.Nat("outputs", 2)
		}
		if spec.Choose("first feature not regularized", 2) == 1 {
			p.first, p.start = true, 1
		}
		p.alpha = in("alpha", 0.001, 100)
		switch spec.Choose("l1 ratio", 3) {
		case 0:
			p.l1 = 0
		case 1:
			p.l1 = in("l1 ratio", 0.0001, 0.9999)
		case 2:
			p.l1 = 1
		}
	}
	p.X, p.Y, p.T = spec.Matrix("X", p.n, p.k), spec.MatrixIn("Y", p.n, p.o, 0, 1), spec.Matrix("theta", p.k, p.o)
	p.P, p.D = spec.Matrix("prediction storage", p.n, p.o), spec.Matrix("difference storage", p.n, p.o)
	if p.withGrad {
		p.grad = spec.Matrix("gradient storage", p.k, p.o)
	}
	return p
}

// z is the linear predictor, h the activation of it.
func (p *problem) z(i, o int) float64 {
	return spec.Sum(p.k, func(j int) float64 { return p.X.At(i, j) * p.T.At(j, o) })
}

func (p *problem) h(i, o int) float64 { return p.act.F(p.z(i, o)) }

func (p *problem) call(f linearmodel.Loss) float64 {
	fz := spec.Freeze(p.X, p.Y, p.T)
	J := f(p.Y, p.X, p.T, p.P, p.D, p.grad, p.alpha, p.l1, p.N, p.act, p.first)
	spec.Assert("predictions", spec.Forall2(p.n, p.o, func(i, o int) bool { return spec.Eq(p.P.At(i, o), p.h(i, o)) }))
	spec.Assert("differences", spec.Forall2(p.n, p.o, func(i, o int) bool { return spec.Eq(p.D.At(i, o), p.h(i, o)-p.Y.At(i, o)) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
	return J
}

// norm is the absolute value of a coefficient, or the norm of the coefficients of a feature over several outputs.
func (p *problem) norm(j int) float64 {
	if p.o == 1 {
		return math.Abs(p.T.At(j, 0))
	}
	return math.Sqrt(spec.Sum(p.o, func(o int) float64 { return p.T.At(j, o) * p.T.At(j, o) }))
}

// cost is the penalty alpha*(l1*|theta| + (1-l1)*theta²) of the regularized features.
func (p *problem) cost() float64 {
	if !p.penalty {
		return 0
	}
	return p.alpha * (p.l1*spec.Sum(p.k-p.start, func(j int) float64 { return p.norm(j + p.start) }) +
		(1-p.l1)*spec.Sum(p.k-p.start, func(j int) float64 {
			return spec.Sum(p.o, func(o int) float64 { return p.T.At(j+p.start, o) * p.T.At(j+p.start, o) })
		}))
}

// slope is the derivative of the penalty.
func (p *problem) slope(j, o int) float64 {
	if !p.penalty || j < p.start {
		return 0
	}
	t := p.T.At(j, o)
	d := 2 * (1 - p.l1) * t
	if p.norm(j) != 0 {
		d += p.l1 * t / p.norm(j)
	}
	return p.alpha * d
}

func (p *problem) square() {
	J := p.call(linearmodel.SquareLoss)
	spec.Assert("cost", spec.Eq(J, (spec.Sum(p.n, func(i int) float64 {
		return spec.Sum(p.o, func(o int) float64 { return (p.h(i, o) - p.Y.At(i, o)) * (p.h(i, o) - p.Y.At(i, o)) })
	})+p.cost())/(2*float64(p.N))))
	if p.withGrad {
		spec.Assert("gradient", spec.Forall2(p.k, p.o, func(j, o int) bool {
			return spec.Eq(p.grad.At(j, o), (spec.Sum(p.n, func(i int) float64 {
				return (p.h(i, o) - p.Y.At(i, o)) * p.X.At(i, j) * p.act.Fprime(p.h(i, o))
			})+p.slope(j, o)/2)/float64(p.N))
		}))
	}
}

// ContractSquareLoss: half the mean squared error, and its gradient.
func ContractSquareLoss() { newProblem([]int{0, 1, 2, 3}, false).square() }

// ContractSquareLossPenalty: half the mean squared error plus penalty, and its gradient.
func ContractSquareLossPenalty() { newProblem([]int{0}, true).square() }

// ContractLogLoss: mean of -y log(h), and its gradient.
func ContractLogLoss() { newProblem([]int{0, 1, 2, 3}, false).log() }

// ContractLogLossPenalty: the same plus the penalty and its gradient.
func ContractLogLossPenalty() { newProblem([]int{1}, true).log() }

func (p *problem) log() {
	p.regular()
	J := p.call(linearmodel.LogLoss)
	spec.Assert("cost", spec.Eq(J, (spec.Sum(p.n, func(i int) float64 {
		return spec.Sum(p.o, func(o int) float64 {
			h, eps := p.h(i, o), 1e-10
			if h == 0 {
				h += eps
			} else if h == 1 {
				h -= eps
			}
			return -p.Y.At(i, o) * math.Log(h)
		})
	})+p.cost())/float64(p.N)))
	if p.withGrad {
		spec.Assert("gradient", spec.Forall2(p.k, p.o, func(j, o int) bool {
			return spec.Eq(p.grad.At(j, o), (spec.Sum(p.n, func(i int) float64 {
				return -p.Y.At(i, o) * p.act.Fprime(p.h(i, o)) / p.h(i, o) * p.X.At(i, j)
			})+p.slope(j, o))/float64(p.N))
		}))
	}
}

// regular keeps concrete runs away from predictions whose logarithm is undefined or ill-conditioned.
func (p *problem) regular() {
	spec.Regular(spec.Forall2(p.n, p.o, func(i, o int) bool { return 1e-4 < p.h(i, o) && p.h(i, o) < 1-1e-4 }))
}

// ContractCrossEntropyLoss: mean of -y log(h) - (1-y) log(1-h), and its gradient.
func ContractCrossEntropyLoss() { newProblem([]int{0, 1, 2, 3}, false).crossEntropy() }

// ContractCrossEntropyLossPenalty: the same plus the penalty and its gradient.
func ContractCrossEntropyLossPenalty() { newProblem([]int{1}, true).crossEntropy() }

func (p *problem) crossEntropy() {
	p.regular()
	J := p.call(linearmodel.CrossEntropyLoss)
	spec.Assert("cost", spec.Eq(J, (spec.Sum(p.n, func(i int) float64 {
		return spec.Sum(p.o, func(o int) float64 {
			h, eps := p.h(i, o), 1e-10
			if h <= 0 {
				h = eps
			} else if h >= 1 {
				h = 1 - eps
			}
			return -p.Y.At(i, o)*math.Log(h) - (1-p.Y.At(i, o))*math.Log1p(-h)
		})
	})+p.cost2())/float64(p.N)))
	if p.withGrad {
		spec.Assert("gradient", spec.Forall2(p.k, p.o, func(j, o int) bool {
			return spec.Eq(p.grad.At(j, o), (spec.Sum(p.n, func(i int) float64 {
				y, h := p.Y.At(i, o), p.h(i, o)
				if p.kind == 1 {
					return p.X.At(i, j) * (h - y)
				}
				return p.act.Fprime(h) * p.X.At(i, j) * ((1-y)/(1-h) - y/h)
			})+p.slope2(j, o))/float64(p.N))
		}))
	}
}

// ContractActivations: the activations and their derivatives in terms of their value.
func ContractActivations() {
	x := spec.Float("x")
	id, lo, th, re := base.Identity{}, base.Logistic{}, base.Tanh{}, base.ReLU{}
	e := math.Exp(-x)
	spec.Assert("identity", id.F(x) == x && id.Fprime(x) == 1)
	spec.Assert("logistic", spec.Eq(lo.F(x)*(1+e), 1) && spec.Eq(lo.Fprime(lo.F(x))*(1+e)*(1+e), e))
	spec.Assert("tanh", spec.Eq(th.F(x), math.Tanh(x)) && spec.Eq(th.Fprime(th.F(x)), 1-math.Tanh(x)*math.Tanh(x)))
	spec.Assert("relu", re.F(x) == math.Max(0, x) && (x <= 0 || re.Fprime(re.F(x)) == 1) && (x >= 0 || re.Fprime(re.F(x)) == 0))
}

func (p *problem) cost2() float64 {
	if !p.penalty {
		return 0
	}
	abs := spec.Sum(p.k-p.start, func(j int) float64 {
		return spec.Sum(p.o, func(o int) float64 { return math.Abs(p.T.At(j+p.start, o)) })
	})
	sq := spec.Sum(p.k-p.start, func(j int) float64 {
		return spec.Sum(p.o, func(o int) float64 { return p.T.At(j+p.start, o) * p.T.At(j+p.start, o) })
	})
	return p.alpha * (p.l1*abs + (1-p.l1)*sq/2)
}

func (p *problem) slope2(j, o int) float64 {
	if !p.penalty || j < p.start {
		return 0
	}
	t := p.T.At(j, o)
	return p.alpha * (p.l1*(spec.B2F(t > 0)-spec.B2F(t < 0)) + (1-p.l1)*t)
}
