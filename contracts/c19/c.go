// Package c19 holds the contracts of the gradient-descent optimizers.
package c19

import (
	"math"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

type state struct {
	n, o            int
	s               *base.SGDOptimizer
	grad            *mat.Dense
	t               float64 // steps done before
	step, mom, clip float64
	gamma, eps      float64
	b1, b2          float64
}

func in(name string, lo, hi float64) float64 {
	v := spec.FloatsIn(name, 1, lo, hi)[0]
	spec.Assume(lo < v && v < hi)
	return v
}

// optimizer is an optimizer after any number of steps, with any running averages.
func optimizer(create func() *base.SGDOptimizer) *state {
	p := &state{n: spec.Nat("n", 1), o: spec.Nat("outputs", 1), s: create()}
	s := p.s
	p.grad = spec.Matrix("gradient", p.n, p.o)
	p.step, p.mom, p.gamma, p.eps = in("step", 0, 100), in("momentum", 0, 1), in("gamma", 0, 1), in("epsilon", 0, 1)
	s.StepSize, s.RMSPropGamma, s.Epsilon = p.step, p.gamma, p.eps
	if spec.Choose("momentum", 2) == 0 {
		p.mom = 0
	}
	s.Momentum = p.mom
	if spec.Choose("clipping", 2) == 1 {
		p.clip = in("clip", 0, 100)
		spec.Regular(p.clip > 1e-3)
	}
	s.GradientClipping = p.clip
	p.b1, p.b2 = s.Beta1, s.Beta2
	if spec.Choose("first step", 2) == 0 {
		steps := spec.Nat("steps", 1)
		if spec.Choose("long run", 2) == 1 {
			steps *= 1000
		}
		p.t = float64(steps)
		s.TimeStep = p.t
		s.PrevUpdate = mat.DenseCopyOf(spec.Matrix("previous update", p.n, p.o))
		s.AdagradG = mat.DenseCopyOf(spec.MatrixIn("G", p.n, p.o, 1e-6, 100))
		s.AdadeltaU = mat.DenseCopyOf(spec.MatrixIn("U", p.n, p.o, 1e-6, 100))
		s.Mt = mat.DenseCopyOf(spec.Matrix("M", p.n, p.o))
		s.Vt = mat.DenseCopyOf(spec.MatrixIn("V", p.n, p.o, 0, 100))
		s.GtNorm = mat.NewDense(p.o, 1, nil)
	}
	return p
}

// before reads a running average, v0 when there is none yet.
func before(t float64, m *mat.Dense, v0 float64) func(i, j int) float64 {
	if t == 0 {
		return func(i, j int) float64 { return v0 }
	}
	c := mat.DenseCopyOf(m)
	return func(i, j int) float64 { return c.At(i, j) }
}

// g is the gradient scaled down to the clipping norm, column by column.
func (p *state) g(i, j int) float64 {
	v := p.grad.At(i, j)
	if p.clip > 0 {
		norm := math.Sqrt(spec.Sum(p.n, func(k int) float64 { return p.grad.At(k, j) * p.grad.At(k, j) }))
		if norm > p.clip {
			return v * (p.clip / norm)
		}
	}
	return v
}

// step runs one update and checks everything but the variant's own formula.
func (p *state) check(formula func(i, j int) float64) {
	s := p.s
	prev := before(p.t, s.PrevUpdate, 0)
	u := spec.Matrix("destination", p.n, p.o)
	fz := spec.Freeze(p.grad)
	s.GetUpdate(u, p.grad)
	spec.Assert("update", spec.Forall2(p.n, p.o, func(i, j int) bool {
		want := formula(i, j)
		if p.mom > 0 {
			want = p.mom*prev(i, j) + want
		}
		return spec.Eq(u.At(i, j), want)
	}))
	spec.Assert("the update is remembered for the momentum", spec.Forall2(p.n, p.o, func(i, j int) bool { return s.PrevUpdate.At(i, j) == u.At(i, j) }))
	spec.Assert("time step", s.TimeStep == p.t+1 && s.GetTimeStep() == uint64(p.t+1))
	spec.Assert("the remembered update is a copy", spec.Disjoint(s.PrevUpdate, u))
	spec.Assert("gradient unchanged", spec.Unchanged(fz))
}

// ContractSGD: decreasing step along the (clipped) gradient, plus momentum.
func ContractSGD() {
	p := optimizer(base.NewSGDOptimizer)
	t := p.t + 1
	p.check(func(i, j int) float64 { return -(p.step * 100 / (100 + t)) * p.g(i, j) / math.Sqrt(t) })
}

// ContractAdagrad: step divided by the root of the accumulated squared gradients.
func ContractAdagrad() {
	p := optimizer(base.NewAdagradOptimizer)
	G := before(p.t, p.s.AdagradG, p.eps)
	t := p.t
	p.check(func(i, j int) float64 {
		if t == 0 {
			return -p.step * p.g(i, j)
		}
		return -(p.step / (math.Sqrt(G(i, j)) + p.eps)) * p.g(i, j)
	})
	spec.Assert("squared gradients accumulate", spec.Forall2(p.n, p.o, func(i, j int) bool {
		return spec.Eq(p.s.AdagradG.At(i, j), G(i, j)+p.g(i, j)*p.g(i, j))
	}))
}

// ContractRMSProp: step divided by the root of the running mean of squared gradients (where that exceeds one).
func ContractRMSProp() {
	p := optimizer(base.NewRMSPropOptimizer)
	p.s.RMSPropGamma = p.gamma
	G := before(p.t, p.s.AdagradG, p.eps)
	t := p.t
	p.check(func(i, j int) float64 {
		if t > 0 && G(i, j) > 1 {
			return -(p.step / math.Sqrt(G(i, j)+p.eps)) * p.g(i, j)
		}
		return -p.step * p.g(i, j)
	})
	spec.Assert("running mean of squared gradients", spec.Forall2(p.n, p.o, func(i, j int) bool {
		return spec.Eq(p.s.AdagradG.At(i, j), p.gamma*G(i, j)+(1-p.gamma)*p.g(i, j)*p.g(i, j))
	}))
}

// ContractAdadelta: step is the ratio of the running root mean squares of updates and gradients.
func ContractAdadelta() {
	p := optimizer(base.NewAdadeltaOptimizer)
	G, U := before(p.t, p.s.AdagradG, p.eps), before(p.t, p.s.AdadeltaU, 1)
	t := p.t
	g2 := func(i, j int) float64 { return p.gamma*G(i, j) + (1-p.gamma)*p.g(i, j)*p.g(i, j) }
	f := func(i, j int) float64 {
		if t == 0 {
			return -(p.step * 100 / 101) * p.g(i, j)
		}
		return -(math.Sqrt(U(i, j)) / math.Sqrt(g2(i, j)+p.eps)) * p.g(i, j)
	}
	p.check(f)
	spec.Assert("running mean of squared gradients", spec.Forall2(p.n, p.o, func(i, j int) bool { return spec.Eq(p.s.AdagradG.At(i, j), g2(i, j)) }))
	spec.Assert("running mean of squared updates", spec.Forall2(p.n, p.o, func(i, j int) bool {
		u := f(i, j)
		return spec.Eq(p.s.AdadeltaU.At(i, j), p.gamma*U(i, j)+(1-p.gamma)*u*u)
	}))
}

// ContractAdam: bias-corrected first moment over the root of the bias-corrected second moment.
func ContractAdam() {
	p := optimizer(base.NewAdamOptimizer)
	p.b1, p.b2 = in("beta1", 0, 1), in("beta2", 0, 1)
	spec.Regular(p.b1 < 0.999 && p.b2 < 0.999)
	p.s.Beta1, p.s.Beta2 = p.b1, p.b2
	M, V := before(p.t, p.s.Mt, 0), before(p.t, p.s.Vt, 0)
	t := p.t + 1
	m := func(i, j int) float64 { return p.b1*M(i, j) + (1-p.b1)*p.g(i, j) }
	v := func(i, j int) float64 { return p.b2*V(i, j) + (1-p.b2)*p.g(i, j)*p.g(i, j) }
	p.check(func(i, j int) float64 {
		return -p.step * (m(i, j) / (1 - math.Pow(p.b1, t))) / (math.Sqrt(v(i, j)/(1-math.Pow(p.b2, t))) + p.eps)
	})
	spec.Assert("first moment", spec.Forall2(p.n, p.o, func(i, j int) bool { return spec.Eq(p.s.Mt.At(i, j), m(i, j)) }))
	spec.Assert("second moment", spec.Forall2(p.n, p.o, func(i, j int) bool { return spec.Eq(p.s.Vt.At(i, j), v(i, j)) }))
}

// ContractUpdateParams: theta moves by the update, in place.
func ContractUpdateParams() {
	p := optimizer(base.NewSGDOptimizer)
	theta := spec.Matrix("theta", p.n, p.o)
	old := mat.DenseCopyOf(theta)
	p.s.SetTheta(theta)
	spec.Assert("theta set", p.s.GetTheta() == theta && p.s.NFeatures == p.n && p.s.NOutputs == p.o)
	fz := spec.Freeze(p.grad)
	p.s.UpdateParams(p.grad)
	spec.Assert("theta moves by the update", spec.Forall2(p.n, p.o, func(i, j int) bool {
		return spec.Eq(theta.At(i, j), old.At(i, j)+p.s.PrevUpdate.At(i, j))
	}))
	spec.Assert("time step", p.s.TimeStep == p.t+1)
	spec.Assert("gradient unchanged", spec.Unchanged(fz))
}

// ContractTwoSteps: two steps of UpdateParams move theta as two updates computed apart do (from the initial state).
func ContractTwoSteps() {
	create := []func() *base.SGDOptimizer{base.NewSGDOptimizer, base.NewAdagradOptimizer, base.NewRMSPropOptimizer, base.NewAdadeltaOptimizer, base.NewAdamOptimizer}[spec.Choose("optimizer", 5)]
	n, o := spec.Nat("n", 1), spec.Nat("outputs", 1)
	theta, g1, g2 := spec.Matrix("theta", n, o), spec.Matrix("g1", n, o), spec.Matrix("g2", n, o)
	old := mat.DenseCopyOf(theta)
	a, b := create(), create()
	mom := in("momentum", .01, .99)
	a.GradientClipping, b.GradientClipping = 0, 0
	a.Momentum, b.Momentum = mom, mom
	fz := spec.Freeze(g1, g2)
	a.SetTheta(theta)
	a.UpdateParams(g1)
	a.UpdateParams(g2)
	u1, u2 := mat.NewDense(n, o, nil), mat.NewDense(n, o, nil)
	b.GetUpdate(u1, g1)
	b.GetUpdate(u2, g2)
	spec.Assert("theta moves by both updates", spec.Forall2(n, o, func(i, j int) bool {
		return spec.Eq(theta.At(i, j), old.At(i, j)+u1.At(i, j)+u2.At(i, j))
	}))
	spec.Assert("two time steps", a.TimeStep == 2 && b.GetTimeStep() == 2)
	spec.Assert("gradients unchanged", spec.Unchanged(fz))
}
