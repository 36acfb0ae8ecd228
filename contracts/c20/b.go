package c20

import (
	"math"

	gp "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

func near(a, b, tol float64) bool { return a == b || math.Abs(a-b) <= tol*(1+math.Abs(a)+math.Abs(b)) }

// def is a definition of a kernel: its value for any values of the parameters that are not fixed.
type def struct {
	p          []float64    // values of the parameters not fixed
	b          [][2]float64 // their bounds
	f          func(p []float64, x, y []float64) float64
	stationary bool
}

// param draws a positive parameter, fixed or not.
func param(name string, d *def) (v float64, bounds [2]float64, get func(p []float64) float64) {
	v = spec.FloatsIn(name, 1, .3, 3)[0]
	if spec.Bool(name + " fixed") {
		return v, [2]float64{v, v}, func(p []float64) float64 { return v }
	}
	i := len(d.p)
	bounds = [2]float64{.01, 100}
	d.p, d.b = append(d.p, v), append(d.b, bounds)
	return v, bounds, func(p []float64) float64 { return p[i] }
}

func dot(x, y []float64) (s float64) {
	for i := range x {
		s += x[i] * y[i]
	}
	return
}

// draw draws a kernel of features c and gives its definition.
func draw(depth, c int) (kernels.Kernel, def) {
	kind := spec.Choose("kind", 8)
	if depth == 0 {
		spec.Assume(kind < 5)
	}
	var d def
	d.stationary = true
	switch kind {
	case 0:
		v, b, g := param("constant", &d)
		d.f = func(p, x, y []float64) float64 { return g(p) }
		return &kernels.ConstantKernel{ConstantValue: v, ConstantValueBounds: b}, d
	case 1:
		v, b, g := param("noise", &d)
		d.f = func(p, x, y []float64) float64 {
			for i := range x {
				if x[i] != y[i] {
					return 0
				}
			}
			return g(p)
		}
		return &kernels.WhiteKernel{NoiseLevel: v, NoiseLevelBounds: b}, d
	case 2:
		v, b, g := param("length", &d)
		d.f = func(p, x, y []float64) float64 {
			s := 0.
			for i := range x {
				s += (x[i] - y[i]) * (x[i] - y[i])
			}
			return math.Exp(-s / 2 / g(p) / g(p))
		}
		return &kernels.RBF{LengthScale: []float64{v}, LengthScaleBounds: [][2]float64{b}}, d
	case 3:
		k := &kernels.RBF{}
		gs := make([]func(p []float64) float64, c)
		for i := range gs {
			v, b, g := param("lengths", &d)
			k.LengthScale, k.LengthScaleBounds = append(k.LengthScale, v), append(k.LengthScaleBounds, b)
			gs[i] = g
		}
		d.f = func(p, x, y []float64) float64 {
			s := 0.
			for i := range x {
				s += (x[i] - y[i]) * (x[i] - y[i]) / gs[i](p) / gs[i](p)
			}
			return math.Exp(-s / 2)
		}
		return k, d
	case 4:
		v, b, g := param("sigma", &d)
		d.f = func(p, x, y []float64) float64 { return g(p)*g(p) + dot(x, y) }
		d.stationary = false
		return &kernels.DotProduct{Sigma0: v, Sigma0Bounds: b}, d
	case 7:
		k1, d1 := draw(depth-1, c)
		e := float64(spec.IntIn("exponent", 2, 3))
		f := d1.f
		d1.f = func(p, x, y []float64) float64 { return math.Pow(f(p, x, y), e) }
		return &kernels.Exponentiation{Kernel: k1, Exponent: e}, d1
	}
	k1, d1 := draw(depth-1, c)
	k2, d2 := draw(depth-1, c)
	n1 := len(d1.p)
	d = def{p: append(append([]float64{}, d1.p...), d2.p...), b: append(append([][2]float64{}, d1.b...), d2.b...), stationary: d1.stationary && d2.stationary}
	op := kernels.KernelOperator{K1: k1, K2: k2}
	if kind == 5 {
		d.f = func(p, x, y []float64) float64 { return d1.f(p[:n1], x, y) + d2.f(p[n1:], x, y) }
		return &kernels.Sum{KernelOperator: op}, d
	}
	d.f = func(p, x, y []float64) float64 { return d1.f(p[:n1], x, y) * d2.f(p[n1:], x, y) }
	return &kernels.Product{KernelOperator: op}, d
}

func row(A mat.Matrix, i int) []float64 { return mat.Row(nil, i, A) }

// matches tells whether a kernel matrix is the one defined.
func matches(K mat.Matrix, d def, p []float64, X, Y mat.Matrix) bool {
	n, _ := X.Dims()
	m, _ := Y.Dims()
	r, c := K.Dims()
	if r != n || c != m {
		return false
	}
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			if !near(K.At(i, j), d.f(p, row(X, i), row(Y, j)), 1e-8) {
				return false
			}
		}
	}
	return true
}

// moved are parameters with the logarithm of one moved.
func moved(p []float64, k int, h float64) []float64 {
	q := append([]float64{}, p...)
	q[k] *= math.Exp(h)
	return q
}

// samples are small so that powers do not get large; some are equal.
func samples(name string, n, c int) *mat.Dense {
	if spec.Bool(name + " grid") {
		return spec.LabelMatrix(name, n, c, 2)
	}
	return spec.MatrixIn(name, n, c, -1, 1)
}

// BoundedKernels: kernels, sums, products and powers of them are what they are defined to be, with their gradients, diagonals, parameters and clones. runs=4000
func BoundedKernels() {
	n, m, c := spec.IntIn("n", 1, 4), spec.IntIn("m", 1, 4), spec.IntIn("c", 1, 3)
	k, d := draw(spec.IntIn("depth", 0, 2), c)
	X, Y := samples("X", n, c), samples("Y", m, c)
	fz := spec.Freeze(X, Y, k)
	K, _ := k.Eval(X, Y, false)
	spec.Assert("kernel of X and Y", matches(K, d, d.p, X, Y))
	K, Kg := k.Eval(X, nil, true)
	spec.Assert("kernel of X", matches(K, d, d.p, X, X))
	D := k.Diag(X)
	for i := 0; i < n; i++ {
		spec.Assert("diagonal", near(D.At(i, i), d.f(d.p, row(X, i), row(X, i)), 1e-8))
	}
	spec.Assert("stationary", k.IsStationary() == d.stationary)
	np := len(d.p)
	s := Kg.Shape()
	spec.Assert("gradient has an entry per parameter not fixed", s[0] == n && s[1] == n && s[2] == np)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			for l := 0; l < np; l++ {
				g, err := Kg.At(i, j, l)
				h := 1e-4
				w := (d.f(moved(d.p, l, h), row(X, i), row(X, j)) - d.f(moved(d.p, l, -h), row(X, i), row(X, j))) / (2 * h)
				spec.Assert("gradient by the logarithm of each parameter", err == nil && near(g.(float64), w, 1e-5))
			}
		}
	}
	t := k.Theta()
	r, _ := t.Dims()
	spec.Assert("a parameter per value not fixed", r == np)
	b := k.Bounds()
	r, _ = b.Dims()
	spec.Assert("bounds of each parameter not fixed", r == np)
	for l := range d.p {
		spec.Assert("logarithms of parameters and bounds", near(t.At(l, 0), math.Log(d.p[l]), 1e-9) && near(b.At(l, 0), math.Log(d.b[l][0]), 1e-9) && near(b.At(l, 1), math.Log(d.b[l][1]), 1e-9))
	}
	if np > 0 {
		q := spec.FloatsIn("theta", np, -1, 1)
		c2 := k.CloneWithTheta(mat.NewDense(np, 1, append([]float64{}, q...)))
		for l := range q {
			q[l] = math.Exp(q[l])
		}
		K, _ = c2.Eval(X, Y, false)
		spec.Assert("a clone has the given parameters", matches(K, d, q, X, Y))
		c2.CloneWithTheta(k.Theta())
		K, _ = c2.Eval(X, Y, false)
		spec.Assert("cloning does not change a kernel", matches(K, d, q, X, Y))
		c3 := k.CloneWithTheta(k.Theta())
		K, _ = c3.Eval(X, nil, false)
		spec.Assert("a clone with the same parameters is the same kernel", matches(K, d, d.p, X, X))
	}
	c4 := k.CloneWithTheta(nil)
	K, _ = c4.Eval(X, nil, false)
	spec.Assert("a clone without parameters keeps them", matches(K, d, d.p, X, X))
	t4 := c4.Theta().(mat.Mutable)
	for l := range d.p {
		t4.Set(l, 0, 1)
	}
	spec.Assert("kernel and samples unchanged", spec.Unchanged(fz))
}

// lml is the log likelihood of the columns of Y with covariance K of X plus alpha on the diagonal.
func lml(d def, p []float64, X, Y mat.Matrix, alpha []float64) float64 {
	n, _ := X.Dims()
	_, o := Y.Dims()
	A := mat.NewDense(n, n, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			A.Set(i, j, d.f(p, row(X, i), row(X, j)))
		}
		A.Set(i, i, A.At(i, i)+alpha[i])
	}
	l := 0.
	var S mat.Dense
	if S.Solve(A, Y) != nil {
		return math.NaN()
	}
	for j := 0; j < o; j++ {
		l -= math.Log(mat.Det(A))/2 + float64(n)/2*math.Log(2*math.Pi)
		for i := 0; i < n; i++ {
			l -= Y.At(i, j) * S.At(i, j) / 2
		}
	}
	return l
}

// BoundedLogLikelihood: the log marginal likelihood is the one of the Gaussian, with its gradient. runs=4000
func BoundedLogLikelihood() {
	n, c, o := spec.IntIn("n", 1, 4), spec.IntIn("c", 1, 2), spec.IntIn("o", 1, 3)
	k, d := draw(spec.IntIn("depth", 0, 2), c)
	np := len(d.p)
	spec.Assume(np > 0)
	X, Y := samples("X", n, c), spec.Matrix("Y", n, o)
	m := gp.NewRegressor(k)
	a := spec.FloatsIn("alpha", 1, .2, 2)[0]
	alpha := make([]float64, n)
	for i := range alpha {
		alpha[i] = a
	}
	m.Alpha = []float64{a}
	if spec.Bool("alphas") {
		alpha = spec.FloatsIn("alphas", n, .2, 2)
		m.Alpha = alpha
	}
	if spec.Bool("refit") {
		m.Fit(samples("X0", n, c), spec.Matrix("Y0", n, o))
	}
	fz := spec.Freeze(X, Y, k, alpha)
	m.Fit(X, Y)
	q := spec.FloatsIn("theta", np, -1, 1)
	l, g := m.LogMarginalLikelihood(mat.NewDense(np, 1, append([]float64{}, q...)), true)
	l2, g2 := m.LogMarginalLikelihood(mat.NewDense(np, 1, append([]float64{}, q...)), false)
	for i := range q {
		q[i] = math.Exp(q[i])
	}
	want := lml(d, q, X, Y, alpha)
	spec.Regular(want == want)
	spec.Assert("log likelihood", near(l, want, 1e-6) && near(l2, want, 1e-6) && g2 == nil)
	spec.Assert("a derivative per parameter", len(g) == np)
	for i := range g {
		h := 1e-4
		w := (lml(d, moved(q, i, h), X, Y, alpha) - lml(d, moved(q, i, -h), X, Y, alpha)) / (2 * h)
		spec.Assert("gradient of the log likelihood", near(g[i], w, 1e-4))
	}
	spec.Assert("data and kernel unchanged", spec.Unchanged(fz))
}
