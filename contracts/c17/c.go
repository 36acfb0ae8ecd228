// Package c17 holds the contracts of the linear models.
package c17

import (
	"math"

	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/zzverif/spec"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
)

func mean(X *mat.Dense, n, j int) float64 {
	return spec.Sum(n, func(i int) float64 { return X.At(i, j) }) / float64(n)
}

func colNorm(X *mat.Dense, n, j int) float64 {
	m := mean(X, n, j)
	return math.Sqrt(spec.Sum(n, func(i int) float64 { return (X.At(i, j) - m) * (X.At(i, j) - m) }))
}

// ContractPreprocessData: data are centered when there is an intercept, and then scaled to unit norm when asked.
func ContractPreprocessData() {
	n, k, o := spec.Nat("n", 1), spec.Nat("k", 1), spec.Nat("outputs", 1)
	X, Y := spec.Matrix("X", n, k), spec.Matrix("Y", n, o)
	intercept, normalize := spec.Choose("intercept", 2) == 1, spec.Choose("normalize", 2) == 1
	fz := spec.Freeze(X, Y)
	X1, Y1, xo, yo, xs := linearmodel.PreprocessData(X, Y, intercept, normalize, nil)
	r, c := X1.Dims()
	r2, c2 := Y1.Dims()
	spec.Assert("shapes", r == n && c == k && r2 == n && c2 == o)
	off := func(M *mat.Dense, j int) float64 {
		if intercept {
			return mean(M, n, j)
		}
		return 0
	}
	scale := func(j int) float64 {
		if intercept && normalize && colNorm(X, n, j) != 0 {
			return colNorm(X, n, j)
		}
		return 1
	}
	spec.Assert("X offset", spec.Forall(k, func(j int) bool { return spec.Eq(xo.At(0, j), off(X, j)) }))
	spec.Assert("Y offset", spec.Forall(o, func(j int) bool { return spec.Eq(yo.At(0, j), off(Y, j)) }))
	spec.Assert("X scale", spec.Forall(k, func(j int) bool { return spec.Eq(xs.At(0, j), scale(j)) }))
	spec.Assert("X centered and scaled", spec.Forall2(n, k, func(i, j int) bool { return spec.Eq(X1.At(i, j), (X.At(i, j)-off(X, j))/scale(j)) }))
	spec.Assert("Y centered", spec.Forall2(n, o, func(i, j int) bool { return spec.Eq(Y1.At(i, j), Y.At(i, j)-off(Y, j)) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

type predicter interface {
	Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense
	Score(X, Y mat.Matrix) float64
	GetNOutputs() int
}

// ContractPredict: predictions are X Coef + Intercept, the score is R2.
func ContractPredict() {
	q, k, o := spec.Nat("q", 1), spec.Nat("k", 1), spec.Nat("outputs", 1)
	lm := linearmodel.LinearModel{Coef: spec.Matrix("coef", k, o), Intercept: spec.Matrix("intercept", 1, o)}
	var m predicter
	switch spec.Choose("model", 5) {
	case 0:
		m = &linearmodel.LinearRegression{LinearModel: lm}
	case 1:
		m = &linearmodel.ElasticNet{LinearRegression: linearmodel.LinearRegression{LinearModel: lm}}
	case 2:
		m = &linearmodel.SGDRegressor{LinearModel: lm}
	case 3:
		m = &linearmodel.BayesianRidge{LinearModel: lm}
	case 4:
		m = &linearmodel.RegularizedRegression{LinearRegression: linearmodel.LinearRegression{LinearModel: lm}}
	}
	X := spec.Matrix("X", q, k)
	P := &mat.Dense{}
	if spec.Choose("destination", 2) == 1 {
		P = spec.Matrix("P", q, o)
	}
	fz := spec.Freeze(X, m)
	spec.Assert("number of outputs", m.GetNOutputs() == o)
	R := m.Predict(X, P)
	r, c := P.Dims()
	r2, c2 := R.Dims()
	spec.Assert("shape", r == q && c == o && r2 == q && c2 == o)
	spec.Assert("predictions", spec.Forall2(q, o, func(s, j int) bool {
		return spec.Eq(P.At(s, j), spec.Sum(k, func(t int) float64 { return X.At(s, t) * lm.Coef.At(t, j) })+lm.Intercept.At(0, j))
	}))
	spec.Assert("the result is returned too", spec.Forall2(q, o, func(s, j int) bool { return R.At(s, j) == P.At(s, j) }))
	spec.Assert("model and inputs unchanged", spec.Unchanged(fz))
}

// preprocess replaces PreprocessData by its contract (ContractPreprocessData): some matrices, and scales that are not zero.
func preprocess(n, k, o int, X, Y *mat.Dense, m *linearmodel.LinearModel) {
	A, B, xo, yo := spec.Matrix("A", n, k), spec.Matrix("B", n, o), spec.Matrix("X offset", 1, k), spec.Matrix("Y offset", 1, o)
	xs := spec.MatrixIn("X scale", 1, k, 1e-300, 1e300)
	spec.UseContract("github.com/pa-m/sklearn/linear_model.PreprocessData", func(X1, Y1 *mat.Dense, intercept, normalize bool, _ *mat.VecDense) (_, _, _, _, _ *mat.Dense) {
		spec.Assert("preprocessed as configured", intercept == m.FitIntercept && normalize == m.Normalize &&
			spec.Forall2(n, k, func(i, j int) bool { return X1.At(i, j) == X.At(i, j) }) && spec.Forall2(n, o, func(i, j int) bool { return Y1.At(i, j) == Y.At(i, j) }))
		return A, B, xo, yo, xs
	})
}

// ContractLinearRegression: the coefficients solve the normal equations of the preprocessed data, and the intercept puts the plane through the means.
func ContractLinearRegression() {
	n, k, o := spec.Nat("n", 1), spec.Nat("k", 1), spec.Nat("outputs", 1)
	X, Y := spec.Matrix("X", n, k), spec.Matrix("Y", n, o)
	m := linearmodel.NewLinearRegression()
	m.FitIntercept, m.Normalize = spec.Choose("intercept", 2) == 1, spec.Choose("normalize", 2) == 1
	preprocess(n, k, o, X, Y, &m.LinearModel)
	A, B, xo, yo, xs := linearmodel.PreprocessData(X, Y, m.FitIntercept, m.Normalize, nil)
	spec.Regular(spec.WellConditioned(A))
	// least squares: the residual is orthogonal to the columns
	spec.UseContract("(*gonum.org/v1/gonum/mat.Dense).Solve", func(w *mat.Dense, A, B mat.Matrix) error {
		n, k := A.Dims()
		_, o := B.Dims()
		W := spec.Matrix("solution", k, o)
		spec.Assume(spec.Forall2(k, o, func(j, c int) bool {
			return spec.Sum(n, func(i int) float64 {
				return A.At(i, j) * (spec.Sum(k, func(t int) float64 { return A.At(i, t) * W.At(t, c) }) - B.At(i, c))
			}) == 0
		}))
		w.CloneFrom(W)
		return nil
	})
	fz := spec.Freeze(X, Y)
	m.Fit(X, Y)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
	w := func(j, c int) float64 { return m.Coef.At(j, c) * xs.At(0, j) }
	spec.Assert("normal equations", spec.Forall2(k, o, func(j, c int) bool {
		return spec.Eq(spec.Sum(n, func(i int) float64 {
			return A.At(i, j) * (spec.Sum(k, func(t int) float64 { return A.At(i, t) * w(t, c) }) - B.At(i, c))
		}), 0)
	}))
	spec.Assert("intercept", spec.Forall(o, func(c int) bool {
		if !m.FitIntercept {
			return m.Intercept.At(0, c) == 0
		}
		return spec.Eq(m.Intercept.At(0, c), yo.At(0, c)-spec.Sum(k, func(t int) float64 { return xo.At(0, t) * m.Coef.At(t, c) }))
	}))
}

// ContractPredict2: the deviation of a prediction is that of the noise and the coefficients.
func ContractPredict2() {
	q, k := spec.Nat("q", 1), spec.Nat("k", 1)
	m := linearmodel.NewBayesianRidge()
	m.Normalize = spec.Choose("normalize", 2) == 1
	m.Coef, m.Intercept = spec.Matrix("coef", k, 1), spec.Matrix("intercept", 1, 1)
	m.XOffset, m.XScale = spec.Matrix("offset", 1, k), spec.MatrixIn("scale", 1, k, 0.1, 10)
	m.Sigma, m.Alpha = spec.MatrixIn("sigma", k, k, 0, 1), spec.FloatsIn("alpha", 1, 0.001, 100)[0]
	X, P, S := spec.Matrix("X", q, k), &mat.Dense{}, &mat.Dense{}
	fz := spec.Freeze(X, m)
	x := func(i, j int) float64 {
		if m.Normalize {
			return (X.At(i, j) - m.XOffset.At(0, j)) / m.XScale.At(0, j)
		}
		return X.At(i, j)
	}
	v := func(i int) float64 {
		return spec.Sum(k, func(j int) float64 {
			return spec.Sum(k, func(t int) float64 { return x(i, j) * m.Sigma.At(j, t) * x(i, t) })
		}) + 1/m.Alpha
	}
	spec.Regular(spec.Forall(q, func(i int) bool { return v(i) > 1e-3 }))
	m.Predict2(X, P, S)
	spec.Assert("mean", spec.Forall(q, func(s int) bool {
		return spec.Eq(P.At(s, 0), spec.Sum(k, func(t int) float64 { return X.At(s, t) * m.Coef.At(t, 0) })+m.Intercept.At(0, 0))
	}))
	spec.Assert("standard deviation", spec.Forall(q, func(i int) bool { return spec.Eq(S.At(i, 0), math.Sqrt(v(i))) }))
	spec.Assert("model and inputs unchanged", spec.Unchanged(fz))
}

// ContractElasticNet: coordinate descent gets the preprocessed data and the penalties for that many samples; its result is unscaled.
func ContractElasticNet() {
	n, k, o := spec.Nat("n", 1), spec.Nat("k", 1), 1
	if spec.Choose("several outputs", 2) == 1 {
		o = spec.Nat("outputs", 2)
	}
	X, Y := spec.Matrix("X", n, k), spec.Matrix("Y", n, o)
	m := linearmodel.NewElasticNet()
	m.FitIntercept, m.Normalize = spec.Choose("intercept", 2) == 1, spec.Bool("normalize")
	m.Alpha, m.L1Ratio = spec.FloatsIn("alpha", 1, 0.01, 10)[0], spec.FloatsIn("l1 ratio", 1, 0, 1)[0]
	m.Positive, m.Tol, m.MaxIter = false, 1e-4, 20
	if spec.Choose("random selection", 2) == 1 {
		m.Selection = "random"
	}
	preprocess(n, k, o, X, Y, &m.LinearModel)
	A, B, xo, yo, xs := linearmodel.PreprocessData(X, Y, m.FitIntercept, m.Normalize, nil)
	W := spec.Matrix("solution", k, o)
	spec.UseContract("github.com/pa-m/sklearn/linear_model.enetCoordinateDescent", func(w *mat.VecDense, l1, l2 float64, X1 *mat.Dense, Y1 *mat.VecDense, maxIter int, tol float64, rng base.Intner, random, positive bool) *linearmodel.CDResult {
		called := l1 == float64(n)*m.Alpha*m.L1Ratio && l2 == float64(n)*m.Alpha*(1-m.L1Ratio) && maxIter == m.MaxIter && tol == m.Tol && positive == m.Positive
		spec.Assert("descends on the preprocessed data", called && spec.Forall2(n, k, func(i, j int) bool { return X1.At(i, j) == A.At(i, j) }) &&
			spec.Forall(n, func(i int) bool { return Y1.AtVec(i) == B.At(i, 0) }) && spec.Forall(k, func(j int) bool { return w.AtVec(j) == 0 }))
		for j := 0; j < k; j++ {
			w.SetVec(j, W.At(j, 0))
		}
		return &linearmodel.CDResult{}
	})
	spec.UseContract("github.com/pa-m/sklearn/linear_model.enetCoordinateDescentMultiTask", func(w *mat.Dense, l1, l2 float64, X1, Y1 *mat.Dense, maxIter int, tol float64, rng *rand.Rand, random, positive bool) *linearmodel.CDResult {
		called := l1 == float64(n)*m.Alpha*m.L1Ratio && l2 == float64(n)*m.Alpha*(1-m.L1Ratio) && maxIter == m.MaxIter && tol == m.Tol
		spec.Assert("descends on the preprocessed data", called && spec.Forall2(n, k, func(i, j int) bool { return X1.At(i, j) == A.At(i, j) }) &&
			spec.Forall2(n, o, func(i, j int) bool { return Y1.At(i, j) == B.At(i, j) }) && spec.Forall2(k, o, func(i, j int) bool { return w.At(i, j) == 0 }))
		w.Copy(W)
		return &linearmodel.CDResult{}
	})
	fz := spec.Freeze(X, Y)
	m.Fit(X, Y)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
	spec.Assert("intercept", spec.Forall(o, func(c int) bool {
		if !m.FitIntercept {
			return m.Intercept.At(0, c) == 0
		}
		return spec.Eq(m.Intercept.At(0, c), yo.At(0, c)-spec.Sum(k, func(t int) float64 { return xo.At(0, t) * m.Coef.At(t, c) }))
	}))
	spec.Assert("number of outputs", m.GetNOutputs() == o)
	if spec.Symbolic() {
		spec.Assert("coefficients", spec.Forall2(k, o, func(j, c int) bool { return spec.Eq(m.Coef.At(j, c)*xs.At(0, j), W.At(j, c)) }))
	}
}

// ContractSGDRegressor: the problem given to the optimizer is half the mean squared error plus penalty, with its gradient; its minimum is unscaled.
func ContractSGDRegressor() {
	n, k, o := spec.Nat("n", 1), spec.Nat("k", 1), 1+spec.Choose("outputs", 2)
	X, Y := spec.Matrix("X", n, k), spec.Matrix("Y", n, o)
	m := linearmodel.NewSGDRegressor()
	m.FitIntercept, m.Normalize = spec.Choose("intercept", 2) == 1, spec.Bool("normalize")
	m.Alpha, m.L1Ratio, m.NJobs = spec.FloatsIn("alpha", 1, 0.01, 10)[0], spec.FloatsIn("l1 ratio", 1, 0, 1)[0], spec.IntIn("jobs", 0, 3)
	preprocess(n, k, o, X, Y, &m.LinearModel)
	A, B, xo, yo, xs := linearmodel.PreprocessData(X, Y, m.FitIntercept, m.Normalize, nil)
	W, out := spec.Matrix("solution", k, o), 0
	spec.UseContract("gonum.org/v1/gonum/optimize.Minimize", func(p optimize.Problem, start []float64, s *optimize.Settings, method optimize.Method) (*optimize.Result, error) {
		c, g, b := spec.Floats("coefficients", k), make([]float64, k), out
		out++
		d := func(i int) float64 {
			return spec.Sum(k, func(t int) float64 { return A.At(i, t) * c[t] }) - B.At(i, b)
		}
		spec.Assert("cost", spec.Eq(p.Func(c), (spec.Sum(n, func(i int) float64 { return d(i) * d(i) })+
			m.Alpha*(m.L1Ratio*spec.Sum(k, func(j int) float64 { return math.Abs(c[j]) })+(1-m.L1Ratio)*spec.Sum(k, func(j int) float64 { return c[j] * c[j] })))/(2*float64(n))))
		p.Grad(g, c)
		spec.Assert("gradient", spec.Forall(k, func(j int) bool {
			return spec.Eq(g[j], (spec.Sum(n, func(i int) float64 { return d(i) * A.At(i, j) })+m.Alpha*(m.L1Ratio*(spec.B2F(c[j] > 0)-spec.B2F(c[j] < 0))/2+(1-m.L1Ratio)*c[j]))/float64(n))
		}))
		r := &optimize.Result{}
		r.X = mat.Col(nil, b, W)
		return r, nil
	})
	fz := spec.Freeze(X, Y)
	m.Fit(X, Y)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
	spec.Assert("intercept", spec.Forall(o, func(c int) bool {
		if !m.FitIntercept {
			return m.Intercept.At(0, c) == 0
		}
		return spec.Eq(m.Intercept.At(0, c), yo.At(0, c)-spec.Sum(k, func(t int) float64 { return xo.At(0, t) * m.Coef.At(t, c) }))
	}))
	if spec.Symbolic() {
		spec.Assert("coefficients", spec.Forall2(k, o, func(j, c int) bool { return spec.Eq(m.Coef.At(j, c)*xs.At(0, j), W.At(j, c)) }))
	}
}

// ContractLogistic: probabilities are the softmax (or logistic function) of X Coef + Intercept, predictions the likeliest class.
func ContractLogistic() {
	q, k, o := spec.Nat("q", 1), spec.Nat("k", 1), 1
	m := linearmodel.NewLogisticRegression()
	m.NLayers, m.OutActivation = 2, "logistic"
	if spec.Choose("classes", 2) == 1 {
		o = spec.Nat("outputs", 2)
		m.OutActivation = "softmax"
	}
	C := spec.MatrixIn("coef", k, o, -1, 1)
	m.Coef, m.Intercept, m.NOutputs = mat.DenseCopyOf(C).RawMatrix(), spec.FloatsIn("intercept", o, -1, 1), o
	X := spec.MatrixIn("X", q, k, -1, 1)
	P := &mat.Dense{}
	if spec.Choose("destination", 2) == 1 {
		P = mat.DenseCopyOf(spec.Matrix("P", q, o))
	}
	fz := spec.Freeze(X, m)
	spec.Assert("number of outputs", m.GetNOutputs() == o)
	R := m.PredictProbas(X, P)
	e := func(s, j int) float64 {
		return math.Exp(spec.Sum(k, func(t int) float64 { return X.At(s, t) * C.At(t, j) }) + m.Intercept[j])
	}
	p := func(s, j int) float64 {
		if o == 1 {
			return 1 / (1 + math.Exp(-(spec.Sum(k, func(t int) float64 { return X.At(s, t) * C.At(t, j) }) + m.Intercept[j])))
		}
		return e(s, j) / spec.Sum(o, func(c int) float64 { return e(s, c) })
	}
	r, c := P.Dims()
	spec.Assert("shape", r == q && c == o)
	spec.Assert("probabilities", spec.Forall2(q, o, func(s, j int) bool { return spec.Eq(P.At(s, j), p(s, j)) }))
	spec.Assert("the result is returned too", spec.Forall2(q, o, func(s, j int) bool { return R.At(s, j) == P.At(s, j) }))
	spec.Assert("model and inputs unchanged", spec.Unchanged(fz))
}

// quarter is a source of randomness.
type quarter struct{}

func (quarter) Uint64() uint64   { return 1 }
func (quarter) Seed(uint64)      {}
func (quarter) Float64() float64 { return .25 }

// ContractLogisticFit: the problem given to the optimizer is the penalized log loss of the labels, with its gradient; the model keeps the minimum.
func ContractLogisticFit() {
	n, k, o := spec.Nat("n", 1), spec.Nat("k", 1), 1
	if spec.Choose("classes", 2) == 1 {
		o = spec.Nat("outputs", 2)
	}
	X, Y := spec.MatrixIn("X", n, k, -1, 1), spec.LabelMatrix("Y", n, o, 2)
	m := linearmodel.NewLogisticRegression()
	m.Alpha, m.RandomState = spec.FloatsIn("alpha", 1, 0, 10)[0], quarter{}
	C, I := spec.MatrixIn("coef", k, o, -1, 1), spec.MatrixIn("intercept", 1, o, -1, 1)
	spec.UseContract("gonum.org/v1/gonum/optimize.Minimize", func(p optimize.Problem, start []float64, s *optimize.Settings, method optimize.Method) (*optimize.Result, error) {
		w, g := make([]float64, o+k*o), make([]float64, o+k*o)
		spec.Assert("one parameter per coefficient and intercept", len(start) == len(w))
		for j := range w {
			if j < o {
				w[j] = I.At(0, j)
			} else {
				w[j] = C.At((j-o)/o, (j-o)%o)
			}
		}
		z := func(i, j int) float64 {
			return spec.Sum(k, func(t int) float64 { return X.At(i, t) * C.At(t, j) }) + I.At(0, j)
		}
		h := func(i, j int) float64 {
			if o == 1 {
				return 1 / (1 + math.Exp(-z(i, j)))
			}
			return math.Exp(z(i, j)) / spec.Sum(o, func(c int) float64 { return math.Exp(z(i, c)) })
		}
		lo, hi := math.Nextafter(0, 1), math.Nextafter(1, 0)
		clip := func(v float64) float64 {
			if v < lo {
				return lo
			}
			if v > hi {
				return hi
			}
			return v
		}
		loss := func(i, j int) float64 {
			p, y := clip(h(i, j)), Y.At(i, j)
			if o > 1 {
				return -y * math.Log(p)
			}
			return -y*math.Log(p) - (1-y)*math.Log1p(-p)
		}
		f := p.Func(w)
		spec.Assert("log loss", spec.Eq(f, spec.Sum(n, func(i int) float64 { return spec.Sum(o, func(j int) float64 { return loss(i, j) }) })/float64(n)+
			m.Alpha/2*spec.Sum(k, func(t int) float64 { return spec.Sum(o, func(j int) float64 { return C.At(t, j) * C.At(t, j) }) })/float64(n)))
		p.Grad(g, w)
		spec.Assert("gradient in the coefficients", spec.Forall2(k, o, func(t, j int) bool {
			return spec.Eq(g[o+t*o+j], (spec.Sum(n, func(i int) float64 { return X.At(i, t) * (h(i, j) - Y.At(i, j)) })+m.Alpha*C.At(t, j))/float64(n))
		}))
		spec.Assert("gradient in the intercepts", spec.Forall(o, func(j int) bool {
			return spec.Eq(g[j], spec.Sum(n, func(i int) float64 { return h(i, j) - Y.At(i, j) })/float64(n))
		}))
		r := &optimize.Result{}
		r.X = w
		return r, nil
	})
	fz := spec.Freeze(X, Y)
	m.Fit(X, Y)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
	spec.Assert("shapes", m.Coef.Rows == k && m.Coef.Cols == o && len(m.Intercept) == o && m.GetNOutputs() == o)
	if spec.Symbolic() {
		spec.Assert("coefficients", spec.Forall2(k, o, func(t, j int) bool { return m.Coef.Data[t*m.Coef.Stride+j] == C.At(t, j) }))
		spec.Assert("intercepts", spec.Forall(o, func(j int) bool { return m.Intercept[j] == I.At(0, j) }))
	}
}

// BoundedElasticNet: the coefficients satisfy the optimality conditions of the elastic net on the preprocessed data.
func BoundedElasticNet() {
	k, o := spec.IntIn("k", 1, 4), spec.IntIn("outputs", 1, 3)
	n := spec.IntIn("n", k+1, k+8)
	X, Y := spec.MatrixIn("X", n, k, -2, 2), spec.MatrixIn("Y", n, o, -2, 2)
	m := linearmodel.NewElasticNet()
	if spec.Bool("lasso") {
		m = linearmodel.NewLasso()
	} else {
		m.L1Ratio = spec.FloatsIn("l1 ratio", 1, 0, 1)[0]
	}
	m.FitIntercept, m.Normalize = spec.Bool("intercept"), spec.Bool("normalize")
	m.Alpha = spec.FloatsIn("alpha", 1, 0.01, 0.5)[0]
	m.Positive = o == 1 && spec.Bool("positive")
	m.Tol, m.MaxIter = 1e-10, 20000
	if spec.Bool("random selection") {
		m.Selection = "random"
	}
	if spec.Bool("fitted before") {
		m.WarmStart = spec.Bool("warm start")
		m.Fit(spec.MatrixIn("X0", n, k, -2, 2), spec.MatrixIn("Y0", n, o, -2, 2))
	}
	fz := spec.Freeze(X, Y)
	m.Fit(X, Y)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
	A, B, _, _, xs := linearmodel.PreprocessData(X, Y, m.FitIntercept, m.Normalize, nil)
	spec.Regular(condition(A) < 60)
	w := func(j, c int) float64 { return m.Coef.At(j, c) * xs.At(0, j) }
	l1, l2 := float64(n)*m.Alpha*m.L1Ratio, float64(n)*m.Alpha*(1-m.L1Ratio)
	g := func(j, c int) float64 {
		s := -l2 * w(j, c)
		for i := 0; i < n; i++ {
			r := B.At(i, c)
			for t := 0; t < k; t++ {
				r -= A.At(i, t) * w(t, c)
			}
			s += A.At(i, j) * r
		}
		return s
	}
	const tol = 1e-3
	for j := 0; j < k; j++ {
		gn, wn := 0., 0.
		for c := 0; c < o; c++ {
			gn += g(j, c) * g(j, c)
			wn += w(j, c) * w(j, c)
		}
		gn, wn = math.Sqrt(gn), math.Sqrt(wn)
		if m.Positive {
			spec.Assert("positive", w(j, 0) >= 0)
			gn = g(j, 0)
		}
		spec.Assert("dual feasible", gn <= l1+tol)
		if wn > tol {
			for c := 0; c < o; c++ {
				spec.Assert("stationary", math.Abs(g(j, c)-l1*w(j, c)/wn) <= tol)
			}
		}
	}
}

// BoundedRidge: ridge regression solves its normal equations.
func BoundedRidge() {
	k, o := spec.IntIn("k", 1, 4), spec.IntIn("outputs", 1, 3)
	n := spec.IntIn("n", k+1, k+8)
	X, Y := spec.MatrixIn("X", n, k, -2, 2), spec.MatrixIn("Y", n, o, -2, 2)
	m := linearmodel.NewRidge()
	m.FitIntercept, m.Normalize = spec.Bool("intercept"), spec.Bool("normalize")
	m.Alpha = spec.FloatsIn("alpha", 1, 0.1, 10)[0]
	if spec.Bool("fitted before") {
		m.Fit(spec.MatrixIn("X0", n, k, -2, 2), spec.MatrixIn("Y0", n, o, -2, 2))
	}
	fz := spec.Freeze(X, Y)
	m.Fit(X, Y)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
	A, B, xo, yo, xs := linearmodel.PreprocessData(X, Y, m.FitIntercept, m.Normalize, nil)
	for c := 0; c < o; c++ {
		for j := 0; j < k; j++ {
			s := m.Alpha * m.Coef.At(j, c) * xs.At(0, j)
			for i := 0; i < n; i++ {
				r := -B.At(i, c)
				for t := 0; t < k; t++ {
					r += A.At(i, t) * m.Coef.At(t, c) * xs.At(0, t)
				}
				s += r * A.At(i, j)
			}
			spec.Assert("normal equations", math.Abs(s) < 1e-4)
		}
		b := 0.
		if m.FitIntercept {
			b = yo.At(0, c)
			for t := 0; t < k; t++ {
				b -= xo.At(0, t) * m.Coef.At(t, c)
			}
		}
		spec.Assert("intercept", spec.Eq(b, m.Intercept.At(0, c)))
	}
}

// BoundedBayesianRidge: the coefficients are the ridge solution with the estimated precisions, Sigma the posterior covariance.
func BoundedBayesianRidge() {
	k := spec.IntIn("k", 1, 4)
	n := spec.IntIn("n", k+3, k+12)
	X, Y := spec.MatrixIn("X", n, k, -2, 2), spec.MatrixIn("Y", n, 1, -2, 2)
	m := linearmodel.NewBayesianRidge()
	m.FitIntercept, m.Normalize = spec.Bool("intercept"), spec.Bool("normalize")
	m.NIter, m.Tol, m.ComputeScore = 5000, 1e-10, spec.Bool("score")
	if spec.Bool("fitted before") {
		m.Fit(spec.MatrixIn("X0", n, k, -2, 2), spec.MatrixIn("Y0", n, 1, -2, 2))
	}
	A, B, xo, yo, xs := linearmodel.PreprocessData(X, Y, m.FitIntercept, m.Normalize, nil)
	spec.Regular(spec.WellConditioned(A))
	fz := spec.Freeze(X, Y)
	m.Fit(X, Y)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
	spec.Regular(m.Lambda < 1e4*m.Alpha)
	w := func(j int) float64 { return m.Coef.At(j, 0) * xs.At(0, j) }
	b, sse, sw := 0., 0., 0.
	if m.FitIntercept {
		b = yo.At(0, 0)
	}
	r := make([]float64, n)
	for i := range r {
		r[i] = -B.At(i, 0)
		for t := 0; t < k; t++ {
			r[i] += A.At(i, t) * w(t)
		}
		sse += r[i] * r[i]
	}
	spec.Regular(sse > 1e-3)
	gamma := float64(k)
	for j := 0; j < k; j++ {
		s := m.Lambda / m.Alpha * w(j)
		for i := range r {
			s += r[i] * A.At(i, j)
		}
		spec.Assert("ridge solution", math.Abs(s) < 1e-6)
		if m.FitIntercept {
			b -= xo.At(0, j) * m.Coef.At(j, 0)
		}
		sw += w(j) * w(j)
		gamma -= m.Lambda * m.Sigma.At(j, j)
		for l := 0; l < k; l++ {
			// (alpha A'A + lambda) Sigma = 1
			v := m.Lambda * m.Sigma.At(j, l)
			for t := 0; t < k; t++ {
				a := 0.
				for i := 0; i < n; i++ {
					a += A.At(i, j) * A.At(i, t)
				}
				v += m.Alpha * a * m.Sigma.At(t, l)
			}
			if j == l {
				v--
			}
			spec.Assert("posterior covariance", math.Abs(v) < 1e-3)
		}
	}
	spec.Assert("intercept", spec.Eq(b, m.Intercept.At(0, 0)))
	spec.Assert("noise precision", math.Abs(m.Alpha*(sse+2e-6)/(float64(n)-gamma+2e-6)-1) < 1e-3)
	spec.Regular(gamma > 0.3) // else the evidence is too flat to have converged
	spec.Assert("weight precision", math.Abs(m.Lambda*(sw+2e-6)/(gamma+2e-6)-1) < 0.1)
}

// BoundedLogistic: fitting finds a stationary point of the penalized likelihood, and predicts the likeliest class. runs=150
func BoundedLogistic() {
	k, q, classes := spec.IntIn("k", 1, 3), spec.IntIn("q", 1, 4), spec.IntIn("classes", 2, 4)
	n := spec.IntIn("n", 4, 12)
	X, L := spec.MatrixIn("X", n, k, -2, 2), spec.LabelMatrix("labels", n, 1, classes)
	present := make([]bool, classes)
	for i := 0; i < n; i++ {
		present[int(L.At(i, 0))] = true
	}
	for _, p := range present {
		spec.Assume(p)
	}
	// labels 10, 20, ..; or one 0/1 column; or indicator columns
	kind := spec.Choose("label coding", 3)
	var Y, I *mat.Dense
	I = mat.NewDense(n, classes, nil)
	for i := 0; i < n; i++ {
		I.Set(i, int(L.At(i, 0)), 1)
	}
	switch kind {
	case 0:
		Y = mat.NewDense(n, 1, nil)
		for i := 0; i < n; i++ {
			Y.Set(i, 0, 10*L.At(i, 0)+10)
		}
	case 1:
		spec.Assume(classes == 2)
		Y = mat.DenseCopyOf(L)
		I = Y
	case 2:
		// a view with a stride
		W := mat.NewDense(n, classes+2, nil)
		Y = W.Slice(0, n, 1, 1+classes).(*mat.Dense)
		Y.Copy(I)
	}
	m := linearmodel.NewLogisticRegression()
	m.Alpha, m.Tol, m.MaxIter = spec.FloatsIn("alpha", 1, 0.1, 5)[0], 1e-8, 2000
	m.RandomState = base.NewSource(7)
	if spec.Bool("fitted before") {
		m.Fit(spec.MatrixIn("X0", 3, k, -2, 2), mat.NewDense(3, 1, []float64{5, 6, 7}))
	}
	fz := spec.Freeze(X, Y)
	var ym mat.Matrix = Y
	if spec.Bool("transposed labels") {
		ym = mat.DenseCopyOf(Y.T()).T()
	}
	m.Fit(X, ym)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
	_, o := I.Dims()
	_, yc := Y.Dims()
	spec.Assert("shapes", m.Coef.Rows == k && m.Coef.Cols == o && len(m.Intercept) == o && m.GetNOutputs() == yc)
	P := m.PredictProbas(X, &mat.Dense{})
	for j := 0; j < o; j++ {
		gi := 0.
		for t := 0; t < k; t++ {
			g := m.Alpha * m.Coef.Data[t*m.Coef.Stride+j]
			for i := 0; i < n; i++ {
				g += X.At(i, t) * (P.At(i, j) - I.At(i, j))
			}
			spec.Assert("stationary in the coefficients", math.Abs(g)/float64(n) < 1e-3)
		}
		for i := 0; i < n; i++ {
			gi += P.At(i, j) - I.At(i, j)
		}
		spec.Assert("stationary in the intercepts", math.Abs(gi)/float64(n) < 1e-3)
	}
	Q := spec.MatrixIn("Q", q, k, -2, 2)
	PQ := m.PredictProbas(Q, &mat.Dense{})
	R := m.Predict(Q, &mat.Dense{})
	for i := 0; i < q; i++ {
		best := 0
		for j := 0; j < o; j++ {
			if PQ.At(i, j) > PQ.At(i, best) {
				best = j
			}
		}
		switch kind {
		case 0:
			spec.Assert("predicts the likeliest label", R.At(i, 0) == float64(10*best+10))
		case 1:
			spec.Assert("predicts the likelier label", R.At(i, 0) == spec.B2F(PQ.At(i, 0) > .5))
		case 2:
			for j := 0; j < o; j++ {
				spec.Assert("marks the likeliest class", R.At(i, j) == spec.B2F(j == best))
			}
		}
	}
	F := m.Predict(X, &mat.Dense{})
	same := 0.
	for i := 0; i < n; i++ {
		eq := true
		for c := 0; c < yc; c++ {
			eq = eq && F.At(i, c) == Y.At(i, c)
		}
		same += spec.B2F(eq)
	}
	spec.Assert("score is the accuracy", spec.Eq(m.Score(X, Y), same/float64(n)))
	m.MaxIter = spec.IntIn("few", 1, 3)
	m.Fit(X, Y)
	spec.Assert("loss after few iterations", !math.IsInf(m.Loss, 0) && !math.IsNaN(m.Loss))
}

// condition is the ratio of the extreme singular values of A.
func condition(A *mat.Dense) float64 {
	var svd mat.SVD
	r, c := A.Dims()
	if r < c || !svd.Factorize(A, mat.SVDNone) {
		return math.Inf(1)
	}
	return svd.Cond()
}
