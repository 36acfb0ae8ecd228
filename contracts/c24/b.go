package c24

import (
	"math"

	"github.com/pa-m/randomkit"
	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/svm"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

func near(a, b float64) bool { return a == b || math.Abs(a-b) <= 1e-7*(1+math.Abs(a)+math.Abs(b)) }

type cosine struct{}

func (cosine) Func(a, b []float64) float64 {
	s := 1.
	for i := range a {
		s += math.Cos(a[i] - b[i])
	}
	return s
}

// patient is a source for trainings that end: others are not considered (that training ends is not claimed).
type patient struct {
	*randomkit.RKState
	n int
}

func (p *patient) Intn(n int) int {
	p.n++
	spec.Assume(p.n < 100000)
	return p.RKState.Intn(n)
}

func (p *patient) SourceClone() base.Source {
	return &patient{RKState: p.RKState.SourceClone().(*randomkit.RKState), n: p.n}
}

// settings draws the parameters both machines have, and gives the kernel they define.
func settings(b *svm.BaseLibSVM, c int, sigmoid bool) func(x, y []float64) float64 {
	b.C = []float64{.1, 1, 10}[spec.Choose("C", 3)]
	b.MaxIter = spec.IntIn("MaxIter", 1, 12)
	b.RandomState = base.NewSource(uint64(spec.IntIn("seed", 0, 1000)))
	b.CacheSize = uint(spec.IntIn("cache", 1, 2))
	gamma := 1 / float64(c)
	if spec.Bool("gamma") {
		b.Gamma = []float64{.25, 2}[spec.Choose("gamma value", 2)]
		gamma = b.Gamma
	}
	if spec.Bool("coef0") {
		b.Coef0 = .5
	}
	if spec.Bool("degree") {
		b.Degree = 2
	}
	coef0, degree := b.Coef0, b.Degree
	dot := func(x, y []float64) float64 {
		s := 0.
		for i := range x {
			s += x[i] * y[i]
		}
		return s
	}
	kind := spec.Choose("kernel", 6)
	spec.Assume(kind != 2 || sigmoid)
	switch kind {
	case 0:
		b.Kernel = "linear"
		return dot
	case 1:
		b.Kernel = "poly"
		return func(x, y []float64) float64 { return math.Pow(gamma*dot(x, y)+coef0, degree) }
	case 2:
		b.Kernel = "sigmoid"
		return func(x, y []float64) float64 { return math.Tanh(gamma*dot(x, y) + coef0) }
	case 3:
		b.Kernel = func(x, y []float64) float64 { return 3 * dot(x, y) }
		return func(x, y []float64) float64 { return 3 * dot(x, y) }
	case 4:
		b.Kernel = cosine{}
		return cosine{}.Func
	}
	return func(x, y []float64) float64 {
		s := 0.
		for i := range x {
			s += (x[i] - y[i]) * (x[i] - y[i])
		}
		return math.Exp(-gamma * s)
	}
}

func row(A mat.Matrix, i int) []float64 { return mat.Row(nil, i, A) }

func checkSupport(b *svm.BaseLibSVM, X mat.Matrix, o int) {
	n, c := X.Dims()
	M := b.Model[o]
	k := len(M.Alphas)
	spec.Assert("a multiplier per support vector", len(M.Support) == k && len(b.Support[o]) == k && len(b.SupportVectors[o]) == k)
	for j, s := range M.Support {
		spec.Assert("support vectors are samples in increasing order", 0 <= s && s < n && b.Support[o][j] == s && (j == 0 || M.Support[j-1] < s))
		for f := 0; f < c; f++ {
			spec.Assert("support vectors are rows of X", M.X.At(j, f) == X.At(s, f) && b.SupportVectors[o][j][f] == X.At(s, f))
		}
	}
}

// sameModels compares the models of two machines.
func sameModels(a, b *svm.BaseLibSVM) bool {
	for o := range a.Model {
		A, B := a.Model[o], b.Model[o]
		if A.B != B.B || len(A.Alphas) != len(B.Alphas) {
			return false
		}
		for j := range A.Alphas {
			if A.Alphas[j] != B.Alphas[j] || A.Support[j] != B.Support[j] {
				return false
			}
		}
	}
	return len(a.Model) == len(b.Model)
}

// BoundedSVC: multipliers are feasible and no worse than none at all, support vectors are samples, predictions are the sign of the decision function. runs=4000
func BoundedSVC() {
	n, c, o := spec.IntIn("n", 2, 10), spec.IntIn("c", 1, 3), spec.IntIn("o", 1, 3)
	X := spec.Matrix("X", n, c)
	if spec.Bool("grid") {
		X = spec.LabelMatrix("Xg", n, c, 3)
	}
	Y := spec.LabelMatrix("Y", n, o, 2)
	for i := 0; i < n; i++ {
		for j := 0; j < o; j++ {
			Y.Set(i, j, 2*Y.At(i, j)-1)
		}
	}
	m := svm.NewSVC()
	K := settings(&m.BaseLibSVM, c, true)
	if spec.Bool("refit") {
		m.Fit(spec.Matrix("X0", n, c), Y)
	}
	other := m.PredicterClone().(*svm.SVC)
	fz := spec.Freeze(X, Y)
	if m.Fit(X, Y) != m {
		spec.Assert("Fit returns the machine", false)
	}
	other.Fit(X, Y)
	spec.Assert("a clone with the same seed fits the same models", sameModels(&m.BaseLibSVM, &other.BaseLibSVM))
	other.Fit(spec.Matrix("X1", n, c), Y)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
	spec.Assert("is a classifier", m.IsClassifier() && m.GetNOutputs() == o && len(m.Model) == o)
	q := spec.IntIn("q", 1, 4)
	Q := spec.Matrix("Q", q, c)
	P := &mat.Dense{}
	if spec.Bool("destination") {
		P = spec.Matrix("P", q, o)
	}
	fm := spec.Freeze(m, Q)
	R := m.Predict(Q, P)
	spec.Assert("predicting changes neither machine nor samples", spec.Unchanged(fm))
	right := 0
	S := m.Predict(X, nil)
	for k := 0; k < n; k++ {
		ok := true
		for l := 0; l < o; l++ {
			ok = ok && S.At(k, l) == Y.At(k, l)
		}
		if ok {
			right++
		}
	}
	spec.Assert("Score is the accuracy", near(m.Score(X, Y), float64(right)/float64(n)))
	for l := 0; l < o; l++ {
		M := m.Model[l]
		checkSupport(&m.BaseLibSVM, X, l)
		bal, dual := 0., 0.
		for j, s := range M.Support {
			spec.Assert("multipliers between zero and C", 0 < M.Alphas[j] && M.Alphas[j] <= m.C*(1+1e-9))
			spec.Assert("labels of the support vectors", M.Y[j] == Y.At(s, l))
			bal += M.Alphas[j] * Y.At(s, l)
			dual += M.Alphas[j]
			for k, t := range M.Support {
				dual -= M.Alphas[j] * M.Alphas[k] * Y.At(s, l) * Y.At(t, l) * K(row(X, s), row(X, t)) / 2
			}
		}
		spec.Assert("multipliers of both classes balance", math.Abs(bal) <= float64(n)*m.Tol*1.01+1e-9)
		if s, ok := m.Kernel.(string); !ok || s != "sigmoid" {
			spec.Assert("no worse than no multipliers", dual >= -float64(n)*m.Tol*(1+math.Abs(dual)))
		}
		for i := 0; i < q; i++ {
			f := M.B
			for j, s := range M.Support {
				f += M.Alphas[j] * Y.At(s, l) * K(row(Q, i), row(X, s))
			}
			spec.Regular(f > 1e-9 || f < -1e-9)
			p := 0.
			if f >= 0 {
				p = 1
			}
			spec.Assert("prediction is the sign of the decision function", P.At(i, l) == p && R.At(i, l) == p)
		}
	}
}

// BoundedSVR: multipliers are feasible, support vectors are samples, predictions are the regression function. runs=4000
func BoundedSVR() {
	n, c, o := spec.IntIn("n", 2, 10), spec.IntIn("c", 1, 3), spec.IntIn("o", 1, 3)
	X := spec.Matrix("X", n, c)
	Y := spec.Matrix("Y", n, o)
	m := svm.NewSVR()
	K := settings(&m.BaseLibSVM, c, false) // training with an indefinite kernel may not end
	m.Epsilon = []float64{.01, .1, 1}[spec.Choose("epsilon", 3)]
	m.RandomState = &patient{RKState: m.RandomState.(*randomkit.RKState)}
	if spec.Bool("refit") {
		m.Fit(spec.Matrix("X0", n, c), Y)
	}
	other := m.PredicterClone().(*svm.SVR)
	fz := spec.Freeze(X, Y)
	if m.Fit(X, Y) != m {
		spec.Assert("Fit returns the machine", false)
	}
	other.Fit(X, Y)
	spec.Assert("a clone with the same seed fits the same models", sameModels(&m.BaseLibSVM, &other.BaseLibSVM))
	other.Fit(spec.Matrix("X1", n, c), Y)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
	spec.Assert("is a regressor", !m.IsClassifier() && m.GetNOutputs() == o && len(m.Model) == o)
	q := spec.IntIn("q", 1, 4)
	Q := spec.Matrix("Q", q, c)
	P := &mat.Dense{}
	if spec.Bool("destination") {
		P = spec.Matrix("P", q, o)
	}
	fm := spec.Freeze(m, Q)
	R := m.Predict(Q, P)
	spec.Assert("predicting changes neither machine nor samples", spec.Unchanged(fm))
	for l := 0; l < o; l++ {
		M := m.Model[l]
		checkSupport(&m.BaseLibSVM, X, l)
		bal := 0.
		for j := range M.Support {
			spec.Assert("multipliers between -C and C", math.Abs(M.Alphas[j]) > 0 && math.Abs(M.Alphas[j]) <= m.C*(1+1e-9))
			bal += M.Alphas[j]
		}
		spec.Assert("multipliers balance", math.Abs(bal) <= float64(n)*m.Tol*1.01+1e-9)
		for i := 0; i < q; i++ {
			f := M.B
			for j, s := range M.Support {
				f += M.Alphas[j] * K(row(Q, i), row(X, s))
			}
			spec.Assert("prediction is the regression function", near(P.At(i, l), f) && near(R.At(i, l), f))
		}
	}
}

// BoundedSVCMargin: samples of both classes far apart compared with the width of an RBF kernel end up with margin one within Epsilon (the exact optimum when C is not reached). runs=4000
func BoundedSVCMargin() {
	n, c := spec.IntIn("n", 2, 10), spec.IntIn("c", 1, 3)
	X := spec.MatrixIn("X", n, c, 0, 1)
	place := spec.FloatsIn("place", n, 0, 1)
	for i := 0; i < n; i++ {
		rank := 0.
		for k := 0; k < n; k++ {
			if place[k] < place[i] || place[k] == place[i] && k < i {
				rank++
			}
		}
		X.Set(i, 0, 3*rank+X.At(i, 0))
	}
	Y := spec.LabelMatrix("Y", n, 1, 2)
	pos := 0.
	for i := 0; i < n; i++ {
		pos += Y.At(i, 0)
		Y.Set(i, 0, 2*Y.At(i, 0)-1)
	}
	spec.Assume(pos > 0 && pos < float64(n))
	m := svm.NewSVC()
	m.Gamma, m.C = 1, 10
	m.Epsilon = []float64{.01, .1}[spec.Choose("epsilon", 2)]
	m.MaxIter = spec.IntIn("MaxIter", 10, 30)
	if spec.Bool("seeded") {
		m.RandomState = base.NewSource(uint64(spec.IntIn("seed", 0, 1000)))
	}
	m.Fit(X, Y)
	M := m.Model[0]
	for i := 0; i < n; i++ {
		f := M.B
		for j := range M.Alphas {
			d := 0.
			for k := 0; k < c; k++ {
				d += (X.At(i, k) - M.X.At(j, k)) * (X.At(i, k) - M.X.At(j, k))
			}
			f += M.Alphas[j] * M.Y[j] * math.Exp(-d)
		}
		spec.Assert("margin one within Epsilon", math.Abs(Y.At(i, 0)*f-1) <= m.Epsilon+.01)
	}
}

// BoundedBoundary: a sample where the kernel expansion is exactly zero is of class one.
// runs=200
func BoundedBoundary() {
	k := spec.IntIn("features", 1, 2)
	m := svm.NewSVC()
	m.Kernel = "linear"
	m.MaxIter = 2
	m.Fit(mat.NewDense(2, 1, []float64{-1, 1}), mat.NewDense(2, 1, []float64{-1, 1})) // replaced below
	s := spec.IntIn("support", 1, 3)
	V, al, yy := spec.LabelMatrix("vectors", s, k, 3), spec.IntsIn("alpha", s, 1, 2), spec.IntsIn("sign", s, 0, 1)
	mo := &svm.Model{X: mat.DenseCopyOf(V), KernelFunction: svm.LinearKernel{}.Func, B: float64(spec.IntIn("b", -3, 3))}
	for i := 0; i < s; i++ {
		mo.Alphas = append(mo.Alphas, float64(al[i]))
		mo.Y = append(mo.Y, float64(2*yy[i]-1))
	}
	m.Model = []*svm.Model{mo}
	Z := spec.LabelMatrix("Z", 4, k, 3)
	P := m.Predict(Z, nil)
	for i := 0; i < 4; i++ {
		sum := mo.B
		for j := 0; j < s; j++ {
			for f := 0; f < k; f++ {
				sum += mo.Alphas[j] * mo.Y[j] * V.At(j, f) * Z.At(i, f)
			}
		}
		spec.Assert("one exactly where the expansion is not negative", (P.At(i, 0) == 1) == (sum >= 0) && (P.At(i, 0) == 1 || P.At(i, 0) == 0))
	}
}
