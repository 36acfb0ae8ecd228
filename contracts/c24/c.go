// Package c24 holds the contracts of the support vector machines.
package c24

import (
	"math"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/svm"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

// own is an arbitrary kernel.
func own(x, y []float64) float64 { return spec.UF("kernel", x, y) }

type owner struct{}

func (owner) Func(x, y []float64) float64 { return own(x, y) }

// kernel sets one of the kernels by name and gives its definition.
func kernel(b *svm.BaseLibSVM, c int) func(x, y []float64) float64 {
	gamma := 1 / float64(c)
	if spec.Choose("gamma", 2) == 1 {
		gamma = spec.FloatsIn("gamma", 1, 0, 5)[0]
		spec.Assume(gamma > 0)
		b.Gamma = gamma
	}
	coef0, degree := spec.Float("coef0"), spec.Float("degree")
	b.Coef0, b.Degree = coef0, degree
	dot := func(x, y []float64) float64 {
		return spec.Sum(len(x), func(k int) float64 { return x[k] * y[k] })
	}
	switch spec.Choose("kernel", 6) {
	case 0:
		b.Kernel = "linear"
		return dot
	case 1:
		b.Kernel = "poly"
		return func(x, y []float64) float64 { return math.Pow(gamma*dot(x, y)+coef0, degree) }
	case 2:
		b.Kernel = "sigmoid"
		return func(x, y []float64) float64 { return math.Tanh(gamma*dot(x, y) + coef0) }
	case 3:
		b.Kernel = own
		return own
	case 4:
		b.Kernel = owner{}
		return own
	}
	b.Kernel = "rbf"
	return func(x, y []float64) float64 {
		return math.Exp(-gamma * spec.Sum(len(x), func(k int) float64 { return (x[k] - y[k]) * (x[k] - y[k]) }))
	}
}

// ContractSVCPredict: whatever model the training yields, predictions are the sign of the decision function with the kernel asked for; training gets the data, the column of targets and the parameters of the machine.
func ContractSVCPredict() {
	n, c := spec.Nat("n", 2), spec.Nat("c", 1)
	o := spec.Choose("outputs", 2) + 1
	X, Y := spec.Matrix("X", n, c), spec.Matrix("Y", n, o)
	s := spec.Nat("s", 0)
	var SX []*mat.Dense
	var SY, A [][]float64
	var B []float64
	for l := 0; l < o; l++ {
		SX = append(SX, spec.Matrix("SX", s, c))
		SY = append(SY, spec.Floats("SY", s))
		A = append(A, spec.Floats("A", s))
		B = append(B, spec.Float("B"))
	}
	sup := spec.IntsIn("support", s, 0, n-1)
	m := svm.NewSVC()
	m.C, m.Epsilon, m.Tol = spec.Float("C"), spec.Float("Epsilon"), spec.Float("Tol")
	m.MaxIter = spec.IntIn("MaxIter", 1, 100)
	K := kernel(&m.BaseLibSVM, c)
	call := 0
	cpus := 1 + 2*spec.Choose("processors", 2)
	spec.UseContract("runtime.NumCPU", func() int { return cpus })
	spec.UseBody("github.com/pa-m/sklearn/base.Parallelize")
	spec.UseContract("github.com/pa-m/sklearn/svm.svmTrain", func(tX *mat.Dense, tY []float64, C, Epsilon float64, KF func(X1, X2 []float64) float64, Tol float64, MaxPasses int, CacheSize uint, RandomState base.Source) *svm.Model {
		l := call
		call++
		spec.Assert("training gets the samples", spec.Forall2(n, c, func(i, j int) bool { return tX.At(i, j) == X.At(i, j) }))
		spec.Assert("training gets the column of targets", len(tY) == n && spec.Forall(n, func(i int) bool { return tY[i] == Y.At(i, l) }))
		spec.Assert("training gets the parameters", C == m.C && Epsilon == m.Epsilon && Tol == m.Tol && MaxPasses == m.MaxIter)
		return &svm.Model{X: SX[l], Y: SY[l], KernelFunction: KF, B: B[l], Alphas: A[l], Support: sup}
	})
	fz := spec.Freeze(X, Y)
	if !spec.Symbolic() {
		return // the bounded contracts run the training
	}
	m.Fit(X, Y)
	spec.Assert("one training per output", call == o)
	q := spec.Nat("q", 1)
	Q := spec.Matrix("Q", q, c)
	P := &mat.Dense{}
	if spec.Choose("destination", 2) == 1 {
		P = spec.Matrix("P", q, o)
	}
	fq := spec.Freeze(Q)
	R := m.Predict(Q, P)
	l := 0
	if o > 1 {
		l = spec.Choose("output", o)
	}
	spec.Assert("prediction is the sign of the decision function", spec.Forall(q, func(i int) bool {
		f := spec.Sum(s, func(j int) float64 { return A[l][j] * SY[l][j] * K(Q.RawRowView(i), SX[l].RawRowView(j)) }) + B[l]
		return P.At(i, l) == spec.B2F(f >= 0) && R.At(i, l) == P.At(i, l)
	}))
	spec.Assert("inputs unchanged", spec.Unchanged(fz) && spec.Unchanged(fq))
}

// ContractSVRPredict: whatever model the training yields, predictions are the regression function with the kernel asked for; training gets the data, the column of targets and the parameters of the machine.
func ContractSVRPredict() {
	n, c := spec.Nat("n", 2), spec.Nat("c", 1)
	o := spec.Choose("outputs", 2) + 1
	X, Y := spec.Matrix("X", n, c), spec.Matrix("Y", n, o)
	s := spec.Nat("s", 0)
	var SX []*mat.Dense
	var A [][]float64
	var B []float64
	for l := 0; l < o; l++ {
		SX = append(SX, spec.Matrix("SX", s, c))
		A = append(A, spec.Floats("A", s))
		B = append(B, spec.Float("B"))
	}
	sup := spec.IntsIn("support", s, 0, n-1)
	m := svm.NewSVR()
	m.C, m.Epsilon, m.Tol = spec.Float("C"), spec.Float("Epsilon"), spec.Float("Tol")
	m.MaxIter = spec.IntIn("MaxIter", 1, 100)
	K := kernel(&m.BaseLibSVM, c)
	call := 0
	cpus := 1 + 2*spec.Choose("processors", 2)
	spec.UseContract("runtime.NumCPU", func() int { return cpus })
	spec.UseBody("github.com/pa-m/sklearn/base.Parallelize")
	spec.UseContract("github.com/pa-m/sklearn/svm.svrTrain", func(tX *mat.Dense, tY []float64, C, Epsilon float64, KF func(X1, X2 []float64) float64, Tol float64, MaxPasses int, CacheSize uint, RandomState base.Source) *svm.Model {
		l := call
		call++
		spec.Assert("training gets the samples", spec.Forall2(n, c, func(i, j int) bool { return tX.At(i, j) == X.At(i, j) }))
		spec.Assert("training gets the column of targets", len(tY) == n && spec.Forall(n, func(i int) bool { return tY[i] == Y.At(i, l) }))
		spec.Assert("training gets the parameters", C == m.C && Epsilon == m.Epsilon && Tol == m.Tol && MaxPasses == m.MaxIter)
		return &svm.Model{X: SX[l], KernelFunction: KF, B: B[l], Alphas: A[l], Support: sup}
	})
	fz := spec.Freeze(X, Y)
	if !spec.Symbolic() {
		return // the bounded contracts run the training
	}
	m.Fit(X, Y)
	spec.Assert("one training per output", call == o)
	q := spec.Nat("q", 1)
	Q := spec.Matrix("Q", q, c)
	P := &mat.Dense{}
	if spec.Choose("destination", 2) == 1 {
		P = spec.Matrix("P", q, o)
	}
	fq := spec.Freeze(Q)
	R := m.Predict(Q, P)
	l := 0
	if o > 1 {
		l = spec.Choose("output", o)
	}
	spec.Assert("prediction is the regression function", spec.Forall(q, func(i int) bool {
		f := spec.Sum(s, func(j int) float64 { return A[l][j] * K(Q.RawRowView(i), SX[l].RawRowView(j)) }) + B[l]
		return P.At(i, l) == f && R.At(i, l) == P.At(i, l)
	}))
	spec.Assert("inputs unchanged", spec.Unchanged(fz) && spec.Unchanged(fq))
}
