// Package c14 holds the contracts of Gaussian naive Bayes.
package c14

import (
	"math"

	naivebayes "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

// fitted is a classifier with arbitrary parameters.
func fitted(k, c int) *naivebayes.GaussianNB {
	m := naivebayes.NewGaussianNB(nil, 1e-9)
	m.Classes = spec.Floats("classes", k)
	m.ClassPrior = spec.FloatsIn("prior", k, .01, 1)
	m.ClassCount = spec.Floats("count", k)
	m.Theta = spec.Matrix("theta", k, c)
	m.Sigma = spec.MatrixIn("sigma", k, c, .01, 1e6)
	return m.PredicterClone().(*naivebayes.GaussianNB)
}

// joint is the joint log likelihood of class i and row r of X.
func joint(m *naivebayes.GaussianNB, X mat.Matrix, r, i int) float64 {
	_, c := X.Dims()
	tau := 2 * math.Pi
	return math.Log(m.ClassPrior[i]) - spec.Sum(c, func(j int) float64 {
		d := X.At(r, j) - m.Theta.At(i, j)
		return math.Log(tau*m.Sigma.At(i, j))/2 + d*d/m.Sigma.At(i, j)/2
	})
}

// ContractPredict: the predicted class maximises the joint log likelihood.
func ContractPredict() {
	n, c, k := spec.Nat("n", 1), spec.Nat("features", 1), spec.Nat("k", 1)
	X := spec.Matrix("X", n, c)
	m := fitted(k, c)
	fz := spec.Freeze(X, m)
	Y := spec.Matrix("Y", n, 1)
	var R *mat.Dense
	if spec.Choose("given", 2) == 1 {
		m.Predict(X, Y)
		R = Y
	} else {
		R = m.Predict(X, &mat.Dense{})
	}
	r, w := R.Dims()
	spec.Assert("shape", r == n && w == 1)
	spec.Assert("a class of greatest joint likelihood", spec.Forall(n, func(r int) bool {
		if !spec.Symbolic() {
			return spec.Exists(k, func(i int) bool {
				return R.At(r, 0) == m.Classes[i] && spec.Le(spec.Max(k, func(i int) float64 { return joint(m, X, r, i) }), joint(m, X, r, i))
			})
		}
		b := spec.First(k, func(i int) bool {
			return joint(m, X, r, i) == spec.Max(k, func(i int) float64 { return joint(m, X, r, i) })
		})
		return R.At(r, 0) == m.Classes[b]
	}))
	spec.Assert("inputs and model unchanged", spec.Unchanged(fz))
}

// ContractProbabilities: probabilities are the joint likelihoods divided by their sum.
func ContractProbabilities() {
	n, c, k := spec.Nat("n", 1), spec.Nat("features", 1), spec.Nat("k", 1)
	X := spec.Matrix("X", n, c)
	m := fitted(k, c)
	fz := spec.Freeze(X, m)
	P := spec.Matrix("P", n, k)
	logs, given := spec.Choose("logs", 2) == 1, spec.Choose("given", 2) == 1
	if !given {
		P = &mat.Dense{}
	}
	var R *mat.Dense
	if logs {
		R = m.PredictLogProbas(X, P)
	} else {
		R = m.PredictProbas(X, P)
	}
	if given {
		R = P
	}
	r, w := R.Dims()
	spec.Assert("shape", r == n && w == k)
	spec.Assert("log probabilities", spec.Forall2(n, k, func(r, i int) bool {
		top := 0. // avoids overflow in floating point arithmetic; of no effect on reals
		if !spec.Symbolic() {
			top = spec.Max(k, func(i int) float64 { return joint(m, X, r, i) })
		}
		v := joint(m, X, r, i) - (top + math.Log(spec.Sum(k, func(i int) float64 { return math.Exp(joint(m, X, r, i) - top) })))
		if logs {
			return spec.Eq(R.At(r, i), v)
		}
		return spec.Eq(R.At(r, i), math.Exp(v))
	}))
	spec.Assert("inputs and model unchanged", spec.Unchanged(fz))
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-7*(1+math.Abs(a)+math.Abs(b)) || a == b }

// moments are the weighted mean and variance of column j of the rows chosen, and their total weight.
func moments(X *mat.Dense, j int, w []float64, chosen func(i int) bool) (mean, variance, total float64) {
	n, _ := X.Dims()
	weight := func(i int) float64 {
		if w == nil {
			return 1
		}
		return w[i]
	}
	for i := 0; i < n; i++ {
		if chosen(i) {
			total += weight(i)
			mean += weight(i) * X.At(i, j)
		}
	}
	mean /= total
	for i := 0; i < n; i++ {
		if chosen(i) {
			variance += weight(i) * (X.At(i, j) - mean) * (X.At(i, j) - mean)
		}
	}
	return mean, variance / total, total
}

// BoundedFit: after fitting at once, or in batches, the parameters are the counts, means and variances of all samples of each class.
func BoundedFit() {
	n, c, k := spec.IntIn("n", 1, 9), spec.IntIn("features", 1, 3), spec.IntIn("k", 1, 4)
	X := spec.Matrix("X", n, c)
	spec.Assume(n == 1 || !mat.Equal(X, mat.NewDense(n, c, nil)))
	Y := spec.LabelMatrix("Y", n, 1, k)
	smoothing := []float64{1e-9, .1, 1}[spec.IntIn("smoothing", 0, 2)]
	var w, priors []float64
	if spec.Bool("weighted") {
		w = spec.FloatsIn("weight", n, .01, 4)
	}
	var classes []float64
	batches := spec.Bool("batches")
	for v := 0; v < k; v++ {
		if batches || spec.Exists(n, func(i int) bool { return Y.At(i, 0) == float64(v) }) {
			classes = append(classes, float64(v))
		}
	}
	if spec.Bool("priors") {
		priors = make([]float64, len(classes))
		rest := 1.
		for i := range priors {
			priors[i] = rest / 2
			rest -= priors[i]
		}
		priors[len(priors)-1] += rest
	}
	m := naivebayes.NewGaussianNB(priors, smoothing)
	fz := spec.Freeze(X, Y, w, priors)
	if spec.Bool("used before") && (priors == nil || len(priors) == 1) {
		m.Fit(spec.Matrix("X'", n, c), spec.LabelMatrix("Y'", n, 1, 1))
	}
	last := 0
	if batches {
		for first := 0; first < n; first = last {
			last = spec.IntIn("batch", first+1, n)
			var wb []float64
			if w != nil {
				wb = w[first:last]
			}
			m.PartialFit(X.Slice(first, last, 0, c), Y.Slice(first, last, 0, 1), classes, first == 0, wb)
			if last == n { // the last batch determines the smoothing
				variance := 0.
				for j := 0; j < c; j++ {
					_, v, _ := moments(X, j, w, func(i int) bool { return i >= first })
					variance = math.Max(variance, v)
				}
				spec.Assert("smoothing", near(m.Epsilon, smoothing*variance))
			}
		}
	} else {
		m.SampleWeight = w
		m.Fit(X, Y)
		variance := 0.
		for j := 0; j < c; j++ {
			_, v, _ := moments(X, j, w, func(i int) bool { return true })
			variance = math.Max(variance, v)
		}
		spec.Assert("smoothing", near(m.Epsilon, smoothing*variance))
	}
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
	spec.Assert("classes", len(m.Classes) == len(classes) && m.GetNOutputs() == 1 && m.IsClassifier())
	sum := 0.
	for a, v := range classes {
		spec.Assert("classes in order", m.Classes[a] == v)
		mine := func(i int) bool { return Y.At(i, 0) == v }
		if !spec.Exists(n, mine) {
			spec.Assert("no samples", m.ClassCount[a] == 0)
			continue
		}
		for j := 0; j < c; j++ {
			mean, variance, total := moments(X, j, w, mine)
			if j == 0 {
				sum += total
			}
			spec.Assert("count", near(m.ClassCount[a], total))
			spec.Assert("mean", near(m.Theta.At(a, j), mean))
			spec.Assert("variance", math.Abs(m.Sigma.At(a, j)-(variance+m.Epsilon)) <= 1e-7*(1+variance+math.Abs(mean)))
		}
	}
	for a := range classes {
		if priors != nil {
			spec.Assert("given priors", m.ClassPrior[a] == priors[a])
		} else {
			spec.Assert("priors from counts", near(m.ClassPrior[a], m.ClassCount[a]/sum))
		}
	}
	// a clone is independent
	cl := m.PredicterClone().(*naivebayes.GaussianNB)
	cf := spec.Freeze(cl.Theta, cl.Sigma, cl.ClassCount, cl.ClassPrior, cl.Classes)
	m.Priors = nil
	m.PartialFit(X, mat.NewDense(n, 1, nil), []float64{0}, spec.Bool("refit") || classes[0] != 0, nil)
	spec.Assert("clones are independent", spec.Unchanged(cf))
}

// ContractFit: one pass over the data: the parameters are the counts, means and variances of the samples of each class, all classes having samples.
func ContractFit() {
	n, c, k := spec.Nat("n", 1), spec.Nat("features", 1), spec.Nat("k", 1)
	X, Y := spec.Matrix("X", n, c), spec.LabelMatrix("Y", n, 1, k)
	classes := make([]float64, k)
	for i := range classes {
		classes[i] = float64(i)
	}
	var w []float64
	if spec.Choose("weighted", 2) == 1 {
		w = spec.FloatsIn("weight", n, .01, 4)
	}
	weight := func(i int) float64 {
		if w == nil {
			return 1
		}
		return w[i]
	}
	spec.Assume(spec.Forall(k, func(a int) bool { return spec.Count(n, func(i int) bool { return Y.At(i, 0) == float64(a) }) > 0 }))
	spec.UseContract("github.com/pa-m/sklearn/naive_bayes.npUnique", func(v mat.Vector) []float64 { return append([]float64(nil), classes...) })
	m := naivebayes.NewGaussianNB(nil, spec.FloatsIn("smoothing", 1, 0, 1)[0])
	fz := spec.Freeze(X, Y, w)
	m.PartialFit(X, Y, classes, true, w)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
	total := func(a int) float64 {
		return spec.Sum(n, func(i int) float64 { return weight(i) * spec.B2F(Y.At(i, 0) == float64(a)) })
	}
	mean := func(a, j int) float64 {
		return spec.Sum(n, func(i int) float64 { return weight(i) * X.At(i, j) * spec.B2F(Y.At(i, 0) == float64(a)) }) / total(a)
	}
	spec.Assert("counts", spec.Forall(k, func(a int) bool { return spec.Eq(m.ClassCount[a], total(a)) }))
	spec.Assert("means", spec.Forall2(k, c, func(a, j int) bool { return spec.Eq(m.Theta.At(a, j), mean(a, j)) }))
	spec.Assert("variances", spec.Forall2(k, c, func(a, j int) bool {
		v := spec.Sum(n, func(i int) float64 {
			d := X.At(i, j) - mean(a, j)
			return weight(i) * d * d * spec.B2F(Y.At(i, 0) == float64(a))
		}) / total(a)
		return spec.Eq(m.Sigma.At(a, j), v+m.Epsilon)
	}))
}

// ContractPartialFit: fitting a further batch adds its counts, sums and sums of squares to those the parameters stand for, all classes having samples in the batch.
func ContractPartialFit() {
	n, c, k := spec.Nat("n", 1), spec.Nat("features", 1), spec.Nat("k", 1)
	X, Y := spec.Matrix("X", n, c), spec.LabelMatrix("Y", n, 1, k)
	spec.Assume(spec.Forall(k, func(a int) bool { return spec.Count(n, func(i int) bool { return Y.At(i, 0) == float64(a) }) > 0 }))
	a, j := spec.IntIn("a", 0, k-1), spec.IntIn("j", 0, c-1)
	spec.Assume(spec.Sum(n, func(i int) float64 { return spec.B2F(Y.At(i, 0) == float64(a)) }) > 0)
	m := naivebayes.NewGaussianNB(nil, spec.FloatsIn("smoothing", 1, 0, 1)[0])
	m.Classes = make([]float64, k)
	for i := range m.Classes {
		m.Classes[i] = float64(i)
	}
	m.ClassPrior, m.ClassCount = make([]float64, k), spec.FloatsIn("count", k, 0, 50)
	m.Theta, m.Sigma = spec.Matrix("theta", k, c), spec.MatrixIn("sigma", k, c, .01, 100)
	m.Epsilon = spec.FloatsIn("epsilon", 1, 0, .01)[0]
	classes := append([]float64(nil), m.Classes...)
	spec.UseContract("github.com/pa-m/sklearn/naive_bayes.npUnique", func(v mat.Vector) []float64 { return append([]float64(nil), classes...) })
	count, theta, sigma, epsilon := append([]float64(nil), m.ClassCount...), mat.DenseCopyOf(m.Theta), mat.DenseCopyOf(m.Sigma), m.Epsilon
	m.PartialFit(X, Y, nil, false, nil)
	mine := func(a, i int) float64 { return spec.B2F(Y.At(i, 0) == float64(a)) }
	total := func(a int) float64 { return count[a] + spec.Sum(n, func(i int) float64 { return mine(a, i) }) }
	mean := func(a, j int) float64 {
		return (count[a]*theta.At(a, j) + spec.Sum(n, func(i int) float64 { return X.At(i, j) * mine(a, i) })) / total(a)
	}
	spec.Lemma("count so far", count[a] >= 0)
	spec.Lemma("positive count", total(a) > 0)
	spec.Assert("counts", spec.Eq(m.ClassCount[a], total(a)))
	spec.Assert("means", spec.Eq(m.Theta.At(a, j), mean(a, j)))
	s := count[a]*(sigma.At(a, j)-epsilon+theta.At(a, j)*theta.At(a, j)) + spec.Sum(n, func(i int) float64 { return X.At(i, j) * X.At(i, j) * mine(a, i) })
	spec.Assert("variances", spec.Eq(m.Sigma.At(a, j), s/total(a)-mean(a, j)*mean(a, j)+m.Epsilon))
}
