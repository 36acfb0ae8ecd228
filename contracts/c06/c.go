// Package c06 holds the contracts of the classification metrics.
package c06

import (
	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/metrics"
	"github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

// ContractAccuracy: AccuracyScore is the total weight of the rows predicted exactly (all outputs equal), normalized or not.
func ContractAccuracy() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	y, p := spec.LabelMatrix("y", n, k, 3), spec.LabelMatrix("p", n, k, 3)
	var sw *mat.Dense
	w := func(i int) float64 { return 1 }
	if spec.Choose("weighted", 2) == 1 {
		sw = spec.MatrixIn("w", n, 1, 0, 1000)
		w = func(i int) float64 { return sw.At(i, 0) }
		spec.Assume(spec.Sum(n, w) > 1e-6)
	}
	fz := spec.Freeze(y, p, sw)
	same := func(i int) bool { return spec.Forall(k, func(j int) bool { return y.At(i, j) == p.At(i, j) }) }
	hits := spec.Sum(n, func(i int) float64 { return spec.B2F(same(i)) * w(i) })
	raw := metrics.AccuracyScore(y, p, false, sw)
	spec.Assert("unnormalized: total weight of exactly predicted rows", spec.Eq(raw, hits))
	acc := metrics.AccuracyScore(y, p, true, sw)
	spec.Assert("normalized: fraction of the total weight", spec.Eq(acc, hits/spec.Sum(n, w)))
	spec.Assert("between 0 and 1", 0 <= acc && spec.Le(acc, 1))
	spec.Assert("perfect predictions score one", spec.Eq(metrics.AccuracyScore(y, y, true, sw), 1))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// problem is a labelled problem: K classes with increasing values, codes of true and predicted labels.
type problem struct {
	n, K   int
	cls    []float64
	yt, yp []int
	Y, P   *mat.Dense
	w      []float64
	W      func(i int) float64
}

func labels(name string, n int, code []int, cls []float64) *mat.Dense {
	Y := spec.Matrix(name, n, 1)
	for i := 0; i < n; i++ {
		Y.Set(i, 0, cls[code[i]])
	}
	return Y
}

func newProblem(weighted bool) *problem {
	p := &problem{n: spec.Nat("n", 1), K: spec.Nat("K", 1)}
	p.cls = spec.SortedFloats("classes", p.K)
	spec.Assume(spec.Forall2(p.K, p.K, func(a, b int) bool { return !(a < b) || p.cls[a] < p.cls[b] }))
	p.yt, p.yp = spec.IntsIn("true", p.n, 0, p.K-1), spec.IntsIn("pred", p.n, 0, p.K-1)
	spec.Assume(spec.Forall(p.K, func(c int) bool { return spec.Exists(p.n, func(i int) bool { return p.yt[i] == c || p.yp[i] == c }) }))
	p.Y, p.P = labels("Y", p.n, p.yt, p.cls), labels("P", p.n, p.yp, p.cls)
	p.W = func(i int) float64 { return 1 }
	if weighted {
		p.w = spec.FloatsIn("w", p.n, 0, 100)
		p.W = func(i int) float64 { return p.w[i] }
	}
	// contracts of the label encoder (discharged on its body by C10)
	enc := func(m *preprocessing.LabelEncoder, K int, cls, sup []float64) {
		cl := make([]float64, K)
		copy(cl, cls)
		m.Classes = [][]float64{cl}
		m.Support = [][]float64{sup}
	}
	spec.UseContract("(*github.com/pa-m/sklearn/preprocessing.LabelEncoder).Fit", func(m *preprocessing.LabelEncoder, X, Y mat.Matrix) base.Fiter {
		spec.Assert("encoder is fitted on the true labels", spec.Forall(p.n, func(i int) bool { return Y.At(i, 0) == p.Y.At(i, 0) }))
		k := spec.Nat("Ktrue", 1)
		enc(m, k, spec.SortedFloats("trueClasses", k), spec.Floats("trueSupport", k))
		return m
	})
	spec.UseContract("(*github.com/pa-m/sklearn/preprocessing.LabelEncoder).PartialFit", func(m *preprocessing.LabelEncoder, X, Y *mat.Dense) base.Transformer {
		spec.Assert("encoder is extended with the predicted labels", spec.Forall(p.n, func(i int) bool { return Y.At(i, 0) == p.P.At(i, 0) }))
		enc(m, p.K, p.cls, spec.Floats("unionSupport", p.K))
		return m
	})
	return p
}

func (p *problem) support(c int) float64 {
	return spec.Sum(p.n, func(i int) float64 { return spec.B2F(p.yt[i] == c) })
}

func (p *problem) cm(a, b int) float64 {
	return spec.Sum(p.n, func(i int) float64 { return spec.B2F(p.yt[i] == a && p.yp[i] == b) * p.W(i) })
}

// ContractConfusion: entry (a,b) of the confusion matrix is the total weight of the samples of class a predicted as class b.
func ContractConfusion() {
	p := newProblem(spec.Choose("weighted", 2) == 1)
	fz := spec.Freeze(p.Y, p.P, p.w)
	cm := metrics.ConfusionMatrix(p.Y, p.P, p.w)
	r, c := cm.Dims()
	spec.Assert("one row and one column per class", r == p.K && c == p.K)
	spec.Assert("entry (a,b) is the weight of class a predicted as b", spec.Forall2(p.K, p.K, func(a, b int) bool { return spec.Eq(cm.At(a, b), p.cm(a, b)) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

func div(a, b float64) float64 {
	if b > 0 {
		return a / b
	}
	return 0
}

func fbeta(beta, p, r float64) float64 {
	return div((1+beta*beta)*p*r, beta*beta*p+r)
}

func (p *problem) tp(c int) float64 { return p.cm(c, c) }
func (p *problem) trueSum(c int) float64 {
	return spec.Sum(p.K, func(b int) float64 { return p.cm(c, b) })
}
func (p *problem) predSum(c int) float64 {
	return spec.Sum(p.K, func(a int) float64 { return p.cm(a, c) })
}
func (p *problem) prec(c int) float64 { return div(p.tp(c), p.predSum(c)) }
func (p *problem) rec(c int) float64  { return div(p.tp(c), p.trueSum(c)) }

// ContractPerClass: for one class, precision, recall, F-beta and support follow from the confusion matrix.
func ContractPerClass() {
	p := newProblem(spec.Choose("weighted", 2) == 1)
	beta := spec.Float("beta")
	c := spec.IntIn("class", 0, p.K-1)
	pr, re, f, s := metrics.PrecisionRecallFScoreSupport(p.Y, p.P, beta, nil, c, "", nil, p.w)
	spec.Assert("precision is true positives over predicted", spec.Eq(pr, p.prec(c)))
	spec.Assert("recall is true positives over actual", spec.Eq(re, p.rec(c)))
	spec.Assert("F-beta is the weighted harmonic mean", spec.Eq(f, fbeta(beta, p.prec(c), p.rec(c))))
	spec.Assert("support is the number of samples of the class", spec.Eq(s, p.support(c)))
}

// ContractAverages: macro averages classes uniformly, weighted by support, micro pools all classes.
func ContractAverages() {
	p := newProblem(false)
	beta := spec.Float("beta")
	avg := func(w func(c int) float64, f func(c int) float64) float64 {
		return spec.Sum(p.K, func(c int) float64 { return w(c) * f(c) }) / spec.Sum(p.K, w)
	}
	one := func(c int) float64 { return 1 }
	fb := func(c int) float64 { return fbeta(beta, p.prec(c), p.rec(c)) }
	switch spec.Choose("average", 3) {
	case 0:
		pr, re, f, _ := metrics.PrecisionRecallFScoreSupport(p.Y, p.P, beta, nil, -1, "macro", nil, p.w)
		spec.Assert("macro precision", spec.Eq(pr, avg(one, p.prec)))
		spec.Assert("macro recall", spec.Eq(re, avg(one, p.rec)))
		spec.Assert("macro F-beta", spec.Eq(f, avg(one, fb)))
	case 1:
		pr, re, f, _ := metrics.PrecisionRecallFScoreSupport(p.Y, p.P, beta, nil, -1, "weighted", nil, p.w)
		spec.Assert("weighted precision", spec.Eq(pr, avg(p.support, p.prec)))
		spec.Assert("weighted recall", spec.Eq(re, avg(p.support, p.rec)))
		spec.Assert("weighted F-beta", spec.Eq(f, avg(p.support, fb)))
	case 2:
		pr, re, f, _ := metrics.PrecisionRecallFScoreSupport(p.Y, p.P, beta, nil, -1, "micro", nil, p.w)
		tp, ts, ps := spec.Sum(p.K, p.tp), spec.Sum(p.K, p.trueSum), spec.Sum(p.K, p.predSum)
		spec.Assert("micro precision", spec.Eq(pr, div(tp, ps)))
		spec.Assert("micro recall", spec.Eq(re, div(tp, ts)))
		spec.Assert("micro F-beta", spec.Eq(f, fbeta(beta, div(tp, ps), div(tp, ts))))
	}
}

// ContractScores: PrecisionScore, RecallScore, F1Score and FBetaScore are the components of PrecisionRecallFScoreSupport.
func ContractScores() {
	p := newProblem(false)
	beta := spec.Float("beta")
	average := []string{"macro", "weighted", "micro"}[spec.Choose("average", 3)]
	// any function of beta: its value is the subject of ContractAverages
	spec.UseContract("github.com/pa-m/sklearn/metrics.PrecisionRecallFScoreSupport", func(Y, P *mat.Dense, b float64, labels []float64, pos int, avg string, warn []string, w []float64) (float64, float64, float64, float64) {
		spec.Assert("labels, predictions and weights are passed on", Y == p.Y && P == p.P && len(w) == 0 && avg == average && pos < 0)
		return spec.UF("precision"), spec.UF("recall"), spec.UF("fscore", b), 0
	})
	pr, re, f1, _ := metrics.PrecisionRecallFScoreSupport(p.Y, p.P, 1, nil, -1, average, nil, p.w)
	_, _, fb, _ := metrics.PrecisionRecallFScoreSupport(p.Y, p.P, beta, nil, -1, average, nil, p.w)
	spec.Assert("PrecisionScore", spec.Eq(metrics.PrecisionScore(p.Y, p.P, average, p.w), pr))
	spec.Assert("RecallScore", spec.Eq(metrics.RecallScore(p.Y, p.P, average, p.w), re))
	spec.Assert("F1Score", spec.Eq(metrics.F1Score(p.Y, p.P, average, p.w), f1))
	spec.Assert("FBetaScore", spec.Eq(metrics.FBetaScore(p.Y, p.P, beta, average, p.w), fb))
}
