// Package c08 holds the contracts of the ranking metrics.
package c08

import (
	"math"

	"github.com/pa-m/sklearn/metrics"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

// ContractAUC: the area under a curve that starts at x=0, by the trapezoidal rule.
func ContractAUC() {
	if spec.Choose("empty", 2) == 1 {
		spec.Assert("no area under an empty curve", metrics.AUC(nil, nil) == 0)
		return
	}
	n := spec.Nat("n", 1)
	x, y := spec.SortedFloats("x", n), spec.Floats("y", n)
	x0 := x[0]
	for i := 0; i < n; i++ {
		x[i] -= x0
	}
	fz := spec.Freeze(x, y)
	a := metrics.AUC(x, y)
	want := spec.Sum(n-1, func(i int) float64 { return (x[i+1] - x[i]) * (y[i+1] + y[i]) / 2 })
	spec.Assert("sum of the trapezoids", spec.Eq(a, want))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

const curve = "github.com/pa-m/sklearn/metrics.binaryClfCurve"

// counts are, for each distinct score in decreasing order, the total weights of the negative and positive samples with at least that score.
func counts(Y, S *mat.Dense, pos float64, w []float64) (fps, tps, th []float64) {
	n, _ := S.Dims()
	for i := 0; i < n; i++ {
		k := 0
		for k < len(th) && th[k] > S.At(i, 0) {
			k++
		}
		if k < len(th) && th[k] == S.At(i, 0) {
			continue
		}
		th = append(th, 0)
		copy(th[k+1:], th[k:])
		th[k] = S.At(i, 0)
	}
	fps, tps = make([]float64, len(th)), make([]float64, len(th))
	for k := range th {
		for i := 0; i < n; i++ {
			v := 1.
			if w != nil {
				v = w[i]
			}
			if S.At(i, 0) < th[k] {
				continue
			}
			if Y.At(i, 0) == pos {
				tps[k] += v
			} else {
				fps[k] += v
			}
		}
	}
	return
}

// data makes labels, scores and weights with their counts; in the proof these are arbitrary, and assumed to be what binaryClfCurve finds.
func data() (Y, S *mat.Dense, pos float64, w, fps, tps, th []float64) {
	n := spec.Nat("samples", 1)
	Y, S = spec.LabelMatrix("Y", n, 1, 3), spec.Matrix("S", n, 1)
	pos = 1
	if spec.Choose("weighted", 2) == 1 {
		w = spec.FloatsIn("weight", n, 0, 4)
	}
	if !spec.Symbolic() {
		fps, tps, th = counts(Y, S, pos, w)
		return
	}
	m := spec.Nat("thresholds", 1)
	fps, tps, th = spec.FloatsIn("fps", m, 0, 1e9), spec.FloatsIn("tps", m, 0, 1e9), spec.Floats("threshold", m)
	spec.UseContract(curve, func(Y, S *mat.Dense, pos float64, w []float64) (a, b, c []float64) {
		return append(a, fps...), append(b, tps...), append(c, th...)
	})
	return
}

// ContractROCCurve: with the counts of true and false positives at each threshold given, the curve consists of the rates, preceded by (0,0) if it does not start at rate 0 of false positives.
func ContractROCCurve() {
	Y, S, pos, w, fps, tps, th := data()
	m := len(th)
	spec.Assume(fps[m-1] > 0 && tps[m-1] > 0)
	fz := spec.Freeze(Y, S, w)
	f, t, h := metrics.ROCCurve(Y, S, pos, w)
	add := 0
	if fps[0] != 0 {
		add = 1
	}
	spec.Assert("lengths", len(f) == m+add && len(t) == m+add && len(h) == m+add)
	if add == 1 {
		spec.Assert("starts at the origin", f[0] == 0 && t[0] == 0 && h[0] == th[0]+1)
	}
	spec.Assert("rates", spec.Forall(m, func(i int) bool {
		return spec.Eq(f[i+add], fps[i]/fps[m-1]) && spec.Eq(t[i+add], tps[i]/tps[m-1]) && h[i+add] == th[i]
	}))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractPrecisionRecallCurve: precision and recall at each threshold by increasing threshold, down to the first that recalls all, followed by (1,0).
func ContractPrecisionRecallCurve() {
	Y, S, pos, w, fps, tps, th := data()
	m := len(th)
	if spec.Symbolic() {
		spec.Assume(spec.Forall(m-1, func(i int) bool { return tps[i] <= tps[i+1] }))
	}
	// precision needs a sample of positive weight
	spec.Assume(tps[m-1] > 0 && tps[0]+fps[0] > 0)
	k := spec.First(m, func(i int) bool { return tps[i] >= tps[m-1] })
	fz := spec.Freeze(Y, S, w)
	p, r, h := metrics.PrecisionRecallCurve(Y, S, pos, w)
	spec.Assert("lengths", len(p) == k+2 && len(r) == k+2 && len(h) == k+1)
	spec.Assert("ends with precision one, recall zero", p[k+1] == 1 && r[k+1] == 0)
	spec.Assert("precision", spec.Forall(k+1, func(i int) bool { return spec.Eq(p[i], tps[k-i]/(tps[k-i]+fps[k-i])) }))
	spec.Assert("recall", spec.Forall(k+1, func(i int) bool { return spec.Eq(r[i], tps[k-i]/tps[m-1]) }))
	spec.Assert("thresholds", spec.Forall(k+1, func(i int) bool { return h[i] == th[k-i] }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// stubs make ROCCurve and PrecisionRecallCurve, in the proof, curves of which the score is an arbitrary function of labels, scores and weights.
func stubs() {
	spec.UseContract("github.com/pa-m/sklearn/metrics.typeOfTarget", func(Y *mat.Dense) string {
		if _, c := Y.Dims(); c == 1 {
			return "binary"
		}
		return "multilabel-indicator"
	})
	area := func(Y, S *mat.Dense, pos float64, w []float64) float64 {
		if w == nil {
			return spec.UF("score", Y, S, pos)
		}
		return spec.UF("weighted score", Y, S, pos, w)
	}
	spec.UseContract("github.com/pa-m/sklearn/metrics.ROCCurve", func(Y, S *mat.Dense, pos float64, w []float64) (f, t, h []float64) {
		v := area(Y, S, pos, w)
		return []float64{0, 1}, []float64{v, v}, []float64{1, 0}
	})
	spec.UseContract("github.com/pa-m/sklearn/metrics.PrecisionRecallCurve", func(Y, S *mat.Dense, pos float64, w []float64) (p, r, h []float64) {
		v := area(Y, S, pos, w)
		return []float64{v, 1}, []float64{1, 0}, []float64{1}
	})
}

func col(M *mat.Dense, j int) *mat.Dense {
	n, _ := M.Dims()
	R := mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ {
		R.Set(i, 0, M.At(i, j))
	}
	return R
}

// ContractMacroAverage: the macro (and default) average of the scores of the labels is their mean; the weighted average weights them by the number (total weight) of their samples.
func ContractMacroAverage() {
	n, k := spec.Nat("samples", 1), spec.Nat("labels", 2)
	Y, S := spec.LabelMatrix("Y", n, k, 2), spec.Matrix("S", n, k)
	stubs()
	var w []float64
	if spec.Choose("weights", 2) == 1 {
		w = spec.FloatsIn("weight", n, 0, 4)
	}
	score := metrics.ROCAUCScore
	if spec.Choose("metric", 2) == 1 {
		score = metrics.AveragePrecisionScore
	}
	average := []string{"macro", "", "weighted"}[spec.Choose("average", 3)]
	label := func(j int) float64 { return score(col(Y, j), col(S, j), "", w) }
	fz := spec.Freeze(Y, S, w)
	v := score(Y, S, average, w)
	if average == "weighted" {
		support := func(j int) float64 {
			return spec.Sum(n, func(i int) float64 {
				if w == nil {
					return spec.B2F(Y.At(i, j) == 1)
				}
				return w[i] * spec.B2F(Y.At(i, j) == 1)
			})
		}
		total := spec.Sum(k, support)
		if total == 0 {
			spec.Assert("no positive sample", v == 0)
		} else {
			spec.Assert("mean weighted by support", spec.Eq(v, spec.Sum(k, func(j int) float64 { return support(j) * label(j) })/total))
		}
	} else {
		spec.Assert("mean of the scores", spec.Eq(v, spec.Sum(k, label)/float64(k)))
	}
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractMicroAverage: the micro average is the score of all entries of the label matrix taken as samples of one label.
func ContractMicroAverage() {
	n, k := spec.Nat("samples", 1), spec.Nat("labels", 2)
	Y, S := spec.LabelMatrix("Y", n, k, 2), spec.Matrix("S", n, k)
	stubs()
	var w []float64
	if spec.Choose("weights", 2) == 1 {
		w = spec.FloatsIn("weight", n, 0, 4)
	}
	score := metrics.ROCAUCScore
	if spec.Choose("metric", 2) == 1 {
		score = metrics.AveragePrecisionScore
	}
	var wf []float64
	if w != nil {
		wf = make([]float64, n*k)
	}
	yf, sf := make([]float64, n*k), make([]float64, n*k)
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			yf[i*k+j], sf[i*k+j] = Y.At(i, j), S.At(i, j)
			if w != nil {
				wf[i*k+j] = w[i]
			}
		}
	}
	fz := spec.Freeze(Y, S, w)
	v := score(Y, S, "micro", w)
	spec.Assert("score of all entries", spec.Eq(v, score(mat.NewDense(n*k, 1, yf), mat.NewDense(n*k, 1, sf), "", wf)))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractSamplesAverage: the samples average is the (weighted) mean of the scores of the labels of each sample.
func ContractSamplesAverage() {
	n, k := spec.Nat("samples", 1), spec.Nat("labels", 2)
	Y, S := spec.LabelMatrix("Y", n, k, 2), spec.Matrix("S", n, k)
	stubs()
	var w []float64
	if spec.Choose("weights", 2) == 1 {
		w = spec.FloatsIn("weight", n, 0, 4)
	}
	score := metrics.ROCAUCScore
	if spec.Choose("metric", 2) == 1 {
		score = metrics.AveragePrecisionScore
	}
	row := func(M *mat.Dense, i int) *mat.Dense {
		R := mat.NewDense(k, 1, nil)
		for j := 0; j < k; j++ {
			R.Set(j, 0, M.At(i, j))
		}
		return R
	}
	sample := func(i int) float64 { return score(row(Y, i), row(S, i), "", nil) }
	fz := spec.Freeze(Y, S, w)
	v := score(Y, S, "samples", w)
	if w == nil {
		spec.Assert("mean of the scores", spec.Eq(v, spec.Sum(n, sample)/float64(n)))
	} else {
		spec.Assume(spec.Sum(n, func(i int) float64 { return w[i] }) > 0)
		spec.Assert("weighted mean of the scores", spec.Eq(v, spec.Sum(n, func(i int) float64 { return w[i] * sample(i) })/spec.Sum(n, func(i int) float64 { return w[i] })))
	}
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-9 || a != a && b != b }

// BoundedCurves: the curves, the area under the ROC curve and the average precision by their definitions, from samples, with ties, weights and any positive label.
func BoundedCurves() {
	n := spec.IntIn("samples", 1, 9)
	k := spec.IntIn("labels", 1, 4)
	pos := float64(spec.IntIn("pos", 0, k))
	Y, S := spec.LabelMatrix("Y", n, 1, k), mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ {
		S.Set(i, 0, spec.Float("score"))
		if i > 0 && spec.Bool("tie") {
			S.Set(i, 0, S.At(spec.IntIn("of", 0, i-1), 0))
		}
	}
	var w []float64
	if spec.Bool("weighted") {
		w = spec.FloatsIn("weight", n, 0, 4)
	}
	fps, tps, th := counts(Y, S, pos, w)
	m := len(th)
	fz := spec.Freeze(Y, S, w)
	f, t, h := metrics.ROCCurve(Y, S, pos, w)
	add := 0
	if fps[0] != 0 {
		add = 1
	}
	rate := func(a, b float64) float64 {
		if b <= 0 {
			return math.NaN()
		}
		return a / b
	}
	spec.Assert("lengths", len(f) == m+add && len(t) == m+add && len(h) == m+add)
	for i := range th {
		spec.Assert("rates", near(f[i+add], rate(fps[i], fps[m-1])) && near(t[i+add], rate(tps[i], tps[m-1])) && h[i+add] == th[i])
	}
	if add == 1 {
		spec.Assert("starts at the origin", near(f[0], rate(0, fps[m-1])) && near(t[0], rate(0, tps[m-1])) && h[0] == th[0]+1)
	}
	if tps[m-1] > 0 && tps[0]+fps[0] > 0 {
		p, r, h := metrics.PrecisionRecallCurve(Y, S, pos, w)
		last := 0
		for tps[last] < tps[m-1]-1e-12 {
			last++
		}
		spec.Assert("lengths", len(p) == last+2 && len(r) == last+2 && len(h) == last+1)
		for i := 0; i <= last; i++ {
			spec.Assert("precision and recall", near(p[i], tps[last-i]/(tps[last-i]+fps[last-i])) && near(r[i], tps[last-i]/tps[m-1]) && h[i] == th[last-i])
		}
		spec.Assert("ends with precision one, recall zero", p[last+1] == 1 && r[last+1] == 0)
	}
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// BoundedScores: the area under the ROC curve is the probability that a positive sample scores higher than a negative one (ties count one half); the average precision is the mean of the precisions weighted by the gain of recall; labels with other values than two are refused with 0.
func BoundedScores() {
	n := spec.IntIn("samples", 1, 9)
	Y, S := spec.LabelMatrix("Y", n, 1, 2), mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ {
		S.Set(i, 0, spec.Float("score"))
		if i > 0 && spec.Bool("tie") {
			S.Set(i, 0, S.At(spec.IntIn("of", 0, i-1), 0))
		}
	}
	var w []float64
	weight := func(i int) float64 { return 1 }
	if spec.Bool("weighted") {
		w = spec.FloatsIn("weight", n, 0, 4)
		weight = func(i int) float64 { return w[i] }
	}
	fps, tps, th := counts(Y, S, 1, w)
	m := len(th)
	spec.Assume(tps[m-1] > 0 && tps[0]+fps[0] > 0)
	fz := spec.Freeze(Y, S, w)
	average := []string{"", "macro", "micro", "weighted", "samples"}[spec.IntIn("average", 0, 4)]
	if fps[m-1] > 0 {
		good := 0.
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if Y.At(i, 0) == 1 && Y.At(j, 0) != 1 {
					good += weight(i) * weight(j) * (spec.B2F(S.At(i, 0) > S.At(j, 0)) + spec.B2F(S.At(i, 0) == S.At(j, 0))/2)
				}
			}
		}
		spec.Assert("probability of the right order", near(metrics.ROCAUCScore(Y, S, average, w), good/fps[m-1]/tps[m-1]))
	}
	ap, prev := 0., 0.
	for i := range th {
		ap += (tps[i] - prev) / tps[m-1] * tps[i] / (tps[i] + fps[i])
		prev = tps[i]
	}
	spec.Assert("average precision", near(metrics.AveragePrecisionScore(Y, S, average, w), ap))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}
