// Package c07 holds the contracts of the regression metrics.
package c07

import (
	"math"

	"github.com/pa-m/sklearn/metrics"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

// in returns targets, predictions and non-negative weights (nil or n x 1 with positive sum), with the weight function.
func in() (n, k int, y, p, sw *mat.Dense, w func(i int) float64) {
	n, k = spec.Nat("n", 1), spec.Nat("k", 1)
	y, p = spec.Matrix("y", n, k), spec.Matrix("p", n, k)
	if spec.Choose("weighted", 2) == 1 {
		sw = spec.MatrixIn("w", n, 1, 0, 1000)
		w = func(i int) float64 { return sw.At(i, 0) }
		spec.Assume(spec.Sum(n, w) > 1e-6)
		return
	}
	w = func(i int) float64 { return 1 }
	return
}

func err(y, p *mat.Dense, i, j int) float64 { return p.At(i, j) - y.At(i, j) }

type metric = func(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multioutput string) *mat.Dense

func meanLoss(f metric, loss func(e float64) float64) {
	n, k, y, p, sw, w := in()
	fz := spec.Freeze(y, p, sw)
	raw := f(y, p, sw, "raw_values")
	r, c := raw.Dims()
	spec.Assert("raw_values: one value per output", r == 1 && c == k)
	W := spec.Sum(n, w)
	spec.Assert("raw_values: weighted mean loss of each output", spec.Forall(k, func(j int) bool {
		return spec.Eq(raw.At(0, j)*W, spec.Sum(n, func(i int) float64 { return w(i) * loss(err(y, p, i, j)) }))
	}))
	spec.Assert("non-negative", spec.Forall(k, func(j int) bool { return raw.At(0, j) >= 0 }))
	avg := f(y, p, sw, "uniform_average")
	r, c = avg.Dims()
	spec.Assert("uniform_average: scalar", r == 1 && c == 1)
	spec.Assert("uniform_average: mean over outputs of the raw values", spec.Eq(avg.At(0, 0)*float64(k), spec.Sum(k, func(j int) float64 { return raw.At(0, j) })))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

func swapped(f metric) {
	_, _, y, p, sw, _ := in()
	spec.Assert("symmetric in its arguments", spec.Eq(f(y, p, sw, "").At(0, 0), f(p, y, sw, "").At(0, 0)))
	spec.Assert("zero on perfect predictions", spec.Eq(f(y, y, sw, "").At(0, 0), 0))
}

// ContractMSE: MeanSquaredError is the weighted mean of squared errors, per output or averaged.
func ContractMSE() { meanLoss(metrics.MeanSquaredError, func(e float64) float64 { return e * e }) }

// ContractMSESym: MeanSquaredError is symmetric and zero on perfect predictions.
func ContractMSESym() { swapped(metrics.MeanSquaredError) }

// ContractMAE: MeanAbsoluteError is the weighted mean of absolute errors, per output or averaged.
func ContractMAE() { meanLoss(metrics.MeanAbsoluteError, math.Abs) }

// ContractMAESym: MeanAbsoluteError is symmetric and zero on perfect predictions.
func ContractMAESym() { swapped(metrics.MeanAbsoluteError) }

// ContractR2: R2Score is 1 - residual/total weighted sums of squares per output, averaged as asked.
func ContractR2() {
	n, k, y, p, sw, w := in()
	fz := spec.Freeze(y, p, sw)
	raw := metrics.R2Score(y, p, sw, "raw_values")
	r, c := raw.Dims()
	spec.Assert("raw_values: one value per output", r == 1 && c == k)
	W := spec.Sum(n, w)
	mean := func(j int) float64 { return spec.Sum(n, func(i int) float64 { return w(i) * y.At(i, j) }) / W }
	num := func(j int) float64 {
		return spec.Sum(n, func(i int) float64 { return w(i) * err(y, p, i, j) * err(y, p, i, j) })
	}
	den := func(j int) float64 {
		return spec.Sum(n, func(i int) float64 { return w(i) * (y.At(i, j) - mean(j)) * (y.At(i, j) - mean(j)) })
	}
	spec.Assert("raw_values: 1 - residual/total sum of squares", spec.Forall(k, func(j int) bool {
		return spec.Implies(den(j) >= 1e-20, spec.Eq((1-raw.At(0, j))*den(j), num(j)))
	}))
	spec.Regular(spec.Forall(k, func(j int) bool { return den(j) > 1e-6 }))
	spec.Assert("at most one", spec.Forall(k, func(j int) bool { return spec.Le(raw.At(0, j), 1) }))
	avg := metrics.R2Score(y, p, sw, "uniform_average")
	spec.Assert("uniform_average: mean over outputs", spec.Eq(avg.At(0, 0)*float64(k), spec.Sum(k, func(j int) float64 { return raw.At(0, j) })))
	spec.Assume(spec.Sum(k, den) > 1e-6)
	vw := metrics.R2Score(y, p, sw, "variance_weighted")
	spec.Assert("variance_weighted: mean weighted by total sum of squares", spec.Eq(vw.At(0, 0), spec.Sum(k, func(j int) float64 { return den(j) * raw.At(0, j) })/spec.Sum(k, den)))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractR2Perfect: perfect predictions score exactly one.
func ContractR2Perfect() {
	_, k, y, _, sw, _ := in()
	raw := metrics.R2Score(y, y, sw, "raw_values")
	spec.Assert("perfect predictions score one", spec.Forall(k, func(j int) bool { return spec.Eq(raw.At(0, j), 1) }))
}
