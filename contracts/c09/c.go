// Package c09 holds the contracts of the scalers.
package c09

import (
	"math"
	"sort"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/stat"
)

func dims(name string, m *mat.Dense, r, c int) {
	a, b := m.Dims()
	spec.Assert(name, a == r && b == c)
}

func passed(name string, Y, Yo *mat.Dense, m int) {
	dims(name+": shape", Yo, m, 1)
	spec.Assert(name, spec.Forall(m, func(i int) bool { return Yo.At(i, 0) == Y.At(i, 0) }))
}

func colMin(X *mat.Dense, n, j int) float64 {
	return spec.Min(n, func(i int) float64 { return X.At(i, j) })
}

func colMax(X *mat.Dense, n, j int) float64 {
	return spec.Max(n, func(i int) float64 { return X.At(i, j) })
}

// ContractMinMax: MinMaxScaler maps each training column affinely onto the feature range.
func ContractMinMax() {
	n, k, m := spec.Nat("n", 1), spec.Nat("k", 1), spec.Nat("m", 1)
	lo, hi := spec.Float("lo"), spec.Float("hi")
	spec.Assume(lo < hi)
	X, Z := spec.Matrix("X", n, k), spec.Matrix("Z", m, k)
	fz := spec.Freeze(X, Z)
	s := preprocessing.NewMinMaxScaler([]float64{lo, hi})
	s.Fit(X, nil)
	Y := spec.Matrix("Y", m, 1)
	fitted := spec.Freeze(s)
	O, Yo := s.Transform(Z, Y)
	passed("targets passed through", Y, Yo, m)
	dims("same shape", O, m, k)
	rangeOf := func(j int) float64 {
		d := colMax(X, n, j) - colMin(X, n, j)
		if d == 0 {
			return 1
		}
		return d
	}
	spec.Assert("column minimum and maximum are mapped linearly to the feature range", spec.Forall2(m, k, func(i, j int) bool {
		return spec.Eq(O.At(i, j), lo+(Z.At(i, j)-colMin(X, n, j))*(hi-lo)/rangeOf(j))
	}))
	W := spec.Matrix("W", m, k) // any layout
	W.Copy(O)
	B, Yb := s.InverseTransform(W, Y)
	passed("inverse: targets passed through", Y, Yb, m)
	spec.Assert("transforming does not change the scaler", spec.Unchanged(fitted))
	dims("inverse: same shape", B, m, k)
	spec.Assert("InverseTransform undoes Transform", spec.Forall2(m, k, func(i, j int) bool { return spec.Eq(B.At(i, j), Z.At(i, j)) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractMinMaxRange: transformed training data lie in the feature range.
func ContractMinMaxRange() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	lo, hi := spec.Float("lo"), spec.Float("hi")
	spec.Assume(lo < hi)
	X := spec.Matrix("X", n, k)
	s := preprocessing.NewMinMaxScaler([]float64{lo, hi})
	O, _ := s.FitTransform(X, nil)
	spec.Lemma("column minimum is at most the maximum", spec.Forall(k, func(j int) bool { return colMin(X, n, j) <= colMax(X, n, j) }))
	spec.Assert("training data lie in the feature range", spec.Forall2(n, k, func(i, j int) bool { return spec.Le(lo, O.At(i, j)) && spec.Le(O.At(i, j), hi) }))
}

// ContractStandard: StandardScaler removes the mean and divides by the population standard deviation of the training data.
func ContractStandard() {
	n, k, m := spec.Nat("n", 1), spec.Nat("k", 1), spec.Nat("m", 1)
	X, Z := spec.Matrix("X", n, k), spec.Matrix("Z", m, k)
	s := preprocessing.NewStandardScaler()
	s.WithMean, s.WithStd = spec.Choose("mean", 2) == 1, spec.Choose("std", 2) == 1
	fz := spec.Freeze(X, Z)
	s.Fit(X, nil)
	Y := spec.Matrix("Y", m, 1)
	fitted := spec.Freeze(s)
	O, Yo := s.Transform(Z, Y)
	passed("targets passed through", Y, Yo, m)
	dims("same shape", O, m, k)
	mean := func(j int) float64 { return spec.Sum(n, func(i int) float64 { return X.At(i, j) }) / float64(n) }
	vari := func(j int) float64 {
		return spec.Sum(n, func(i int) float64 { return (X.At(i, j) - mean(j)) * (X.At(i, j) - mean(j)) }) / float64(n)
	}
	spec.SumNonneg("squares are non-negative", k, n, func(j, i int) float64 { return (X.At(i, j) - mean(j)) * (X.At(i, j) - mean(j)) })
	spec.Lemma("the variance is non-negative", spec.Forall(k, func(j int) bool { return vari(j) >= 0 }))
	spec.Regular(spec.Forall(k, func(j int) bool { return vari(j) == 0 || vari(j) > 1e-9 }))
	center := func(j int) float64 {
		if s.WithMean {
			return mean(j)
		}
		return 0
	}
	scale := func(j int) float64 {
		if s.WithStd && vari(j) != 0 {
			return math.Sqrt(vari(j))
		}
		return 1
	}
	spec.Assert("centered by the mean and divided by the standard deviation", spec.Forall2(m, k, func(i, j int) bool {
		return spec.Eq(O.At(i, j), (Z.At(i, j)-center(j))/scale(j))
	}))
	W := spec.Matrix("W", m, k) // any layout
	W.Copy(O)
	B, Yb := s.InverseTransform(W, Y)
	passed("inverse: targets passed through", Y, Yb, m)
	spec.Assert("transforming does not change the scaler", spec.Unchanged(fitted))
	dims("inverse: same shape", B, m, k)
	spec.Assert("InverseTransform undoes Transform", spec.Forall2(m, k, func(i, j int) bool { return spec.Eq(B.At(i, j), Z.At(i, j)) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractMinMaxTwice: after PartialFit on two batches the scaler is fitted to all rows of both; a new Fit forgets earlier data.
func ContractMinMaxTwice() {
	n1, n2, k, m := spec.Nat("n1", 1), spec.Nat("n2", 1), spec.Nat("k", 1), spec.Nat("m", 1)
	lo, hi := spec.Float("lo"), spec.Float("hi")
	spec.Assume(lo < hi)
	A, B, Z := spec.Matrix("A", n1, k), spec.Matrix("B", n2, k), spec.Matrix("Z", m, k)
	s := preprocessing.NewMinMaxScaler([]float64{lo, hi})
	refit := spec.Choose("refit", 2) == 1
	s.Fit(A, nil)
	if refit {
		s.Fit(B, nil)
	} else {
		s.PartialFit(B, nil)
	}
	O, _ := s.Transform(Z, nil)
	mn := func(j int) float64 {
		if refit {
			return colMin(B, n2, j)
		}
		return math.Min(colMin(A, n1, j), colMin(B, n2, j))
	}
	mx := func(j int) float64 {
		if refit {
			return colMax(B, n2, j)
		}
		return math.Max(colMax(A, n1, j), colMax(B, n2, j))
	}
	rangeOf := func(j int) float64 {
		d := mx(j) - mn(j)
		if d == 0 {
			return 1
		}
		return d
	}
	spec.Assert("minimum and maximum of both batches are mapped to the feature range", spec.Forall2(m, k, func(i, j int) bool {
		return spec.Eq(O.At(i, j), lo+(Z.At(i, j)-mn(j))*(hi-lo)/rangeOf(j))
	}))
}

// ContractMoments: the incremental mean and variance of two batches are those of all rows.
func ContractMoments() {
	n1, n2, k := spec.Nat("n1", 1), spec.Nat("n2", 1), spec.Nat("k", 1)
	A, B := spec.Matrix("A", n1, k), spec.Matrix("B", n2, k)
	s := preprocessing.NewStandardScaler()
	refit := spec.Choose("refit", 2) == 1
	s.Fit(A, nil)
	if refit {
		s.Fit(B, nil)
	} else {
		s.PartialFit(B, nil)
	}
	wa, n := 1., n1+n2
	if refit {
		wa, n = 0, n2
	}
	sum := func(f func(x float64) float64, j int) float64 {
		return wa*spec.Sum(n1, func(i int) float64 { return f(A.At(i, j)) }) + spec.Sum(n2, func(i int) float64 { return f(B.At(i, j)) })
	}
	mean := func(j int) float64 { return sum(func(x float64) float64 { return x }, j) / float64(n) }
	vari := func(j int) float64 {
		return sum(func(x float64) float64 { return (x - mean(j)) * (x - mean(j)) }, j) / float64(n)
	}
	spec.Assert("samples seen", s.NSamplesSeen == n)
	spec.Assert("mean of all rows", spec.Forall(k, func(j int) bool { return spec.Eq(s.Mean.At(0, j), mean(j)) }))
	spec.Assert("population variance of all rows", spec.Forall(k, func(j int) bool { return spec.Eq(s.Var.At(0, j), vari(j)) }))
}

// ContractMaxAbs: MaxAbsScaler divides each column by its largest absolute value.
func ContractMaxAbs() {
	n, k, m := spec.Nat("n", 1), spec.Nat("k", 1), spec.Nat("m", 1)
	X, Z := spec.Matrix("X", n, k), spec.Matrix("Z", m, k)
	s := preprocessing.NewMaxAbsScaler()
	n0 := 0
	if spec.Choose("refit", 2) == 1 {
		n0 = spec.Nat("n0", 1)
		s.Fit(spec.Matrix("X0", n0, spec.Nat("k0", 1)), nil)
	}
	fz := spec.Freeze(X, Z)
	s.Fit(X, nil)
	Y := spec.Matrix("Y", m, 1)
	fitted := spec.Freeze(s)
	O, Yo := s.Transform(Z, Y)
	passed("targets passed through", Y, Yo, m)
	dims("same shape", O, m, k)
	scale := func(j int) float64 {
		v := spec.Max(n, func(i int) float64 { return math.Abs(X.At(i, j)) })
		if v == 0 {
			return 1
		}
		return v
	}
	spec.Assert("samples seen", s.NSamplesSeen == n)
	spec.Assert("divided by the largest absolute value", spec.Forall2(m, k, func(i, j int) bool {
		return spec.Eq(O.At(i, j), Z.At(i, j)/scale(j))
	}))
	W := spec.Matrix("W", m, k) // any layout
	W.Copy(O)
	B, Yb := s.InverseTransform(W, Y)
	passed("inverse: targets passed through", Y, Yb, m)
	spec.Assert("transforming does not change the scaler", spec.Unchanged(fitted))
	dims("inverse: same shape", B, m, k)
	spec.Assert("InverseTransform undoes Transform", spec.Forall2(m, k, func(i, j int) bool { return spec.Eq(B.At(i, j), Z.At(i, j)) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractRobust: RobustScaler removes the median and divides by the distance of the two quantiles.
func ContractRobust() {
	n, k, m := spec.Nat("n", 1), spec.Nat("k", 1), spec.Nat("m", 1)
	X, Z := spec.Matrix("X", n, k), spec.Matrix("Z", m, k)
	q := &preprocessing.QuantilePair{Left: spec.Float("ql"), Right: spec.Float("qr")}
	spec.Assume(0 <= q.Left && q.Left < q.Right && q.Right <= 1)
	s := preprocessing.NewRobustScaler(spec.Choose("center", 2) == 1, spec.Choose("scale", 2) == 1, q)
	if spec.Choose("refit", 2) == 1 {
		s.Fit(spec.Matrix("X0", spec.Nat("n0", 1), spec.Nat("k0", 1)), nil)
	}
	fz := spec.Freeze(X, Z)
	s.Fit(X, nil)
	Y := spec.Matrix("Y", m, 1)
	fitted := spec.Freeze(s)
	O, Yo := s.Transform(Z, Y)
	passed("targets passed through", Y, Yo, m)
	dims("same shape", O, m, k)
	quant := func(p float64, j int) float64 {
		c := make([]float64, n)
		for i := range c {
			c[i] = X.At(i, j)
		}
		sort.Float64s(c)
		return stat.Quantile(p, stat.Empirical, c, nil)
	}
	center := func(j int) float64 {
		if s.Center {
			return quant(.5, j)
		}
		return 0
	}
	scale := func(j int) float64 {
		if !s.Scale {
			return 1
		}
		if d := quant(q.Right, j) - quant(q.Left, j); d != 0 {
			return d
		}
		return 1
	}
	spec.Assert("centered by the median and divided by the quantile range", spec.Forall2(m, k, func(i, j int) bool {
		return spec.Eq(O.At(i, j), (Z.At(i, j)-center(j))/scale(j))
	}))
	W := spec.Matrix("W", m, k) // any layout
	W.Copy(O)
	B, Yb := s.InverseTransform(W, Y)
	passed("inverse: targets passed through", Y, Yb, m)
	spec.Assert("transforming does not change the scaler", spec.Unchanged(fitted))
	dims("inverse: same shape", B, m, k)
	spec.Assert("InverseTransform undoes Transform", spec.Forall2(m, k, func(i, j int) bool { return spec.Eq(B.At(i, j), Z.At(i, j)) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// BoundedClones: fitting or further fitting a clone leaves the fitted original alone, and the reverse; further batches of MaxAbsScaler count all samples; the default RobustScaler uses the quartiles; Scale standardizes. runs=4000
func BoundedClones() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	A, B := spec.Matrix("A", n, k), spec.Matrix("B", spec.Nat("n2", 1), k)
	var s base.Transformer
	switch spec.Choose("scaler", 4) {
	case 0:
		s = preprocessing.NewMinMaxScaler([]float64{0, 1})
	case 1:
		s = preprocessing.NewStandardScaler()
	case 2:
		s = preprocessing.NewMaxAbsScaler()
	default:
		r := preprocessing.NewDefaultRobustScaler()
		spec.Assert("quartiles", r.Center && r.Scale && r.Quantiles.Left == 0.25 && r.Quantiles.Right == 0.75)
		s = r
	}
	s.Fit(A, nil)
	c := s.TransformerClone()
	changed, kept := c, s
	if spec.Bool("fit the original") {
		changed, kept = s, c
	}
	before, _ := kept.Transform(A, nil)
	before = mat.DenseCopyOf(before)
	p, ok := changed.(*preprocessing.MinMaxScaler)
	q, ok2 := changed.(interface {
		PartialFit(X, Y *mat.Dense) base.Transformer
	})
	partial := spec.Bool("partial")
	switch {
	case partial && ok:
		p.PartialFit(B, nil)
	case partial && ok2:
		q.PartialFit(B, nil)
	default:
		changed.Fit(B, nil)
	}
	after, _ := kept.Transform(A, nil)
	spec.Assert("clones are independent", mat.EqualApprox(before, after, 1e-12))
	if m, ok := changed.(*preprocessing.MaxAbsScaler); ok && partial {
		a, _ := A.Dims()
		b, _ := B.Dims()
		spec.Assert("samples of all batches", m.NSamplesSeen == a+b)
		for j := 0; j < k; j++ {
			v := 0.
			for i := 0; i < a; i++ {
				v = math.Max(v, math.Abs(A.At(i, j)))
			}
			for i := 0; i < b; i++ {
				v = math.Max(v, math.Abs(B.At(i, j)))
			}
			if v == 0 {
				v = 1
			}
			spec.Assert("largest of all batches", m.Scale[j] == v)
		}
	}
	S := preprocessing.Scale(A)
	E, _ := preprocessing.NewStandardScaler().FitTransform(A, nil)
	spec.Assert("Scale standardizes", mat.EqualApprox(S, E, 1e-12))
}
