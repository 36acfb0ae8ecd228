// Package c11 holds the contracts of the other matrix transformers.
package c11

import (
	"math"
	"sort"

	"github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/stat"
)

func dims(name string, m *mat.Dense, r, c int) {
	a, b := m.Dims()
	spec.Assert(name, a == r && b == c)
}

func passed(name string, Y, Yo *mat.Dense, m int) {
	dims(name+": shape", Yo, m, 1)
	spec.Assert(name, spec.Forall(m, func(i int) bool { return Yo.At(i, 0) == Y.At(i, 0) }))
}

// ContractNormalizer: every row (axis 1) or column (axis 0) is divided by its norm; zero vectors stay zero.
func ContractNormalizer() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	X := spec.Matrix("X", n, k)
	s := preprocessing.NewNormalizer()
	kind := spec.Choose("norm", 3)
	s.Norm = []string{"l1", "l2", "max"}[kind]
	s.Axis = spec.Choose("axis", 2)
	fz := spec.Freeze(X)
	Y := spec.Matrix("Y", n, 1)
	O, Yo := s.FitTransform(X, Y)
	passed("targets passed through", Y, Yo, n)
	dims("same shape", O, n, k)
	norm := func(len int, at func(i int) float64) float64 {
		var v float64
		switch kind {
		case 0:
			v = spec.Sum(len, func(i int) float64 { return math.Abs(at(i)) })
		case 1:
			v = math.Sqrt(spec.Sum(len, func(i int) float64 { return at(i) * at(i) }))
		default:
			v = spec.Max(len, func(i int) float64 { return math.Abs(at(i)) })
		}
		if v == 0 {
			return 1
		}
		return v
	}
	scale := func(i, j int) float64 {
		if s.Axis == 0 {
			return norm(n, func(t int) float64 { return X.At(t, j) })
		}
		return norm(k, func(t int) float64 { return X.At(i, t) })
	}
	spec.Assert("divided by the norm", spec.Forall2(n, k, func(i, j int) bool { return spec.Eq(O.At(i, j), X.At(i, j)/scale(i, j)) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractNormalizerInverse: InverseTransform undoes Transform.
func ContractNormalizerInverse() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	X := spec.Matrix("X", n, k)
	s := preprocessing.NewNormalizer()
	s.Norm = []string{"l1", "l2", "max"}[spec.Choose("norm", 3)]
	s.Axis = spec.Choose("axis", 2)
	O, _ := s.FitTransform(X, nil)
	W, Y := spec.Matrix("W", n, k), spec.Matrix("Y", n, 1) // any layout
	W.Copy(O)
	B, Yb := s.InverseTransform(W, Y)
	passed("inverse: targets passed through", Y, Yb, n)
	dims("inverse: same shape", B, n, k)
	spec.Assert("InverseTransform undoes Transform", spec.Forall2(n, k, func(i, j int) bool { return spec.Eq(B.At(i, j), X.At(i, j)) }))
}

// ContractKernelCenterer: K - column means of the training kernel - row means + overall mean.
func ContractKernelCenterer() {
	n, m := spec.Nat("n", 1), spec.Nat("m", 1)
	K, Z := spec.Matrix("K", n, n), spec.Matrix("Z", m, n)
	fz := spec.Freeze(K, Z)
	s := preprocessing.NewKernelCenterer()
	s.Fit(K, nil)
	Y := spec.Matrix("Y", m, 1)
	fitted := spec.Freeze(s)
	O, Yo := s.Transform(Z, Y)
	spec.Assert("transforming does not change the model", spec.Unchanged(fitted))
	passed("targets passed through", Y, Yo, m)
	dims("same shape", O, m, n)
	N := float64(n)
	colMean := func(j int) float64 { return spec.Sum(n, func(i int) float64 { return K.At(i, j) }) / N }
	rowMean := func(i int) float64 { return spec.Sum(n, func(j int) float64 { return Z.At(i, j) }) / N }
	all := spec.Sum(n, colMean) / N
	spec.Assert("centered kernel", spec.Forall2(m, n, func(i, j int) bool { return spec.Eq(O.At(i, j), Z.At(i, j)-colMean(j)-rowMean(i)+all) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractBinarizer: entries above the threshold become 1, others 0.
func ContractBinarizer() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	X := spec.Matrix("X", n, k)
	s := preprocessing.NewBinarizer()
	s.Threshold = spec.Float("threshold")
	fz := spec.Freeze(X)
	Y := spec.Matrix("Y", n, 1)
	O, Yo := s.FitTransform(X, Y)
	passed("targets passed through", Y, Yo, n)
	dims("same shape", O, n, k)
	spec.Assert("one above the threshold, else zero", spec.Forall2(n, k, func(i, j int) bool { return O.At(i, j) == spec.B2F(X.At(i, j) > s.Threshold) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractDummy: AddDummyFeature prepends a column of ones.
func ContractDummy() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	X := spec.Matrix("X", n, k)
	X0 := mat.DenseCopyOf(X)
	preprocessing.AddDummyFeature(X)
	dims("one more column", X, n, k+1)
	spec.Assert("column of ones first", spec.Forall(n, func(i int) bool { return X.At(i, 0) == 1 }))
	spec.Assert("data kept", spec.Forall2(n, k, func(i, j int) bool { return X.At(i, j+1) == X0.At(i, j) }))
}

// ContractStats: column means and population standard deviations.
func ContractStats() {
	n, k := spec.Nat("n", 2), spec.Nat("k", 1)
	X := spec.Matrix("X", n, k)
	fz := spec.Freeze(X)
	mean := func(j int) float64 { return spec.Sum(n, func(i int) float64 { return X.At(i, j) }) / float64(n) }
	vari := func(j int) float64 {
		return spec.Sum(n, func(i int) float64 { return (X.At(i, j) - mean(j)) * (X.At(i, j) - mean(j)) }) / float64(n)
	}
	m1 := preprocessing.Mean(X)
	dims("Mean: one row", m1, 1, k)
	spec.Assert("Mean", spec.Forall(k, func(j int) bool { return spec.Eq(m1.At(0, j), mean(j)) }))
	m2, sd := preprocessing.MeanStdDev(X)
	spec.Assert("MeanStdDev: mean", spec.Forall(k, func(j int) bool { return spec.Eq(m2.At(0, j), mean(j)) }))
	spec.SumNonneg("squares are non-negative", k, n, func(j, i int) float64 { return (X.At(i, j) - mean(j)) * (X.At(i, j) - mean(j)) })
	spec.Assert("MeanStdDev: population standard deviation", spec.Forall(k, func(j int) bool { return spec.Eq(sd.At(0, j)*sd.At(0, j), vari(j)) }))
	m3 := preprocessing.DenseMean(nil, X)
	spec.Assert("DenseMean", spec.Forall(k, func(j int) bool { return spec.Eq(m3.At(0, j), mean(j)) }))
	m4 := preprocessing.DenseMean(spec.Matrix("old", 1, k), X)
	spec.Assert("DenseMean into a matrix", spec.Forall(k, func(j int) bool { return spec.Eq(m4.At(0, j), mean(j)) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractImputer: missing values are replaced by the mean of the present training values of their column, others kept.
func ContractImputer() {
	n, k, m := spec.Nat("n", 1), spec.Nat("k", 1), spec.Nat("m", 1)
	X, Z := spec.MatrixNaN("X", n, k), spec.MatrixNaN("Z", m, k)
	s := preprocessing.NewImputer()
	fz := spec.Freeze(X, Z)
	s.Fit(X, nil)
	Y := spec.Matrix("Y", m, 1)
	fitted := spec.Freeze(s)
	O, Yo := s.Transform(Z, Y)
	spec.Assert("transforming does not change the model", spec.Unchanged(fitted))
	passed("targets passed through", Y, Yo, m)
	dims("same shape", O, m, k)
	present := func(i, j int) float64 { return spec.B2F(!spec.IsNaN(X.At(i, j))) }
	count := func(j int) float64 { return spec.Sum(n, func(i int) float64 { return present(i, j) }) }
	total := func(j int) float64 {
		return spec.Sum(n, func(i int) float64 {
			if spec.IsNaN(X.At(i, j)) {
				return 0
			}
			return X.At(i, j)
		})
	}
	spec.Assert("present values are kept", spec.Forall2(m, k, func(i, j int) bool { return spec.Implies(!spec.IsNaN(Z.At(i, j)), O.At(i, j) == Z.At(i, j)) }))
	spec.Assert("missing values become the column mean", spec.Forall2(m, k, func(i, j int) bool {
		return spec.Implies(spec.IsNaN(Z.At(i, j)) && count(j) > 0, spec.Eq(O.At(i, j), total(j)/count(j)))
	}))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractKBins: uniform bins; a value falls in the last bin whose lower edge it reaches.
func ContractKBins() {
	n, k, m := spec.Nat("n", 1), spec.Nat("k", 1), spec.Nat("m", 1)
	nb := spec.Nat("bins", 1)
	X, Z := spec.Matrix("X", n, k), spec.Matrix("Z", m, k)
	s := preprocessing.NewKBinsDiscretizer(nb)
	s.Strategy = "uniform"
	e := spec.Choose("encode", 3)
	onehot := e >= 1
	s.Encode = []string{"ordinal", "onehot-dense", "onehot"}[e]
	fz := spec.Freeze(X, Z)
	s.Fit(X, nil)
	Y := spec.Matrix("Y", m, 1)
	fitted := spec.Freeze(s)
	O, Yo := s.Transform(Z, Y)
	spec.Assert("transforming does not change the model", spec.Unchanged(fitted))
	passed("targets passed through", Y, Yo, m)
	mn := func(j int) float64 { return spec.Min(n, func(i int) float64 { return X.At(i, j) }) }
	mx := func(j int) float64 { return spec.Max(n, func(i int) float64 { return X.At(i, j) }) }
	edge := func(j, b int) float64 { return mn(j) + float64(b)/float64(nb)*(mx(j)-mn(j)) }
	bin := func(i, j int) int {
		return spec.First(nb-1, func(b int) bool { return !(edge(j, b+1) <= Z.At(i, j)) })
	}
	spec.Assert("equally spaced edges", spec.Forall2(k, nb+1, func(j, b int) bool { return spec.Eq(s.BinEdges[j][b], edge(j, b)) }))
	if onehot {
		dims("one column per bin", O, m, k*nb)
		spec.Assert("bin number", spec.Forall2(m, k, func(i, j int) bool {
			return spec.Forall(nb, func(b int) bool { return O.At(i, j*nb+b) == spec.B2F(b == bin(i, j)) })
		}))
	} else {
		dims("same shape", O, m, k)
		spec.Assert("bin number", spec.Forall2(m, k, func(i, j int) bool { return O.At(i, j) == float64(bin(i, j)) }))
	}
	if !onehot {
		B, Yb := s.InverseTransform(O, Y)
		passed("inverse: targets passed through", Y, Yb, m)
		dims("inverse: original shape", B, m, k)
		spec.Assert("InverseTransform gives the middle of the bin", spec.Forall2(m, k, func(i, j int) bool {
			return spec.Eq(B.At(i, j), .5*(edge(j, bin(i, j))+edge(j, bin(i, j)+1)))
		}))
	}
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractKBinsOneHotInverse: the inverse of one-hot codes is the middle of the bin with the (first) largest code.
func ContractKBinsOneHotInverse() {
	k, m, nb := spec.Nat("k", 1), spec.Nat("m", 1), spec.Nat("bins", 1)
	s := preprocessing.NewKBinsDiscretizer(nb)
	s.Encode = "onehot"
	E := spec.Matrix("E", k, nb+1)
	s.BinEdges = make([][]float64, k)
	for j := range s.BinEdges {
		s.BinEdges[j] = make([]float64, nb+1)
		for b := range s.BinEdges[j] {
			s.BinEdges[j][b] = E.At(j, b)
		}
	}
	O := spec.Matrix("O", m, k*nb)
	B, _ := s.InverseTransform(O, nil)
	dims("inverse: original shape", B, m, k)
	top := func(i, j int) float64 { return spec.Max(nb, func(b int) float64 { return O.At(i, j*nb+b) }) }
	bin := func(i, j int) int { return spec.First(nb, func(b int) bool { return O.At(i, j*nb+b) == top(i, j) }) }
	spec.Assert("InverseTransform gives the middle of the bin", spec.Forall2(m, k, func(i, j int) bool {
		return spec.Eq(B.At(i, j), .5*(E.At(j, bin(i, j))+E.At(j, bin(i, j)+1)))
	}))
}

// ContractKBinsQuantile: quantile bins have the quantiles of the training column as edges.
func ContractKBinsQuantile() {
	n, k, nb := spec.Nat("n", 1), spec.Nat("k", 1), spec.Nat("bins", 1)
	X := spec.Matrix("X", n, k)
	s := preprocessing.NewKBinsDiscretizer(nb)
	fz := spec.Freeze(X)
	s.Fit(X, nil)
	edge := func(j, b int) float64 {
		c := make([]float64, n)
		for i := range c {
			c[i] = X.At(i, j)
		}
		sort.Float64s(c)
		return stat.Quantile(float64(b)/float64(nb), stat.Empirical, c, nil)
	}
	spec.Assert("one row of edges per column", len(s.BinEdges) == k)
	spec.Assert("quantiles", spec.Forall2(k, nb+1, func(j, b int) bool { return spec.Eq(s.BinEdges[j][b], edge(j, b)) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// BoundedImputer: with the other strategies missing values become the median, or a most frequent value, of the present training values of their column. runs=4000
func BoundedImputer() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	X := spec.Matrix("X", n, k)
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			X.Set(i, j, math.Floor(X.At(i, j)))
			if spec.Choose("missing", 4) == 0 {
				X.Set(i, j, math.NaN())
			}
		}
	}
	s := preprocessing.NewImputer()
	median := spec.Bool("median")
	if median {
		s.Strategy = "median"
	} else {
		s.Strategy = "most_frequent"
	}
	for j := 0; j < k; j++ {
		some := false
		for i := 0; i < n; i++ {
			some = some || !math.IsNaN(X.At(i, j))
		}
		spec.Assume(some)
	}
	fz := spec.Freeze(X)
	s.Fit(X, nil)
	O, _ := s.Transform(X, nil)
	dims("shape", O, n, k)
	for j := 0; j < k; j++ {
		var col []float64
		for i := 0; i < n; i++ {
			if !math.IsNaN(X.At(i, j)) {
				col = append(col, X.At(i, j))
			}
		}
		sort.Float64s(col)
		count := func(v float64) (c int) {
			for _, w := range col {
				if w == v {
					c++
				}
			}
			return
		}
		for i := 0; i < n; i++ {
			v := O.At(i, j)
			switch {
			case !math.IsNaN(X.At(i, j)):
				spec.Assert("present values are kept", v == X.At(i, j))
			case median:
				spec.Assert("median", v == col[(len(col)-1)/2])
			default:
				for _, w := range col {
					spec.Assert("most frequent", count(v) >= count(w))
				}
			}
		}
	}
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

func columnVariance(X *mat.Dense, n int) func(j int) float64 {
	mean := func(j int) float64 { return spec.Sum(n, func(i int) float64 { return X.At(i, j) }) / float64(n) }
	return func(j int) float64 {
		return spec.Sum(n, func(i int) float64 { return (X.At(i, j) - mean(j)) * (X.At(i, j) - mean(j)) }) / float64(n)
	}
}

// ContractVar: NumpyLike.Var and Std of a square matrix are the population variances and deviations of its columns; of any
// matrix, the variances have the ratios of those.
func ContractVar() {
	n := spec.Nat("n", 1)
	k := n
	square := spec.Choose("square", 2) == 1
	if !square {
		k = spec.Nat("k", 1)
	}
	X := spec.Matrix("X", n, k)
	fz := spec.Freeze(X)
	vari := columnVariance(X, n)
	v := preprocessing.NumpyLike{}.Var(X)
	dims("Var: one row", v, 1, k)
	if square {
		spec.Assert("Var of a square matrix", spec.Forall(k, func(j int) bool { return spec.Eq(v.At(0, j), vari(j)) }))
		s := preprocessing.NumpyLike{}.Std(X)
		dims("Std: one row", s, 1, k)
		spec.Assert("Std is the root of Var", spec.Forall(k, func(j int) bool { return spec.Eq(s.At(0, j), math.Sqrt(v.At(0, j))) }))
	} else {
		spec.Assert("Var of any matrix: ratios", spec.Forall2(k, k, func(a, b int) bool { return spec.Eq(v.At(0, a)*vari(b), v.At(0, b)*vari(a)) }))
	}
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// BoundedVar: NumpyLike.Var is the population variance of each column.
// runs=50
func BoundedVar() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	X := spec.Matrix("X", n, k)
	vari := columnVariance(X, n)
	v := preprocessing.NumpyLike{}.Var(X)
	spec.Assert("population variance of each column", spec.Forall(k, func(j int) bool { return spec.Eq(v.At(0, j), vari(j)) }))
}

// BoundedQuantiles: QuantileTransformer maps each quantile of a training column to its share (the least one of repeated
// quantiles), linearly in between, and values outside to the ends, which are kept 1e-7 inside of (0,1).
// runs=400
func BoundedQuantiles() {
	n, k := spec.IntIn("n", 1, 8), spec.IntIn("k", 1, 4)
	q, most := 1+1<<uint(spec.Choose("quantiles", 3)), 5 // exact in floating point: repeated values stay equal
	if spec.Choose("distinct", 2) == 1 {
		most = 60
	}
	X, Z := spec.LabelMatrix("X", n, k, most), spec.LabelMatrix("Z", 5, k, most+2)
	fz := spec.Freeze(X, Z)
	m := preprocessing.NewQuantileTransformer(q, "uniform", nil)
	m.Fit(X, nil)
	Z1, _ := m.Transform(Z, nil)
	X1, Y1 := m.FitTransform(X, Z)
	spec.Assert("targets kept", mat.Equal(Y1, Z))
	dims("shape", Z1, 5, k)
	dims("shape of training data", X1, n, k)
	clip := func(v float64) float64 { return math.Min(1-1e-7, math.Max(1e-7, v)) }
	for j := 0; j < k; j++ {
		s := make([]float64, n)
		mat.Col(s, j, X)
		sort.Float64s(s)
		quant := make([]float64, q)
		for i := range quant {
			at := float64(i) / float64(q-1) * float64(n-1)
			lo := int(at)
			quant[i] = s[lo]
			if lo+1 < n {
				quant[i] += (at - float64(lo)) * (s[lo+1] - s[lo])
			}
		}
		share := func(x float64) float64 {
			const tiny = 1e-12
			if x <= quant[0]+tiny {
				return 0
			}
			for i := 1; i < q; i++ {
				if x <= quant[i]+tiny {
					return (float64(i-1) + math.Min(1, (x-quant[i-1])/(quant[i]-quant[i-1]))) / float64(q-1)
				}
			}
			return 1
		}
		for i := 0; i < n; i++ {
			spec.Assert("share of a training value", spec.Eq(X1.At(i, j), clip(share(X.At(i, j)))))
		}
		for i := 0; i < 5; i++ {
			spec.Assert("share of a value", spec.Eq(Z1.At(i, j), clip(share(Z.At(i, j)))))
		}
	}
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}
