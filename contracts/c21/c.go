// Package c21 holds the contracts of feature expansion, power transforms, principal components and shuffling.
package c21

import (
	"math"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

func dims(name string, m *mat.Dense, r, c int) {
	a, b := m.Dims()
	spec.Assert(name, a == r && b == c)
}

func yeoJohnson(x, l float64) float64 {
	if x >= 0 {
		if math.Abs(l) < eps {
			return math.Log(1 + x)
		}
		return (math.Pow(x+1, l) - 1) / l
	}
	if math.Abs(l-2) <= eps {
		return -math.Log(1 - x)
	}
	return -(math.Pow(1-x, 2-l) - 1) / (2 - l)
}

func boxCox(x, l float64) float64 {
	if l == 0 {
		return math.Log(x)
	}
	return (math.Pow(x, l) - 1) / l
}

// eps is the distance of 1 to the next float64: parameters closer to 0 or 2 are taken as these.
const eps = 1.0 / (1 << 52)

// lambdas are any ones, the special values 0 and 2 included.
func lambdas(k int) []float64 {
	l := spec.FloatsIn("lambda", k, -3, 5)
	if !spec.Symbolic() {
		l[0] = []float64{l[0], 0, 2}[spec.Choose("special lambda", 3)]
		for _, v := range l {
			spec.Regular((v == 0 || math.Abs(v) > 1e-3) && (v == 2 || math.Abs(v-2) > 1e-3))
		}
	}
	return l
}

// sequential makes Parallelize one chunk: that the chunks of the transforms are independent is proved in ContractPowerColumns.
func sequential() {
	spec.UseContract("github.com/pa-m/sklearn/base.Parallelize", func(threads, n int, f func(th, start, end int)) { f(0, 0, n) })
}

func inverse(bc bool, y, l float64) float64 {
	if bc {
		if l == 0 {
			return math.Exp(y)
		}
		return math.Pow(y*l+1, 1/l)
	}
	if y >= 0 {
		if math.Abs(l) < eps {
			return math.Exp(y) - 1
		}
		return math.Pow(y*l+1, 1/l) - 1
	}
	if math.Abs(l-2) <= eps {
		return 1 - math.Exp(-y)
	}
	return 1 - math.Pow(-(2-l)*y+1, 1/(2-l))
}

// ContractYeoJohnson: every entry is replaced by its Yeo-Johnson transform with the parameter of its column.
func ContractYeoJohnson() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	sequential()
	X := spec.Matrix("X", n, k)
	m := preprocessing.NewPowerTransformer()
	m.Standardize = false
	m.Lambdas = lambdas(k)
	fz := spec.Freeze(m, X)
	O, _ := m.Transform(X, nil)
	dims("shape", O, n, k)
	spec.Assert("Yeo-Johnson transform", spec.Forall2(n, k, func(i, j int) bool { return spec.Eq(O.At(i, j), yeoJohnson(X.At(i, j), m.Lambdas[j])) }))
	spec.Assert("model and inputs unchanged", spec.Unchanged(fz))
}

// ContractBoxCox: every positive entry is replaced by its Box-Cox transform with the parameter of its column.
func ContractBoxCox() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	sequential()
	X := spec.MatrixIn("X", n, k, 0.1, 10)
	m := preprocessing.NewPowerTransformer()
	m.Standardize = false
	m.Method = "box-cox"
	m.Lambdas = lambdas(k)
	fz := spec.Freeze(m, X)
	O, _ := m.Transform(X, nil)
	dims("shape", O, n, k)
	spec.Assert("Box-Cox transform", spec.Forall2(n, k, func(i, j int) bool { return spec.Eq(O.At(i, j), boxCox(X.At(i, j), m.Lambdas[j])) }))
	spec.Assert("model and inputs unchanged", spec.Unchanged(fz))
}

// ContractPowerInverse: the documented inverses of both transforms.
func ContractPowerInverse() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	sequential()
	X := spec.MatrixIn("X", n, k, -0.1, 0.1)
	m := preprocessing.NewPowerTransformer()
	m.Standardize = false
	bc := spec.Choose("box-cox", 2) == 1
	if bc {
		m.Method = "box-cox"
	}
	m.Lambdas = lambdas(k)
	fz := spec.Freeze(m, X)
	O, _ := m.InverseTransform(X, nil)
	dims("shape", O, n, k)
	spec.Assert("inverse", spec.Forall2(n, k, func(i, j int) bool { return spec.Eq(O.At(i, j), inverse(bc, X.At(i, j), m.Lambdas[j])) }))
	spec.Assert("model and inputs unchanged", spec.Unchanged(fz))
}

func columnwise(name string) {
	spec.UseContract("github.com/pa-m/sklearn/preprocessing."+name, func(out, x []float64, l float64) {
		spec.Assert("as many results as values", len(out) == len(x))
		for i := range x {
			out[i] = spec.UF(name, x[i], l)
		}
	})
}

// ContractPowerColumns: with any number of columns, each is transformed (or transformed back) with its own parameter, any transform of columns given;
// with Standardize, transformed data are scaled by the fitted scaler, and the inverse unscales first.
func ContractPowerColumns() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	m := preprocessing.NewPowerTransformer()
	bc, back := spec.Choose("box-cox", 2) == 1, spec.Choose("inverse", 2) == 1
	name := "yeoJohnson"
	if bc {
		m.Method = "box-cox"
		name = "boxCox"
	}
	lo := -0.1
	if bc && !back {
		lo = 0.01
	}
	X := spec.MatrixIn("X", n, k, lo, 0.1)
	if spec.Symbolic() {
		X = spec.Matrix("X", n, k)
	}
	columnwise("yeoJohnsonTransform")
	columnwise("yeoJohnsonInverseTransform")
	columnwise("boxCoxTransform")
	columnwise("boxCoxInverseTransform")
	m.Lambdas = lambdas(k)
	m.Standardize = spec.Choose("standardize", 2) == 1
	mean, scale := spec.MatrixIn("mean", 1, k, -0.1, 0.1), spec.MatrixIn("scale", 1, k, 0.5, 1)
	if m.Standardize {
		m.Scaler = preprocessing.NewStandardScaler()
		m.Scaler.Mean, m.Scaler.Scale = mean, scale
	}
	fz := spec.Freeze(m, X)
	f := func(x, l float64) float64 {
		switch {
		case spec.Symbolic() && back:
			return spec.UF(name+"InverseTransform", x, l)
		case spec.Symbolic():
			return spec.UF(name+"Transform", x, l)
		case back:
			return inverse(bc, x, l)
		case bc:
			return boxCox(x, l)
		}
		return yeoJohnson(x, l)
	}
	var O *mat.Dense
	if back {
		O, _ = m.InverseTransform(X, nil)
	} else {
		O, _ = m.Transform(X, nil)
	}
	dims("shape", O, n, k)
	spec.Assert("every column with its parameter", spec.Forall2(n, k, func(i, j int) bool {
		x := X.At(i, j)
		if m.Standardize && back {
			x = x*scale.At(0, j) + mean.At(0, j)
		}
		x = f(x, m.Lambdas[j])
		if m.Standardize && !back {
			x = (x - mean.At(0, j)) / scale.At(0, j)
		}
		return spec.Eq(O.At(i, j), x)
	}))
	spec.Assert("model and inputs unchanged", spec.Unchanged(fz))
}

// ContractFunctionTransformer: data and result are those of the given functions.
func ContractFunctionTransformer() {
	n, k, o := spec.Nat("n", 1), spec.Nat("k", 1), spec.Nat("o", 1)
	X, Y := spec.Matrix("X", n, k), spec.Matrix("Y", n, o)
	A, B := spec.Matrix("A", n, o), spec.Matrix("B", n, k)
	calls := 0
	f := func(x, y *mat.Dense) (*mat.Dense, *mat.Dense) {
		calls++
		spec.Assert("called with X", spec.Forall2(n, k, func(i, j int) bool { return x.At(i, j) == X.At(i, j) }))
		spec.Assert("called with Y", spec.Forall2(n, o, func(i, j int) bool { return y.At(i, j) == Y.At(i, j) }))
		return A, B
	}
	g := func(x, y *mat.Dense) (*mat.Dense, *mat.Dense) { return B, A }
	inverse := spec.Bool("inverse")
	m := preprocessing.NewFunctionTransformer(f, g)
	if inverse {
		m = preprocessing.NewFunctionTransformer(g, f)
	}
	fz := spec.Freeze(X, Y, A, B)
	var x, y *mat.Dense
	if inverse {
		x, y = m.InverseTransform(X, Y)
	} else if spec.Bool("fit") {
		x, y = m.FitTransform(X, Y)
	} else {
		x, y = m.Transform(X, Y)
	}
	spec.Assert("result of the function", x == A && y == B && calls == 1)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractPolynomialTransform: each output column is the product of powers of the input columns with the exponents listed for it (up to 2 columns and 2 outputs in the proof).
func ContractPolynomialTransform() {
	n, k, o := spec.Nat("n", 1), 1+spec.Choose("features", 2), 1+spec.Choose("outputs", 2)
	X := spec.MatrixIn("X", n, k, 0.5, 3)
	m := preprocessing.NewPolynomialFeatures(2)
	a, b, c, d := spec.IntIn("p00", 0, 4), spec.IntIn("p01", 0, 4), spec.IntIn("p10", 0, 4), spec.IntIn("p11", 0, 4)
	switch {
	case k == 1 && o == 1:
		m.Powers = [][]int{{a}}
	case k == 1:
		m.Powers = [][]int{{a}, {c}}
	case o == 1:
		m.Powers = [][]int{{a, b}}
	default:
		m.Powers = [][]int{{a, b}, {c, d}}
	}
	fz := spec.Freeze(m, X)
	O, _ := m.Transform(X, nil)
	dims("one column per output", O, n, o)
	check := func(t, e, f int) {
		spec.Assert("product of powers", spec.Forall(n, func(i int) bool {
			v := math.Pow(X.At(i, 0), float64(e))
			if k == 2 {
				v *= math.Pow(X.At(i, 1), float64(f))
			}
			return spec.Eq(O.At(i, t), v)
		}))
	}
	check(0, a, b)
	if o == 2 {
		check(1, c, d)
	}
	spec.Assert("model and inputs unchanged", spec.Unchanged(fz))
}

func ipow(x float64, p int) float64 {
	v := 1.
	for ; p > 0; p-- {
		v *= x
	}
	return v
}

// BoundedPolynomial: the features are all products of powers of total degree at most Degree (InteractionOnly: of distinct columns), once each, by increasing degree, the constant one only with IncludeBias; the inverse restores the data. runs=4000
func BoundedPolynomial() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	X, Y := spec.Matrix("X", n, k), spec.Matrix("Y", n, 1)
	m := preprocessing.NewPolynomialFeatures(spec.IntIn("degree", 1, 4))
	spec.Regular(k <= 5)
	m.InteractionOnly, m.IncludeBias = spec.Bool("interaction only"), spec.Bool("bias")
	if spec.Bool("fitted before") {
		m.Fit(spec.Matrix("X0", 2, 3), nil)
	}
	fz := spec.Freeze(X, Y)
	O, Yo := m.FitTransform(X, Y)
	count := 0
	var rec func(j, left int)
	rec = func(j, left int) {
		if j == k {
			count++
			return
		}
		for p := 0; p <= left && !(m.InteractionOnly && p > 1); p++ {
			rec(j+1, left-p)
		}
	}
	rec(0, m.Degree)
	if !m.IncludeBias {
		count--
	}
	spec.Assert("number of features", len(m.Powers) == count)
	dims("shape", O, n, count)
	last := 0
	for t, p := range m.Powers {
		spec.Assert("one exponent per column", len(p) == k)
		total := 0
		for _, e := range p {
			total += e
			spec.Assert("exponents", e >= 0 && !(m.InteractionOnly && e > 1))
		}
		spec.Assert("total degree", total <= m.Degree && total >= last && (total > 0 || m.IncludeBias))
		last = total
		for s := 0; s < t; s++ {
			same := true
			for j := range p {
				same = same && p[j] == m.Powers[s][j]
			}
			spec.Assert("features are distinct", !same)
		}
		for i := 0; i < n; i++ {
			v := 1.
			for j, e := range p {
				v *= ipow(X.At(i, j), e)
			}
			spec.Assert("product of powers", spec.Eq(v, O.At(i, t)))
		}
	}
	spec.Assert("targets kept", spec.Forall(n, func(i int) bool { return Yo.At(i, 0) == Y.At(i, 0) }))
	B, Yb := m.InverseTransform(O, Yo)
	dims("shape of the inverse", B, n, k)
	spec.Assert("restored", spec.Forall2(n, k, func(i, j int) bool { return spec.Eq(B.At(i, j), X.At(i, j)) }))
	spec.Assert("targets kept by the inverse", spec.Forall(n, func(i int) bool { return Yb.At(i, 0) == Y.At(i, 0) }))
	before := spec.Freeze(m)
	m.TransformerClone().Fit(spec.Matrix("X1", 1, 2), nil)
	spec.Assert("fitting a clone leaves the original alone", spec.Unchanged(before))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// BoundedShuffler: the rows of X and Y are rearranged alike, each kept once; the inverse restores them; the same source gives the same order. runs=4000
func BoundedShuffler() {
	n, k, o := spec.IntIn("n", 1, 9), spec.Nat("k", 1), spec.Nat("o", 1)
	X, Y := spec.Matrix("X", n, k), spec.Matrix("Y", n, o)
	m := preprocessing.NewShuffler()
	seed := uint64(spec.IntIn("seed", 0, 1000))
	m.RandomState = base.NewSource(seed)
	fz := spec.Freeze(X, Y)
	A, B := m.FitTransform(X, Y)
	dims("shape of X", A, n, k)
	dims("shape of Y", B, n, o)
	used := make([]bool, n)
	for i := 0; i < n; i++ {
		found := false
		for s := 0; s < n && !found; s++ {
			same := !used[s]
			for j := 0; j < k; j++ {
				same = same && A.At(i, j) == X.At(s, j)
			}
			for j := 0; j < o; j++ {
				same = same && B.At(i, j) == Y.At(s, j)
			}
			if same {
				used[s], found = true, true
			}
		}
		spec.Assert("every row is a row of the data, used once", found)
	}
	m2 := preprocessing.NewShuffler()
	m2.RandomState = base.NewSource(seed)
	A2, B2 := m2.FitTransform(X, Y)
	spec.Assert("same seed, same order", mat.Equal(A, A2) && mat.Equal(B, B2))
	A3, B3 := m.Transform(X, Y)
	spec.Assert("transforming again gives the same", mat.Equal(A, A3) && mat.Equal(B, B3))
	spec.Assert("data unchanged", spec.Unchanged(fz))
	a, b := m.InverseTransform(A, B)
	spec.Assert("restored", mat.Equal(a, X) && mat.Equal(b, Y))
}

// BoundedPCA: the components are orthogonal projections on orthonormal directions of decreasing variance; the ratios are the shares of the squared singular values; the number of components is the asked one, or the least that explains MinVarianceRatio; the inverse restores what the kept components hold. runs=4000
func BoundedPCA() {
	n, k := spec.IntIn("n", 1, 7), spec.IntIn("k", 1, 4)
	X := spec.Matrix("X", n, k)
	spec.Regular(mat.Norm(X, 2) > 0.1)
	p := n
	if k < n {
		p = k
	}
	m := preprocessing.NewPCA()
	want := p
	switch spec.Choose("components", 3) {
	case 1:
		want = spec.IntIn("NComponents", 1, p)
		m.NComponents = want
	case 2:
		m.MinVarianceRatio = float64(spec.IntIn("percent", 5, 95)) / 100
		want = -1
	}
	fz := spec.Freeze(X)
	Z, _ := m.FitTransform(X, nil)
	spec.Assert("values", len(m.SingularValues) == p && len(m.ExplainedVarianceRatio) == p)
	tot := 0.
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			tot += X.At(i, j) * X.At(i, j)
		}
	}
	acc, least := 0., p
	for t := 0; t < p; t++ {
		spec.Assert("decreasing", t == 0 || m.SingularValues[t] <= m.SingularValues[t-1])
		r := m.SingularValues[t] * m.SingularValues[t] / tot
		spec.Assert("share of the variance", spec.Eq(m.ExplainedVarianceRatio[t], r))
		spec.Regular(want >= 0 || math.Abs(acc+r-m.MinVarianceRatio) > 1e-6)
		if want < 0 && acc < m.MinVarianceRatio && acc+r >= m.MinVarianceRatio {
			least = t + 1
		}
		acc += r
	}
	spec.Assert("shares add up to one", spec.Eq(acc, 1))
	if want < 0 {
		want = least
	}
	spec.Assert("number of components", m.NComponents == want)
	dims("shape", Z, n, want)
	for a := 0; a < want; a++ {
		for b := 0; b < want; b++ {
			s := 0.
			for i := 0; i < n; i++ {
				s += Z.At(i, a) * Z.At(i, b)
			}
			e := 0.
			if a == b {
				e = m.SingularValues[a] * m.SingularValues[a]
			}
			spec.Assert("orthogonal components with the variances of the singular values", math.Abs(s-e) <= 1e-7*(1+tot))
		}
	}
	// a unit direction is mapped to a vector of length at most one, the directions are orthonormal
	I := mat.NewDense(k, k, nil)
	for j := 0; j < k; j++ {
		I.Set(j, j, 1)
	}
	V, _ := m.Transform(I, nil)
	for a := 0; a < want; a++ {
		for b := 0; b < want; b++ {
			s := 0.
			for j := 0; j < k; j++ {
				s += V.At(j, a) * V.At(j, b)
			}
			e := 0.
			if a == b {
				e = 1
			}
			spec.Assert("orthonormal directions", math.Abs(s-e) <= 1e-9)
		}
	}
	for i := 0; i < n; i++ {
		for a := 0; a < want; a++ {
			s := 0.
			for j := 0; j < k; j++ {
				s += X.At(i, j) * V.At(j, a)
			}
			spec.Assert("projection", spec.Eq(s, Z.At(i, a)))
		}
	}
	B, _ := m.InverseTransform(Z, nil)
	dims("shape of the inverse", B, n, k)
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			s := 0.
			for a := 0; a < want; a++ {
				s += Z.At(i, a) * V.At(j, a)
			}
			spec.Assert("inverse", spec.Eq(s, B.At(i, j)))
			spec.Assert("restored when nothing is dropped", want < p || math.Abs(B.At(i, j)-X.At(i, j)) <= 1e-7*(1+tot))
		}
	}
	clone := m.TransformerClone()
	clone.Fit(spec.Matrix("other", n, k), nil)
	Z2, _ := m.Transform(X, nil)
	spec.Assert("fitting a clone leaves the original alone", mat.Equal(Z, Z2))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// BoundedPowerFit: the fitted lambdas maximize the likelihood of normality of each column; standardized results have mean zero and variance one; the inverse restores the data. runs=2000
func BoundedPowerFit() {
	n, k := spec.IntIn("n", 4, 9), spec.IntIn("k", 1, 3)
	m := preprocessing.NewPowerTransformer()
	var X *mat.Dense
	f := yeoJohnson
	jac := func(x float64) float64 {
		if x >= 0 {
			return math.Log1p(x)
		}
		return -math.Log1p(-x)
	}
	if spec.Bool("box-cox") {
		m.Method = "box-cox"
		X = spec.MatrixIn("X", n, k, 0.5, 3)
		f, jac = boxCox, math.Log
	} else {
		X = spec.MatrixIn("X", n, k, -2, 2)
	}
	m.Standardize = spec.Bool("standardize")
	variance := func(j int, g func(x float64) float64) (mean, v float64) {
		for i := 0; i < n; i++ {
			mean += g(X.At(i, j)) / float64(n)
		}
		for i := 0; i < n; i++ {
			d := g(X.At(i, j)) - mean
			v += d * d / float64(n)
		}
		return
	}
	for j := 0; j < k; j++ {
		_, v := variance(j, func(x float64) float64 { return x })
		spec.Regular(v > 0.05)
	}
	loglike := func(j int, l float64) float64 {
		_, v := variance(j, func(x float64) float64 { return f(x, l) })
		s := -float64(n) / 2 * math.Log(v)
		for i := 0; i < n; i++ {
			s += (l - 1) * jac(X.At(i, j))
		}
		return s
	}
	fz := spec.Freeze(X)
	O, _ := m.FitTransform(X, nil)
	for j := 0; j < k; j++ {
		l := m.Lambdas[j]
		spec.Regular(math.Abs(l) < 20)
		for _, d := range []float64{-0.5, -0.05, 0.05, 0.5} {
			spec.Assert("likelihood is not greater nearby", loglike(j, l+d) <= loglike(j, l)+1e-6)
		}
		mean, v := variance(j, func(x float64) float64 { return f(x, l) })
		for i := 0; i < n; i++ {
			e := f(X.At(i, j), l)
			if m.Standardize {
				e = (e - mean) / math.Sqrt(v)
			}
			spec.Assert("transformed", math.Abs(O.At(i, j)-e) <= 1e-6*(1+math.Abs(e)))
		}
	}
	T, _ := m.Transform(X, nil)
	spec.Assert("Transform after Fit is FitTransform", mat.EqualApprox(T, O, 1e-9))
	B, _ := m.InverseTransform(O, nil)
	spec.Assert("restored", mat.EqualApprox(B, X, 1e-6))
	fitted := spec.Freeze(m)
	m.TransformerClone().Fit(spec.MatrixIn("other", n, k, 0.5, 3), nil)
	spec.Assert("fitting a clone leaves the original alone", spec.Unchanged(fitted))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}
