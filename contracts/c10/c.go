// Package c10 holds the contracts of the label and category encoders.
package c10

import (
	"math"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

// classes are the sorted classes of o outputs.
func classes(o int) [][]float64 {
	cls := make([][]float64, o)
	names := []string{"classes of output 0", "classes of output 1"}
	sizes := []string{"K0", "K1"}
	for j := 0; j < o; j++ {
		k := spec.Nat(sizes[j], 1)
		cl := make([]float64, k)
		copy(cl, spec.SortedFloats(names[j], k))
		cls[j] = cl
	}
	return cls
}

// ContractEncode: each value is replaced by its position among the sorted classes, -1 when it is none of them.
func ContractEncode() {
	n, o := spec.Nat("n", 1), 1+spec.Choose("outputs", 2)
	m := preprocessing.NewLabelEncoder()
	m.Classes = classes(o)
	X, Y := spec.Matrix("X", n, 1), spec.Matrix("Y", n, o)
	fz := spec.Freeze(m, X, Y)
	xo, yo := m.Transform(X, Y)
	r, c := yo.Dims()
	spec.Assert("shape", r == n && c == o)
	for j := 0; j < o; j++ {
		cl := m.Classes[j]
		spec.Assert("code is the position of the value", spec.Forall(n, func(i int) bool {
			code := int(yo.At(i, j))
			if yo.At(i, j) == -1 {
				return !spec.Exists(len(cl), func(k int) bool { return cl[k] == Y.At(i, j) })
			}
			return 0 <= code && code < len(cl) && yo.At(i, j) == float64(code) && cl[code] == Y.At(i, j)
		}))
	}
	spec.Assert("X passed through", spec.Forall(n, func(i int) bool { return xo.At(i, 0) == X.At(i, 0) }))
	spec.Assert("model and inputs unchanged", spec.Unchanged(fz))
}

// ContractDecode: each code is replaced by the class it numbers, NaN when out of range.
func ContractDecode() {
	n, o := spec.Nat("n", 1), 1+spec.Choose("outputs", 2)
	m := preprocessing.NewLabelEncoder()
	m.Classes = classes(o)
	X, Y := spec.Matrix("X", n, 1), spec.LabelMatrix("Y", n, o, 6)
	fz := spec.Freeze(m, X, Y)
	xo, yo := m.InverseTransform(X, Y)
	r, c := yo.Dims()
	spec.Assert("shape", r == n && c == o)
	for j := 0; j < o; j++ {
		cl := m.Classes[j]
		spec.Assert("class of the code", spec.Forall(n, func(i int) bool {
			code := int(Y.At(i, j))
			if code < len(cl) {
				return yo.At(i, j) == cl[code]
			}
			return spec.IsNaN(yo.At(i, j))
		}))
	}
	spec.Assert("X passed through", spec.Forall(n, func(i int) bool { return xo.At(i, 0) == X.At(i, 0) }))
	spec.Assert("model and inputs unchanged", spec.Unchanged(fz))
}

// ContractRoundTrip: decoding the codes of known classes restores them.
func ContractRoundTrip() {
	n, o := spec.Nat("n", 1), 1+spec.Choose("outputs", 2)
	m := preprocessing.NewLabelEncoder()
	m.Classes = classes(o)
	X, Y := spec.Matrix("X", n, 1), spec.Matrix("Y", n, o)
	_, code := m.Transform(X, Y)
	_, back := m.InverseTransform(X, code)
	for j := 0; j < o; j++ {
		cl := m.Classes[j]
		spec.Assert("restored", spec.Forall(n, func(i int) bool {
			return back.At(i, j) == Y.At(i, j) || !spec.Exists(len(cl), func(k int) bool { return cl[k] == Y.At(i, j) })
		}))
	}
}

// ContractBinarizerInverse: the class whose column is largest.
func ContractBinarizerInverse() {
	n, o := spec.Nat("n", 1), 1+spec.Choose("outputs", 2)
	m := preprocessing.NewLabelBinarizer(0, 1)
	m.Classes = classes(o)
	cols, second := len(m.Classes[0]), 0
	if o == 2 {
		second = cols
		cols += len(m.Classes[1])
	}
	X, Y := spec.Matrix("X", n, 1), spec.Matrix("Y", n, cols)
	fz := spec.Freeze(m, X, Y)
	xo, yo := m.InverseTransform(X, Y)
	r, c := yo.Dims()
	spec.Assert("shape", r == n && c == o)
	for j := 0; j < o; j++ {
		cl, first := m.Classes[j], 0
		if j == 1 {
			first = second
		}
		spec.Assert("class with the largest column", spec.Forall(n, func(i int) bool {
			return spec.Exists(len(cl), func(k int) bool {
				return yo.At(i, j) == cl[k] && spec.Forall(len(cl), func(l int) bool { return Y.At(i, first+l) <= Y.At(i, first+k) })
			})
		}))
	}
	spec.Assert("X passed through", spec.Forall(n, func(i int) bool { return xo.At(i, 0) == X.At(i, 0) }))
	spec.Assert("model and inputs unchanged", spec.Unchanged(fz))
}

// isClasses: cl are the distinct values of column j of Y in increasing order.
func isClasses(cl []float64, n int, at func(i int) float64) bool {
	return spec.Forall(len(cl)-1, func(k int) bool { return cl[k] < cl[k+1] }) &&
		spec.Forall(n, func(i int) bool { return spec.Exists(len(cl), func(k int) bool { return cl[k] == at(i) }) }) &&
		spec.Forall(len(cl), func(k int) bool { return spec.Exists(n, func(i int) bool { return cl[k] == at(i) }) })
}

// BoundedEncoderFit: the classes are the sorted distinct values of each output (over all batches), with their counts.
func BoundedEncoderFit() {
	n, n2, o := spec.Nat("n", 1), spec.Nat("n2", 1), spec.IntIn("outputs", 1, 3)
	X, Y, Z := spec.Matrix("X", n, 1), spec.LabelMatrix("Y", n, o, 6), spec.LabelMatrix("Z", n2, o, 6)
	m := preprocessing.NewLabelEncoder()
	if spec.Bool("used before") {
		m.Fit(X, Z)
	}
	fz := spec.Freeze(X, Y, Z)
	var y mat.Matrix = Y
	if spec.Bool("transposed") {
		y = mat.DenseCopyOf(Y.T()).T()
	}
	m.Fit(X, y)
	for j := 0; j < o; j++ {
		spec.Assert("classes", isClasses(m.Classes[j], n, func(i int) float64 { return Y.At(i, j) }))
		spec.Assert("counts", len(m.Support[j]) == len(m.Classes[j]) && spec.Forall(len(m.Classes[j]), func(k int) bool {
			return m.Support[j][k] == float64(spec.Count(n, func(i int) bool { return Y.At(i, j) == m.Classes[j][k] }))
		}))
	}
	_, codes := m.FitTransform(X, Y)
	spec.Assert("codes", spec.Forall2(n, o, func(i, j int) bool {
		c := int(codes.At(i, j))
		return 0 <= c && c < len(m.Classes[j]) && m.Classes[j][c] == Y.At(i, j)
	}))
	m.PartialFit(X, Z)
	both := func(i, j int) float64 {
		if i < n {
			return Y.At(i, j)
		}
		return Z.At(i-n, j)
	}
	for j := 0; j < o; j++ {
		spec.Assert("classes of both batches", isClasses(m.Classes[j], n+n2, func(i int) float64 { return both(i, j) }))
		spec.Assert("counts of both batches", len(m.Support[j]) == len(m.Classes[j]) && spec.Forall(len(m.Classes[j]), func(k int) bool {
			return m.Support[j][k] == float64(spec.Count(n+n2, func(i int) bool { return both(i, j) == m.Classes[j][k] }))
		}))
	}
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// BoundedBinarizer: one column per class, PosLabel where the value is the class and NegLabel elsewhere; the inverse restores the values.
func BoundedBinarizer() {
	n, o := spec.Nat("n", 1), spec.IntIn("outputs", 1, 3)
	X, Y, Z := spec.Matrix("X", n, 1), spec.LabelMatrix("Y", n, o, 5), spec.LabelMatrix("Z", n, o, 7)
	neg, pos := float64(spec.IntIn("neg", -1, 1)), float64(spec.IntIn("pos", 0, 2))
	spec.Assume(neg < pos)
	m := preprocessing.NewLabelBinarizer(neg, pos)
	if spec.Bool("used before") {
		m.Fit(X, Z)
	}
	fz := spec.Freeze(X, Y, Z)
	m.Fit(X, Y)
	first := make([]int, o+1)
	for j := 0; j < o; j++ {
		spec.Assert("classes", isClasses(m.Classes[j], n, func(i int) float64 { return Y.At(i, j) }))
		first[j+1] = first[j] + len(m.Classes[j])
	}
	check := func(Y *mat.Dense) *mat.Dense {
		_, yo := m.Transform(X, Y)
		r, c := yo.Dims()
		spec.Assert("shape", r == n && c == first[o])
		for j := 0; j < o; j++ {
			spec.Assert("indicators", spec.Forall2(n, len(m.Classes[j]), func(i, k int) bool {
				want := neg
				if Y.At(i, j) == m.Classes[j][k] {
					want = pos
				}
				return yo.At(i, first[j]+k) == want
			}))
		}
		return yo
	}
	check(Z)
	_, back := m.InverseTransform(X, check(Y))
	spec.Assert("restored", spec.Forall2(n, o, func(i, j int) bool { return back.At(i, j) == Y.At(i, j) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// BoundedMultiLabel: one column per output and class, 1 where the value is the class; the inverse restores the values; numbers and strings alike.
func BoundedMultiLabel() {
	n, o := spec.Nat("n", 1), spec.IntIn("outputs", 1, 3)
	X, Y := spec.Matrix("X", n, 1), spec.LabelMatrix("Y", n, o, 5)
	S := make([][]string, n)
	name := []string{"b", "a", "ab", "", "z"}
	for i := range S {
		for j := 0; j < o; j++ {
			S[i] = append(S[i], name[int(Y.At(i, j))])
		}
	}
	fz := spec.Freeze(X, Y, S)
	m := preprocessing.NewMultiLabelBinarizer()
	var y mat.Matrix = Y
	if spec.Bool("transposed") {
		y = mat.DenseCopyOf(Y.T()).T()
	}
	_, yo := m.FitTransform(X, y)
	spec.Assert("classes", spec.Forall(len(m.Classes)-1, func(k int) bool { return m.Classes[k].(float64) < m.Classes[k+1].(float64) }))
	K := len(m.Classes)
	spec.Assert("indicators", spec.Forall2(n, o, func(i, j int) bool {
		return spec.Count(K, func(k int) bool { return yo.At(i, j*K+k) == 1 && m.Classes[k].(float64) == Y.At(i, j) }) == 1 &&
			spec.Count(K, func(k int) bool { return yo.At(i, j*K+k) == 0 }) == K-1
	}))
	_, back := m.InverseTransform(X, yo)
	spec.Assert("restored", spec.Forall2(n, o, func(i, j int) bool { return back.(*mat.Dense).At(i, j) == Y.At(i, j) }))

	_, yo = m.FitTransform2(X, S)
	spec.Assert("string classes", len(m.Classes) == K && spec.Forall(K-1, func(k int) bool { return m.Classes[k].(string) < m.Classes[k+1].(string) }))
	spec.Assert("string indicators", spec.Forall2(n, o, func(i, j int) bool {
		return spec.Count(K, func(k int) bool { return yo.At(i, j*K+k) == 1 && m.Classes[k].(string) == S[i][j] }) == 1 &&
			spec.Count(K, func(k int) bool { return yo.At(i, j*K+k) == 0 }) == K-1
	}))
	_, back = m.InverseTransform(X, yo)
	spec.Assert("strings restored", spec.Forall2(n, o, func(i, j int) bool { return back.([][]string)[i][j] == S[i][j] }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// BoundedOneHot: one column per feature and distinct value, 1 where the cell has the value; unknown values give a zero block; the inverse restores the values.
func BoundedOneHot() {
	n, f := spec.Nat("n", 1), spec.IntIn("features", 1, 3)
	X, Y, Z := spec.LabelMatrix("X", n, f, 5), spec.Matrix("Y", n, 1), spec.LabelMatrix("Z", n, f, 7)
	m := preprocessing.NewOneHotEncoder()
	if spec.Bool("used before") {
		m.Fit(Z, Y)
	}
	fz := spec.Freeze(X, Y, Z)
	m.Fit(X, Y)
	first := make([]int, f+1)
	for j := 0; j < f; j++ {
		spec.Assert("values", isClasses(m.Values[j], n, func(i int) float64 { return X.At(i, j) }))
		first[j+1] = first[j] + len(m.Values[j])
		spec.Assert("counts", m.NValues[j] == len(m.Values[j]) && m.FeatureIndices[j] == first[j] && m.FeatureIndices[j+1] == first[j+1])
	}
	check := func(X *mat.Dense) (xo, yo *mat.Dense) {
		xo, yo = m.Transform(X, Y)
		r, c := xo.Dims()
		spec.Assert("shape", r == n && c == first[f])
		for j := 0; j < f; j++ {
			spec.Assert("indicators", spec.Forall2(n, len(m.Values[j]), func(i, k int) bool {
				return xo.At(i, first[j]+k) == spec.B2F(X.At(i, j) == m.Values[j][k])
			}))
		}
		spec.Assert("Y passed through", spec.Forall(n, func(i int) bool { return yo.At(i, 0) == Y.At(i, 0) }))
		return
	}
	check(Z)
	back, _ := m.InverseTransform(check(X))
	spec.Assert("restored", spec.Forall2(n, f, func(i, j int) bool { return back.At(i, j) == X.At(i, j) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

var _ = math.Pi
var _ base.Transformer = &preprocessing.LabelEncoder{}
