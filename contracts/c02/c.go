// Package c02 holds the contracts of the matrix views and conversions of package base.
package c02

import (
	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

func same(name string, m mat.Matrix, r, c int, at func(i, j int) float64) {
	a, b := m.Dims()
	spec.Assert(name+": dimensions", a == r && b == c)
	spec.Assert(name+": entries", spec.Forall2(r, c, func(i, j int) bool { return m.At(i, j) == at(i, j) }))
}

// ContractConst: constant matrix and its transpose.
func ContractConst() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	m := base.MatConst{Rows: n, Columns: k, Value: spec.Float("v")}
	same("constant", m, n, k, func(i, j int) float64 { return m.Value })
	same("constant transposed", m.T(), k, n, func(i, j int) float64 { return m.Value })
	same("constant copied", base.ToDense(m), n, k, func(i, j int) float64 { return m.Value })
}

// ContractTranspose: entry (i,j) of the transpose is entry (j,i); writes go through; transposing twice is the identity.
func ContractTranspose() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	X := spec.Matrix("X", n, k)
	X0 := mat.DenseCopyOf(X)
	T := base.MatTranspose{Matrix: X}
	same("transpose", T, k, n, func(i, j int) float64 { return X0.At(j, i) })
	same("transpose twice", T.T(), n, k, func(i, j int) float64 { return X0.At(i, j) })
	D := base.ToDense(T)
	same("dense copy of the transpose", D, k, n, func(i, j int) float64 { return X0.At(j, i) })
	p, q, v := spec.IntIn("p", 0, k-1), spec.IntIn("q", 0, n-1), spec.Float("v")
	T.Set(p, q, v)
	same("after Set", X, n, k, func(i, j int) float64 {
		if i == q && j == p {
			return v
		}
		return X0.At(i, j)
	})
	same("a dense copy is independent", D, k, n, func(i, j int) float64 { return X0.At(j, i) })
}

// ContractRowSlice: rows start..end-1 of the matrix, for reading and writing.
func ContractRowSlice() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	X := spec.Matrix("X", n, k)
	X0 := mat.DenseCopyOf(X)
	lo := spec.IntIn("start", 0, n-1)
	hi := lo + 1 + spec.IntIn("more", 0, n-lo-1)
	S := base.MatRowSlice{Matrix: X, Start: lo, End: hi}
	same("rows", S, hi-lo, k, func(i, j int) float64 { return X0.At(lo+i, j) })
	same("rows transposed", S.T(), k, hi-lo, func(i, j int) float64 { return X0.At(lo+j, i) })
	p, q, v := spec.IntIn("p", 0, hi-lo-1), spec.IntIn("q", 0, k-1), spec.Float("v")
	S.Set(p, q, v)
	same("after Set", X, n, k, func(i, j int) float64 {
		if i == lo+p && j == q {
			return v
		}
		return X0.At(i, j)
	})
}

// ContractDenseSlices: block, row and column slices show the block and share storage with the source.
func ContractDenseSlices() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	X := spec.Matrix("X", n, k)
	X0 := mat.DenseCopyOf(X)
	r0 := spec.IntIn("r0", 0, n-1)
	r1 := r0 + 1 + spec.IntIn("rows", 0, n-r0-1)
	c0 := spec.IntIn("c0", 0, k-1)
	c1 := c0 + 1 + spec.IntIn("cols", 0, k-c0-1)
	kind := spec.Choose("kind", 3)
	var S *mat.Dense
	switch kind {
	case 0:
		S = base.MatDenseSlice(X, r0, r1, c0, c1)
	case 1:
		S = base.MatDenseRowSlice(X, r0, r1)
		c0, c1 = 0, k
	default:
		S = base.MatDenseColSlice(X, c0, c1)
		r0, r1 = 0, n
	}
	same("block", S, r1-r0, c1-c0, func(i, j int) float64 { return X0.At(r0+i, c0+j) })
	p, q, v := spec.IntIn("p", 0, r1-r0-1), spec.IntIn("q", 0, c1-c0-1), spec.Float("v")
	S.Set(p, q, v)
	same("source after Set", X, n, k, func(i, j int) float64 {
		if i == r0+p && j == c0+q {
			return v
		}
		return X0.At(i, j)
	})
}

// ContractSliceOfSlice: a row slice of a column slice shows the block.
func ContractSliceOfSlice() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	X := spec.Matrix("X", n, k)
	r0 := spec.IntIn("r0", 0, n-1)
	r1 := r0 + 1 + spec.IntIn("rows", 0, n-r0-1)
	c0 := spec.IntIn("c0", 0, k-1)
	c1 := c0 + 1 + spec.IntIn("cols", 0, k-c0-1)
	S := base.MatDenseRowSlice(base.MatDenseColSlice(X, c0, c1), r0, r1)
	same("rows of columns", S, r1-r0, c1-c0, func(i, j int) float64 { return X.At(r0+i, c0+j) })
	R := base.MatDenseColSlice(base.MatDenseRowSlice(X, r0, r1), c0, c1)
	same("columns of rows", R, r1-r0, c1-c0, func(i, j int) float64 { return X.At(r0+i, c0+j) })
}

// ContractToFromDense: conversions keep the entries and FromDense fills the destination.
func ContractToFromDense() {
	n, k := spec.Nat("n", 1), spec.Nat("k", 1)
	X := spec.Matrix("X", n, k)
	X0 := mat.DenseCopyOf(X)
	spec.Assert("a dense matrix is returned as it is", base.ToDense(X) == X)
	same("transposed to dense", base.ToDense(X.T()), k, n, func(i, j int) float64 { return X0.At(j, i) })
	fz := spec.Freeze(X)
	D := spec.Matrix("D", n, k)
	spec.Assert("FromDense returns its source", base.FromDense(D, X) == X)
	same("dense destination", D, n, k, func(i, j int) float64 { return X0.At(i, j) })
	T := spec.Matrix("T", k, n)
	base.FromDense(base.MatTranspose{Matrix: T}, X)
	same("other destination", T, k, n, func(i, j int) float64 { return X0.At(j, i) })
	E := &mat.Dense{}
	spec.Assert("FromDense to an empty matrix returns its source", base.FromDense(E, X) == X)
	same("empty destination", E, n, k, func(i, j int) float64 { return X0.At(i, j) })
	spec.Assert("no destination", base.FromDense(nil, X) == X)
	spec.Assert("itself as destination", base.FromDense(X, X) == X)
	spec.Assert("source unchanged", spec.Unchanged(fz))
}

// ContractDimsCheck: compatible shapes are accepted.
func ContractDimsCheck() {
	n, k, m := spec.Nat("n", 1), spec.Nat("k", 1), spec.Nat("m", 1)
	op := []string{"+", "-", "*", "/"}[spec.Choose("op", 4)]
	base.MatDimsCheck(op, spec.Matrix("R", n, k), spec.Matrix("X", n, k), spec.Matrix("Y", n, k))
	X := spec.Matrix("V", n, k)
	base.MatDimsCheck(".", spec.Matrix("Q", n, m), X, spec.Matrix("W", k, m))
	same("operands unchanged", X, n, k, func(i, j int) float64 { return X.At(i, j) })
}

// BoundedDimsCheck: exactly the compatible shapes are accepted.
func BoundedDimsCheck() {
	op := []string{"+", "-", "*", "/", "."}[spec.Choose("op", 5)]
	var d [6]int
	for i := range d {
		d[i] = spec.IntIn("dim", 1, 2)
	}
	R, X, Y := mat.NewDense(d[0], d[1], nil), mat.NewDense(d[2], d[3], nil), mat.NewDense(d[4], d[5], nil)
	ok := d[2] == d[4] && d[3] == d[5] && d[0] == d[2] && d[1] == d[3]
	if op == "." {
		ok = d[3] == d[4] && d[0] == d[2] && d[1] == d[5]
	}
	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		base.MatDimsCheck(op, R, X, Y)
	}()
	spec.Assert("incompatible shapes are refused, compatible ones accepted", refused == !ok)
}

// BoundedRowSliceRange: a row slice shows no row outside its range.
func BoundedRowSliceRange() {
	n, k := spec.IntIn("n", 1, 4), spec.IntIn("k", 1, 3)
	X := spec.Matrix("X", n, k)
	start := spec.IntIn("start", 0, n-1)
	end := spec.IntIn("end", start+1, n)
	v := base.MatRowSlice{Matrix: X, Start: start, End: end}
	for i := -1; i <= n; i++ {
		refused := false
		func() {
			defer func() { refused = recover() != nil }()
			v.At(i, 0)
		}()
		spec.Assert("rows outside the range are refused", refused == (i < 0 || i >= end-start))
	}
}
