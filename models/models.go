// Package models holds the assumed contracts of the functions of gonum and of the standard library that the
// repository calls, written as simple Go code that govc executes in place of the library function.
// The functions in helpers.go are interpreted by govc; their bodies here serve the differential test of
// the models against the real library.
package models

import (
	"math"

	"gonum.org/v1/gonum/blas"
	"gonum.org/v1/gonum/blas/blas64"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/stat"
)

// ---- mat.Dense

func Dense_At(m *mat.Dense, i, j int) float64 {
	r := m.RawMatrix()
	if i < 0 || i >= r.Rows {
		panic("row index out of range")
	}
	if j < 0 || j >= r.Cols {
		panic("column index out of range")
	}
	return r.Data[i*r.Stride+j]
}

func Dense_Set(m *mat.Dense, i, j int, v float64) {
	r := m.RawMatrix()
	if i < 0 || i >= r.Rows {
		panic("row index out of range")
	}
	if j < 0 || j >= r.Cols {
		panic("column index out of range")
	}
	r.Data[i*r.Stride+j] = v
}

func Dense_Dims(m *mat.Dense) (int, int) {
	r := m.RawMatrix()
	return r.Rows, r.Cols
}

func Dense_IsEmpty(m *mat.Dense) bool { return m.RawMatrix().Stride == 0 }

func Dense_Reset(m *mat.Dense) {
	m.SetRawMatrix(blas64.General{Data: m.RawMatrix().Data[:0]})
}

func Mat_NewDense(r, c int, data []float64) *mat.Dense {
	if r <= 0 || c <= 0 {
		panic("zero length or negative dimension")
	}
	if data != nil && r*c != len(data) {
		panic("dimension mismatch")
	}
	if data == nil {
		data = make([]float64, r*c)
	}
	m := new(mat.Dense)
	noteStride(c)
	m.SetRawMatrix(blas64.General{Rows: r, Cols: c, Stride: c, Data: data})
	return m
}

// use makes m r x c (gonum reuseAs): an empty receiver is allocated, otherwise the shape has to agree.
func use(m *mat.Dense, r, c int) {
	if r == 0 || c == 0 {
		panic("zero length")
	}
	rm := m.RawMatrix()
	if rm.Stride == 0 {
		noteStride(c)
		m.SetRawMatrix(blas64.General{Rows: r, Cols: c, Stride: c, Data: make([]float64, r*c)})
		return
	}
	if rm.Rows != r || rm.Cols != c {
		panic("dimension mismatch")
	}
}

func Dense_T(m *mat.Dense) mat.Matrix { return mat.Transpose{Matrix: m} }

func Transpose_At(t mat.Transpose, i, j int) float64 { return t.Matrix.At(j, i) }

func Transpose_Dims(t mat.Transpose) (int, int) {
	r, c := t.Matrix.Dims()
	return c, r
}

func Transpose_T(t mat.Transpose) mat.Matrix { return t.Matrix }

func Dense_Zero(m *mat.Dense) { fill(m, func(i, j int) float64 { return 0 }) }

func binop(m *mat.Dense, a, b mat.Matrix, f func(x, y float64) float64) {
	ar, ac := a.Dims()
	br, bc := b.Dims()
	if ar != br || ac != bc {
		panic("dimension mismatch")
	}
	// shape is fixed before the operands are read: the receiver may be one of them
	use(m, ar, ac)
	fill(m, func(i, j int) float64 { return f(a.At(i, j), b.At(i, j)) })
}

func Dense_Add(m *mat.Dense, a, b mat.Matrix) {
	binop(m, a, b, func(x, y float64) float64 { return x + y })
}

func Dense_Sub(m *mat.Dense, a, b mat.Matrix) {
	binop(m, a, b, func(x, y float64) float64 { return x - y })
}

func Dense_MulElem(m *mat.Dense, a, b mat.Matrix) {
	binop(m, a, b, func(x, y float64) float64 { return x * y })
}

func Dense_DivElem(m *mat.Dense, a, b mat.Matrix) {
	binop(m, a, b, func(x, y float64) float64 { return x / y })
}

func Dense_Scale(m *mat.Dense, f float64, a mat.Matrix) {
	ar, ac := a.Dims()
	use(m, ar, ac)
	fill(m, func(i, j int) float64 { return f * a.At(i, j) })
}

func Dense_Mul(m *mat.Dense, a, b mat.Matrix) {
	ar, ac := a.Dims()
	br, bc := b.Dims()
	if ac != br {
		panic("dimension mismatch")
	}
	use(m, ar, bc)
	fill(m, func(i, j int) float64 {
		return sum(ac, func(k int) float64 { return a.At(i, k) * b.At(k, j) })
	})
}

func Dense_Apply(m *mat.Dense, fn func(i, j int, v float64) float64, a mat.Matrix) {
	r, c := a.Dims()
	use(m, r, c)
	tmp := make([]float64, r*c)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			tmp[i*c+j] = fn(i, j, a.At(i, j))
		}
	}
	fill(m, func(i, j int) float64 { return tmp[i*c+j] })
}

func Dense_CloneFrom(m *mat.Dense, a mat.Matrix) {
	r, c := a.Dims()
	t := new(mat.Dense)
	t.SetRawMatrix(blas64.General{Rows: r, Cols: c, Stride: c, Data: make([]float64, r*c)})
	fill(t, func(i, j int) float64 { return a.At(i, j) })
	m.SetRawMatrix(t.RawMatrix())
}

func Mat_DenseCopyOf(a mat.Matrix) *mat.Dense {
	d := new(mat.Dense)
	Dense_CloneFrom(d, a)
	return d
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func Dense_Copy(m *mat.Dense, a mat.Matrix) (r, c int) {
	ar, ac := a.Dims()
	mr, mc := m.Dims()
	r, c = imin(ar, mr), imin(ac, mc)
	if r == 0 || c == 0 {
		return 0, 0
	}
	if r == mr && c == mc {
		fill(m, func(i, j int) float64 { return a.At(i, j) })
	} else {
		t := m.RawMatrix()
		t.Rows, t.Cols = r, c
		t.Data = t.Data[:(r-1)*t.Stride+c]
		p := new(mat.Dense)
		p.SetRawMatrix(t)
		fill(p, func(i, j int) float64 { return a.At(i, j) })
	}
	return r, c
}

func Dense_SetRow(m *mat.Dense, i int, src []float64) {
	r := m.RawMatrix()
	if i < 0 || i >= r.Rows {
		panic("row index out of range")
	}
	if len(src) != r.Cols {
		panic("row length mismatch")
	}
	copy(r.Data[i*r.Stride:i*r.Stride+r.Cols], src)
}

func Dense_SetCol(m *mat.Dense, j int, src []float64) {
	r := m.RawMatrix()
	if j < 0 || j >= r.Cols {
		panic("column index out of range")
	}
	if len(src) != r.Rows {
		panic("column length mismatch")
	}
	for i := 0; i < r.Rows; i++ {
		r.Data[i*r.Stride+j] = src[i]
	}
}

func Dense_RawRowView(m *mat.Dense, i int) []float64 {
	r := m.RawMatrix()
	if i < 0 || i >= r.Rows {
		panic("row index out of range")
	}
	return r.Data[i*r.Stride : i*r.Stride+r.Cols]
}

func newVec(n, inc int, data []float64) *mat.VecDense {
	v := new(mat.VecDense)
	setVec(v, blas64.Vector{N: n, Inc: inc, Data: data})
	return v
}

func Dense_RowView(m *mat.Dense, i int) mat.Vector {
	return newVec(m.RawMatrix().Cols, 1, Dense_RawRowView(m, i))
}

func Dense_ColView(m *mat.Dense, j int) mat.Vector {
	r := m.RawMatrix()
	if j < 0 || j >= r.Cols {
		panic("column index out of range")
	}
	return newVec(r.Rows, r.Stride, r.Data[j:(r.Rows-1)*r.Stride+j+1])
}

func VecDense_ColViewOf(v *mat.VecDense, m mat.RawMatrixer, j int) {
	r := m.RawMatrix()
	if j < 0 || j >= r.Cols {
		panic("column index out of range")
	}
	setVec(v, blas64.Vector{N: r.Rows, Inc: r.Stride, Data: r.Data[j : (r.Rows-1)*r.Stride+j+1]})
}

func VecDense_RowViewOf(v *mat.VecDense, m mat.RawMatrixer, i int) {
	r := m.RawMatrix()
	if i < 0 || i >= r.Rows {
		panic("row index out of range")
	}
	setVec(v, blas64.Vector{N: r.Cols, Inc: 1, Data: r.Data[i*r.Stride : i*r.Stride+r.Cols]})
}

func Dense_Slice(m *mat.Dense, i, k, j, l int) mat.Matrix {
	r := m.RawMatrix()
	mr, mc := m.Caps()
	if i < 0 || mr <= i || j < 0 || mc <= j || k < i || mr < k || l < j || mc < l {
		panic("slice index out of range")
	}
	t := new(mat.Dense)
	t.SetRawMatrix(blas64.General{Rows: k - i, Cols: l - j, Stride: r.Stride, Data: r.Data[i*r.Stride+j : (k-1)*r.Stride+l]})
	setCaps(t, mr-i, mc-j)
	return t
}

// ---- mat.VecDense

func Mat_NewVecDense(n int, data []float64) *mat.VecDense {
	if n <= 0 {
		panic("zero length or negative dimension")
	}
	if data != nil && len(data) != n {
		panic("dimension mismatch")
	}
	if data == nil {
		data = make([]float64, n)
	}
	return newVec(n, 1, data)
}

func VecDense_Dims(v *mat.VecDense) (int, int) {
	r := v.RawVector()
	if r.Inc == 0 {
		return 0, 0
	}
	return r.N, 1
}

func VecDense_Len(v *mat.VecDense) int { return v.RawVector().N }

func VecDense_IsEmpty(v *mat.VecDense) bool { return v.RawVector().Inc == 0 }

func VecDense_T(v *mat.VecDense) mat.Matrix { return mat.TransposeVec{Vector: v} }

func TransposeVec_At(t mat.TransposeVec, i, j int) float64 { return t.Vector.At(j, i) }

func TransposeVec_Dims(t mat.TransposeVec) (int, int) {
	r, c := t.Vector.Dims()
	return c, r
}

func TransposeVec_T(t mat.TransposeVec) mat.Matrix { return t.Vector }

func VecDense_AtVec(v *mat.VecDense, i int) float64 {
	r := v.RawVector()
	if i < 0 || i >= r.N {
		panic("row index out of range")
	}
	return r.Data[i*r.Inc]
}

func VecDense_At(v *mat.VecDense, i, j int) float64 {
	if j != 0 {
		panic("column index out of range")
	}
	return VecDense_AtVec(v, i)
}

func VecDense_SetVec(v *mat.VecDense, i int, x float64) {
	r := v.RawVector()
	if i < 0 || i >= r.N {
		panic("row index out of range")
	}
	r.Data[i*r.Inc] = x
}

func useVec(v *mat.VecDense, n int) {
	if n == 0 {
		panic("zero length")
	}
	r := v.RawVector()
	if r.Inc == 0 {
		setVec(v, blas64.Vector{N: n, Inc: 1, Data: make([]float64, n)})
		return
	}
	if r.N != n {
		panic("dimension mismatch")
	}
}

func vecop(v *mat.VecDense, a, b mat.Vector, f func(x, y float64) float64) {
	if a.Len() != b.Len() {
		panic("dimension mismatch")
	}
	useVec(v, a.Len())
	fillVec(v, func(i int) float64 { return f(a.AtVec(i), b.AtVec(i)) })
}

func VecDense_AddVec(v *mat.VecDense, a, b mat.Vector) {
	vecop(v, a, b, func(x, y float64) float64 { return x + y })
}

func VecDense_SubVec(v *mat.VecDense, a, b mat.Vector) {
	vecop(v, a, b, func(x, y float64) float64 { return x - y })
}

func VecDense_MulElemVec(v *mat.VecDense, a, b mat.Vector) {
	vecop(v, a, b, func(x, y float64) float64 { return x * y })
}

func VecDense_DivElemVec(v *mat.VecDense, a, b mat.Vector) {
	vecop(v, a, b, func(x, y float64) float64 { return x / y })
}

func VecDense_AddScaledVec(v *mat.VecDense, a mat.Vector, alpha float64, b mat.Vector) {
	vecop(v, a, b, func(x, y float64) float64 { return x + alpha*y })
}

func VecDense_ScaleVec(v *mat.VecDense, alpha float64, a mat.Vector) {
	useVec(v, a.Len())
	fillVec(v, func(i int) float64 { return alpha * a.AtVec(i) })
}

func VecDense_CopyVec(v *mat.VecDense, a mat.Vector) int {
	n := imin(v.Len(), a.Len())
	t := v.RawVector()
	t.N = n
	p := new(mat.VecDense)
	setVec(p, t)
	fillVec(p, func(i int) float64 { return a.AtVec(i) })
	return n
}

func VecDense_MulVec(v *mat.VecDense, a mat.Matrix, b mat.Vector) {
	r, c := a.Dims()
	br, bc := b.Dims()
	if c != br || bc != 1 {
		panic("dimension mismatch")
	}
	useVec(v, r)
	fillVec(v, func(i int) float64 {
		return sum(c, func(k int) float64 { return a.At(i, k) * b.AtVec(k) })
	})
}

// ---- mat functions

func Mat_NewDiagDense(n int, data []float64) *mat.DiagDense {
	if n <= 0 {
		panic("mat: non-positive dimension")
	}
	if data == nil {
		data = make([]float64, n)
	}
	if len(data) != n {
		panic(mat.ErrShape)
	}
	d := &mat.DiagDense{}
	setDiag(d, blas64.Vector{N: n, Inc: 1, Data: data})
	return d
}

func DiagDense_Dims(d *mat.DiagDense) (int, int) { return rawDiag(d).N, rawDiag(d).N }

func DiagDense_Diag(d *mat.DiagDense) int { return rawDiag(d).N }

func DiagDense_At(d *mat.DiagDense, i, j int) float64 {
	r := rawDiag(d)
	if i < 0 || i >= r.N {
		panic(mat.ErrRowAccess)
	}
	if j < 0 || j >= r.N {
		panic(mat.ErrColAccess)
	}
	if i != j {
		return 0
	}
	return r.Data[i*r.Inc]
}

func DiagDense_SetDiag(d *mat.DiagDense, i int, v float64) {
	r := rawDiag(d)
	if i < 0 || i >= r.N {
		panic(mat.ErrRowAccess)
	}
	r.Data[i*r.Inc] = v
}

func DiagDense_RawBand(d *mat.DiagDense) blas64.Band {
	r := rawDiag(d)
	return blas64.Band{Rows: r.N, Cols: r.N, KL: 0, KU: 0, Stride: r.Inc, Data: r.Data}
}

func Mat_Col(dst []float64, j int, a mat.Matrix) []float64 {
	r, c := a.Dims()
	if j < 0 || j >= c {
		panic("column index out of range")
	}
	if dst == nil {
		dst = make([]float64, r)
	} else if len(dst) != r {
		panic("column length mismatch")
	}
	fillSlice(dst, func(i int) float64 { return a.At(i, j) })
	return dst
}

func Mat_Row(dst []float64, i int, a mat.Matrix) []float64 {
	r, c := a.Dims()
	if i < 0 || i >= r {
		panic("row index out of range")
	}
	if dst == nil {
		dst = make([]float64, c)
	} else if len(dst) != c {
		panic("row length mismatch")
	}
	fillSlice(dst, func(j int) float64 { return a.At(i, j) })
	return dst
}

func Mat_Dot(a, b mat.Vector) float64 {
	if a.Len() != b.Len() {
		panic("dimension mismatch")
	}
	return sum(a.Len(), func(i int) float64 { return a.AtVec(i) * b.AtVec(i) })
}

func Mat_Sum(a mat.Matrix) float64 {
	r, c := a.Dims()
	return sum(r, func(i int) float64 { return sum(c, func(j int) float64 { return a.At(i, j) }) })
}

func Mat_Max(a mat.Matrix) float64 {
	r, c := a.Dims()
	if r == 0 || c == 0 {
		panic("zero length")
	}
	return maxf(r, func(i int) float64 { return maxf(c, func(j int) float64 { return a.At(i, j) }) })
}

func Mat_Min(a mat.Matrix) float64 {
	r, c := a.Dims()
	if r == 0 || c == 0 {
		panic("zero length")
	}
	return -maxf(r, func(i int) float64 { return maxf(c, func(j int) float64 { return -a.At(i, j) }) })
}

func Mat_Norm(a mat.Matrix, p float64) float64 {
	r, c := a.Dims()
	if r == 0 || c == 0 {
		panic("zero length")
	}
	if p == 2 {
		return math.Sqrt(sum(r, func(i int) float64 {
			return sum(c, func(j int) float64 { return a.At(i, j) * a.At(i, j) })
		}))
	}
	if p == 1 {
		return maxf(c, func(j int) float64 {
			return sum(r, func(i int) float64 { return math.Abs(a.At(i, j)) })
		})
	}
	if math.IsInf(p, 1) {
		return maxf(r, func(i int) float64 {
			return sum(c, func(j int) float64 { return math.Abs(a.At(i, j)) })
		})
	}
	panic("invalid norm order for matrix")
}

// ---- floats

func sameLen(a, b []float64) {
	if len(a) != len(b) {
		panic("lengths of the slices do not match")
	}
}

func Floats_Sum(s []float64) float64 { return sum(len(s), func(i int) float64 { return s[i] }) }

func Floats_Dot(a, b []float64) float64 {
	sameLen(a, b)
	return sum(len(a), func(i int) float64 { return a[i] * b[i] })
}

func Floats_Add(dst, s []float64) {
	sameLen(dst, s)
	fillSlice(dst, func(i int) float64 { return dst[i] + s[i] })
}

func Floats_AddConst(c float64, dst []float64) {
	fillSlice(dst, func(i int) float64 { return dst[i] + c })
}

func Floats_Scale(c float64, dst []float64) {
	fillSlice(dst, func(i int) float64 { return dst[i] * c })
}

func Floats_ScaleTo(dst []float64, c float64, s []float64) []float64 {
	sameLen(dst, s)
	fillSlice(dst, func(i int) float64 { return c * s[i] })
	return dst
}

func Floats_Div(dst, s []float64) {
	sameLen(dst, s)
	fillSlice(dst, func(i int) float64 { return dst[i] / s[i] })
}

func Floats_Mul(dst, s []float64) {
	sameLen(dst, s)
	fillSlice(dst, func(i int) float64 { return dst[i] * s[i] })
}

func Floats_Sub(dst, s []float64) {
	sameLen(dst, s)
	fillSlice(dst, func(i int) float64 { return dst[i] - s[i] })
}

func Floats_MulTo(dst, s, t []float64) []float64 {
	sameLen(dst, s)
	sameLen(dst, t)
	fillSlice(dst, func(i int) float64 { return s[i] * t[i] })
	return dst
}

func Floats_AddTo(dst, s, t []float64) []float64 {
	sameLen(s, t)
	sameLen(dst, s)
	fillSlice(dst, func(i int) float64 { return s[i] + t[i] })
	return dst
}

func Floats_SubTo(dst, s, t []float64) []float64 {
	sameLen(s, t)
	sameLen(dst, s)
	fillSlice(dst, func(i int) float64 { return s[i] - t[i] })
	return dst
}

func Floats_DivTo(dst, s, t []float64) []float64 {
	sameLen(s, t)
	sameLen(dst, s)
	fillSlice(dst, func(i int) float64 { return s[i] / t[i] })
	return dst
}

func Floats_AddScaled(dst []float64, alpha float64, s []float64) {
	sameLen(dst, s)
	fillSlice(dst, func(i int) float64 { return dst[i] + alpha*s[i] })
}

func Floats_AddScaledTo(dst, y []float64, alpha float64, s []float64) []float64 {
	sameLen(dst, s)
	sameLen(dst, y)
	fillSlice(dst, func(i int) float64 { return y[i] + alpha*s[i] })
	return dst
}

func pnorm(n int, L float64, f func(i int) float64) float64 {
	if n == 0 {
		return 0
	}
	if L == 2 {
		return math.Sqrt(sum(n, func(i int) float64 { return f(i) * f(i) }))
	}
	if L == 1 {
		return sum(n, func(i int) float64 { return math.Abs(f(i)) })
	}
	if math.IsInf(L, 1) {
		return maxf(n, func(i int) float64 { return math.Abs(f(i)) })
	}
	return math.Pow(sum(n, func(i int) float64 { return math.Pow(math.Abs(f(i)), L) }), 1/L)
}

func Floats_Norm(s []float64, L float64) float64 {
	return pnorm(len(s), L, func(i int) float64 { return s[i] })
}

func Floats_Distance(s, t []float64, L float64) float64 {
	sameLen(s, t)
	return pnorm(len(s), L, func(i int) float64 { return t[i] - s[i] })
}

func Floats_MaxIdx(s []float64) int {
	if len(s) == 0 {
		panic("zero slice length")
	}
	m := maxf(len(s), func(i int) float64 { return s[i] })
	return first(len(s), func(i int) bool { return s[i] == m })
}

func Floats_MinIdx(s []float64) int {
	if len(s) == 0 {
		panic("zero slice length")
	}
	m := minf(len(s), func(i int) float64 { return s[i] })
	return first(len(s), func(i int) bool { return s[i] == m })
}

func Floats_Max(s []float64) float64 {
	if len(s) == 0 {
		panic("zero slice length")
	}
	return maxf(len(s), func(i int) float64 { return s[i] })
}

func Floats_Min(s []float64) float64 {
	if len(s) == 0 {
		panic("zero slice length")
	}
	return minf(len(s), func(i int) float64 { return s[i] })
}

func Floats_LogSumExp(s []float64) float64 {
	if len(s) == 0 {
		panic("zero slice length")
	}
	return math.Log(sum(len(s), func(i int) float64 { return math.Exp(s[i]) }))
}

func Floats_EqualApprox(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	return all(len(a), func(i int) bool { return math.Abs(a[i]-b[i]) <= tol || math.Abs(a[i]-b[i]) <= tol*math.Max(math.Abs(a[i]), math.Abs(b[i])) })
}

// ---- stat

func Stat_Mean(x, w []float64) float64 {
	if w == nil {
		return sum(len(x), func(i int) float64 { return x[i] }) / float64(len(x))
	}
	sameLen(x, w)
	return sum(len(x), func(i int) float64 { return x[i] * w[i] }) / sum(len(x), func(i int) float64 { return w[i] })
}

func Stat_MeanStdDev(x, w []float64) (float64, float64) {
	if w != nil {
		panic("weighted standard deviation not modelled")
	}
	m := Stat_Mean(x, nil)
	return m, math.Sqrt(sum(len(x), func(i int) float64 { return (x[i] - m) * (x[i] - m) }) / float64(len(x)-1))
}

func Stat_MeanVariance(x, w []float64) (float64, float64) {
	if w != nil {
		panic("weighted variance not modelled")
	}
	m := Stat_Mean(x, nil)
	return m, sum(len(x), func(i int) float64 { return (x[i] - m) * (x[i] - m) }) / float64(len(x)-1)
}

func Stat_Variance(x, w []float64) float64 {
	_, v := Stat_MeanVariance(x, w)
	return v
}

func Stat_StdDev(x, w []float64) float64 {
	_, d := Stat_MeanStdDev(x, w)
	return d
}

func Stat_Quantile(p float64, c stat.CumulantKind, x, w []float64) float64 {
	if !(p >= 0 && p <= 1) {
		panic("percentile out of bounds")
	}
	if w != nil {
		panic("weighted quantile not modelled")
	}
	if !all(len(x)-1, func(i int) bool { return x[i] <= x[i+1] }) {
		panic("input data are not sorted")
	}
	n := float64(len(x))
	if c == stat.Empirical {
		// first i whose cumulative count reaches p*n (the last one does, as p <= 1)
		i := first(len(x)-1, func(i int) bool { return float64(i+1) >= p*n })
		return x[i]
	}
	// LinInterp
	i := first(len(x)-1, func(i int) bool { return float64(i+1) >= p*n })
	if i == 0 {
		return x[0]
	}
	t := float64(i+1) - p*n
	return t*x[i-1] + (1-t)*x[i]
}

// ---- sort

func Sort_Float64s(x []float64) { sortFloats(x) }

func Sort_Float64sAreSorted(x []float64) bool {
	return all(len(x)-1, func(i int) bool { return x[i] <= x[i+1] })
}

// Sort_SearchFloat64s: for a sorted slice this is the least index whose entry is >= v. Callers here
// always search sorted slices; on an unsorted one the result is only known to be in range.
func Sort_SearchFloat64s(a []float64, v float64) int {
	if all(len(a)-1, func(i int) bool { return a[i] <= a[i+1] }) {
		return first(len(a), func(i int) bool { return a[i] >= v })
	}
	return randInt(len(a) + 1)
}

// ---- blas64

func Blas64_Dot(x, y blas64.Vector) float64 {
	if x.N != y.N {
		panic("dimension mismatch")
	}
	return sum(x.N, func(i int) float64 { return x.Data[i*x.Inc] * y.Data[i*y.Inc] })
}

func Blas64_Asum(x blas64.Vector) float64 {
	return sum(x.N, func(i int) float64 { return math.Abs(x.Data[i*x.Inc]) })
}

func Blas64_Iamax(x blas64.Vector) int {
	if x.N == 0 {
		return -1
	}
	m := maxf(x.N, func(i int) float64 { return math.Abs(x.Data[i*x.Inc]) })
	return first(x.N, func(i int) bool { return math.Abs(x.Data[i*x.Inc]) == m })
}

func Blas64_Axpy(alpha float64, x, y blas64.Vector) {
	if x.N != y.N {
		panic("dimension mismatch")
	}
	v := new(mat.VecDense)
	setVec(v, y)
	fillVec(v, func(i int) float64 { return y.Data[i*y.Inc] + alpha*x.Data[i*x.Inc] })
}

func gdims(t blas.Transpose, a blas64.General) (int, int) {
	if t == blas.NoTrans {
		return a.Rows, a.Cols
	}
	return a.Cols, a.Rows
}

func gat(t blas.Transpose, a blas64.General, i, j int) float64 {
	if t == blas.NoTrans {
		return a.Data[i*a.Stride+j]
	}
	return a.Data[j*a.Stride+i]
}

func Blas64_Gemm(tA, tB blas.Transpose, alpha float64, a, b blas64.General, beta float64, c blas64.General) {
	m, k := gdims(tA, a)
	k2, n := gdims(tB, b)
	if k != k2 || c.Rows != m || c.Cols != n {
		panic("dimension mismatch")
	}
	d := new(mat.Dense)
	d.SetRawMatrix(c)
	fill(d, func(i, j int) float64 {
		return beta*c.Data[i*c.Stride+j] + alpha*sum(k, func(l int) float64 { return gat(tA, a, i, l) * gat(tB, b, l, j) })
	})
}
