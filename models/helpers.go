package models

import (
	"math"
	"math/rand"
	"reflect"
	"sort"
	"unsafe"

	"gonum.org/v1/gonum/blas/blas64"
	"gonum.org/v1/gonum/mat"
)

// sum of f(i) over 0<=i<n.
func sum(n int, f func(i int) float64) float64 {
	s := 0.
	for i := 0; i < n; i++ {
		s += f(i)
	}
	return s
}

// maxf is the greatest f(i) over 0<=i<n (n>=1).
func maxf(n int, f func(i int) float64) float64 {
	s := math.Inf(-1)
	for i := 0; i < n; i++ {
		s = math.Max(s, f(i))
	}
	return s
}

// minf is the least f(i) over 0<=i<n (n>=1).
func minf(n int, f func(i int) float64) float64 {
	s := math.Inf(1)
	for i := 0; i < n; i++ {
		s = math.Min(s, f(i))
	}
	return s
}

// first 0<=i<n with f(i), else n.
func first(n int, f func(i int) bool) int {
	for i := 0; i < n; i++ {
		if f(i) {
			return i
		}
	}
	return n
}

// all is f(i) for every 0<=i<n.
func all(n int, f func(i int) bool) bool {
	for i := 0; i < n; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// fill sets m[i,j] to f(i,j), every f evaluated before the first write.
func fill(m *mat.Dense, f func(i, j int) float64) {
	r := m.RawMatrix()
	t := make([]float64, r.Rows*r.Cols)
	for i := 0; i < r.Rows; i++ {
		for j := 0; j < r.Cols; j++ {
			t[i*r.Cols+j] = f(i, j)
		}
	}
	for i := 0; i < r.Rows; i++ {
		copy(r.Data[i*r.Stride:i*r.Stride+r.Cols], t[i*r.Cols:(i+1)*r.Cols])
	}
}

// fillVec sets v[i] to f(i), every f evaluated before the first write.
func fillVec(v *mat.VecDense, f func(i int) float64) {
	r := v.RawVector()
	t := make([]float64, r.N)
	for i := range t {
		t[i] = f(i)
	}
	for i := range t {
		r.Data[i*r.Inc] = t[i]
	}
}

// fillSlice sets s[i] to f(i), every f evaluated before the first write.
func fillSlice(s []float64, f func(i int) float64) {
	t := make([]float64, len(s))
	for i := range t {
		t[i] = f(i)
	}
	copy(s, t)
}

func setVec(v *mat.VecDense, r blas64.Vector) {
	*(*blas64.Vector)(unsafe.Pointer(v)) = r
}

func setDiag(v *mat.DiagDense, r blas64.Vector) {
	*(*blas64.Vector)(unsafe.Pointer(v)) = r
}

func rawDiag(v *mat.DiagDense) blas64.Vector { return *(*blas64.Vector)(unsafe.Pointer(v)) }

func setCaps(m *mat.Dense, r, c int) {
	e := reflect.ValueOf(m).Elem()
	*(*int)(unsafe.Pointer(e.Field(1).UnsafeAddr())) = r
	*(*int)(unsafe.Pointer(e.Field(2).UnsafeAddr())) = c
}

// noteStride tells the verifier of a row length (no effect on the state).
func noteStride(c int) {}

func sortFloats(x []float64) { sort.Float64s(x) }

// randReal is an arbitrary real.
func randReal() float64 { return rand.NormFloat64() }

// randInt is an arbitrary integer in [0,n).
func randInt(n int) int { return rand.Intn(n) }
