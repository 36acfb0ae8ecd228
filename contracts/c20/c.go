// Package c20 holds the contracts of the kernels of Gaussian processes.
package c20

import (
	"math"

	"github.com/pa-m/sklearn/gaussian_process/kernels"
	"github.com/pa-m/sklearn/gaussian_process/tensor"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

// ContractLeaves: the values and diagonals of the elementary kernels.
func ContractLeaves() {
	n, c := spec.Nat("n", 1), spec.Nat("c", 2)
	m := n
	X := spec.Matrix("X", n, c)
	Y := X
	var arg mat.Matrix
	if spec.Choose("Y", 2) == 1 {
		m = spec.Nat("m", 1)
		Y = spec.Matrix("Y", m, c)
		arg = Y
	}
	v := spec.Float("v")
	b := [2]float64{spec.Float("lo"), spec.Float("hi")}
	var k kernels.Kernel
	var f func(x, y func(j int) float64) float64
	eq := func(a, b float64) bool {
		return math.Abs(a-b) <= 1e-8 || math.Abs(a-b) <= 1e-8*math.Max(math.Abs(a), math.Abs(b))
	}
	switch spec.Choose("kernel", 5) {
	case 0:
		k = &kernels.ConstantKernel{ConstantValue: v, ConstantValueBounds: b}
		f = func(x, y func(j int) float64) float64 { return v }
	case 1:
		k = &kernels.WhiteKernel{NoiseLevel: v, NoiseLevelBounds: b}
		f = func(x, y func(j int) float64) float64 {
			return v * spec.B2F(spec.Forall(c, func(j int) bool { return eq(x(j), y(j)) }))
		}
	case 2:
		k = &kernels.DotProduct{Sigma0: v, Sigma0Bounds: b}
		f = func(x, y func(j int) float64) float64 {
			return v*v + spec.Sum(c, func(j int) float64 { return x(j) * y(j) })
		}
	case 3:
		l := spec.FloatsIn("l", 1, .1, 10)
		k = &kernels.RBF{LengthScale: l, LengthScaleBounds: make([][2]float64, 1)}
		f = func(x, y func(j int) float64) float64 {
			return math.Exp(-.5 * spec.Sum(c, func(j int) float64 { return (x(j)/l[0] - y(j)/l[0]) * (x(j)/l[0] - y(j)/l[0]) }))
		}
	case 4:
		l := spec.FloatsIn("l", c, .1, 10)
		k = &kernels.RBF{LengthScale: l, LengthScaleBounds: make([][2]float64, c)}
		f = func(x, y func(j int) float64) float64 {
			return math.Exp(-.5 * spec.Sum(c, func(j int) float64 { return (x(j)/l[j] - y(j)/l[j]) * (x(j)/l[j] - y(j)/l[j]) }))
		}
	}
	fz := spec.Freeze(X, Y)
	K, _ := k.Eval(X, arg, false)
	r, s := K.Dims()
	spec.Assert("a row per row of X and a column per row of Y", r == n && s == m)
	at := func(A *mat.Dense, i int) func(j int) float64 { return func(j int) float64 { return A.At(i, j) } }
	spec.Assert("values of the kernel", spec.Forall2(n, m, func(i, l int) bool { return spec.Eq(K.At(i, l), f(at(X, i), at(Y, l))) }))
	D := k.Diag(X)
	r, s = D.Dims()
	spec.Assert("a diagonal entry per row", r == n && s == n)
	spec.Assert("values of the diagonal", spec.Forall(n, func(i int) bool { return spec.Eq(D.At(i, i), f(at(X, i), at(X, i))) }))
	spec.Assert("samples unchanged", spec.Unchanged(fz))
}

// ContractOperators: sums, products and powers of arbitrary kernels have the sums, products and powers of their values, and gradients following from theirs.
func ContractOperators() {
	n, c := spec.Nat("n", 1), spec.Nat("c", 1)
	m := n
	X := spec.Matrix("X", n, c)
	var arg mat.Matrix
	if spec.Choose("Y", 2) == 1 {
		m = spec.Nat("m", 1)
		arg = spec.Matrix("Y", m, c)
	}
	k1, k2 := &rec{name: "K1"}, &rec{name: "K2"}
	e := spec.Float("e")
	op := kernels.KernelOperator{K1: k1, K2: k2}
	var k kernels.Kernel
	f := func(a, b float64) float64 { return a + b }
	kind := spec.Choose("operator", 3)
	switch kind {
	case 0:
		k = &kernels.Sum{KernelOperator: op}
	case 1:
		k = &kernels.Product{KernelOperator: op}
		f = func(a, b float64) float64 { return a * b }
	case 2:
		k1.positive = true
		k = &kernels.Exponentiation{Kernel: k1, Exponent: e}
		f = func(a, b float64) float64 { return math.Pow(a, e) }
	}
	K, _ := k.Eval(X, arg, false)
	r, s := K.Dims()
	spec.Assert("a row per row of X and a column per row of Y", r == n && s == m)
	spec.Assert("values", spec.Forall2(n, m, func(i, j int) bool {
		b := 0.
		if kind < 2 {
			b = k2.v.At(i, j)
		}
		return spec.Eq(K.At(i, j), f(k1.v.At(i, j), b))
	}))
	D := k.Diag(X)
	spec.Assert("diagonal", spec.Forall(n, func(i int) bool {
		b := 0.
		if kind < 2 {
			b = k2.d[i]
		}
		return spec.Eq(D.At(i, i), f(k1.d[i], b))
	}))
}

// rec is an arbitrary kernel that remembers what it returned.
type rec struct {
	kernels.Kernel
	name string
	p    int
	// in concrete executions only positive values (powers of negative numbers are not numbers)
	positive bool
	v        *mat.Dense
	d, g     []float64
}

func (k *rec) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *tensor.Dense) {
	n, _ := X.Dims()
	m := n
	if Y != mat.Matrix(nil) {
		m, _ = Y.Dims()
	}
	K := mat.DenseCopyOf(spec.Matrix(k.name, n, m))
	if k.positive && !spec.Symbolic() {
		K.Apply(func(i, j int, v float64) float64 { return math.Abs(v) + .1 }, K)
	}
	k.v = mat.DenseCopyOf(K)
	if !evalGradient {
		return K, nil
	}
	k.g = spec.Floats(k.name+" gradient", n*n*k.p)
	g := append([]float64{}, k.g...)
	return K, tensor.NewDense(tensor.Float64, tensor.Shape{n, n, k.p}, tensor.WithBacking(g))
}

func (k *rec) Diag(X mat.Matrix) *mat.DiagDense {
	n, _ := X.Dims()
	d := spec.Floats(k.name+" diagonal", n)
	if k.positive && !spec.Symbolic() {
		for i := range d {
			d[i] = math.Abs(d[i]) + .1
		}
	}
	k.d = append([]float64{}, d...)
	return mat.NewDiagDense(n, d)
}

// ContractRBFGradient: the gradient of the isotropic RBF kernel by the logarithm of its length scale.
func ContractRBFGradient() {
	n, c := spec.Nat("n", 1), spec.Nat("c", 2)
	X := spec.Matrix("X", n, c)
	b := [2]float64{1, 2}
	np := 1
	if spec.Choose("fixed", 2) == 1 {
		b = [2]float64{1, 1}
		np = 0
	}
	l := spec.FloatsIn("l", 1, .1, 10)
	k := &kernels.RBF{LengthScale: l, LengthScaleBounds: [][2]float64{b}}
	_, Kg := k.Eval(X, nil, true)
	s := Kg.Shape()
	spec.Assert("shape of the gradient", len(s) == 3 && s[0] == n && s[1] == n && s[2] == np)
	if np == 1 {
		d := Kg.Data().([]float64)
		st := Kg.Strides()
		spec.Assert("values of the gradient", spec.Forall2(n, n, func(i, j int) bool {
			d2 := spec.Sum(c, func(f int) float64 {
				return (X.At(i, f)/l[0] - X.At(j, f)/l[0]) * (X.At(i, f)/l[0] - X.At(j, f)/l[0])
			})
			return d[i*st[0]+j*st[1]] == math.Exp(-.5*d2)*d2
		}))
	}
}

// ContractOperatorGradients: the gradients of sums and powers of arbitrary kernels follow from theirs.
func ContractOperatorGradients() {
	n, c := spec.Nat("n", 1), spec.Nat("c", 1)
	X := spec.Matrix("X", n, c)
	k1, k2 := &rec{name: "K1", p: 1 + spec.Choose("p1", 2)}, &rec{name: "K2", p: 1 + spec.Choose("p2", 2)}
	p1, p2 := k1.p, k2.p
	e := spec.Float("e")
	op := kernels.KernelOperator{K1: k1, K2: k2}
	var k kernels.Kernel
	power := spec.Choose("operator", 2) == 1
	if !power {
		k = &kernels.Sum{KernelOperator: op}
	} else {
		k1.positive = true
		k = &kernels.Exponentiation{Kernel: k1, Exponent: e}
		p2 = 0
	}
	_, Kg := k.Eval(X, nil, true)
	s := Kg.Shape()
	spec.Assert("shape of the gradient", len(s) == 3 && s[0] == n && s[1] == n && s[2] == p1+p2)
	d := Kg.Data().([]float64)
	i, j := spec.IntIn("i", 0, n-1), spec.IntIn("j", 0, n-1)
	l := spec.IntIn("l", 0, p1-1)
	f := 1.
	if power {
		f = e * math.Pow(k1.v.At(i, j), e-1)
	}
	spec.Assert("gradient by parameters of the first kernel", spec.Eq(d[(i*n+j)*(p1+p2)+l], f*k1.g[(i*n+j)*p1+l]))
	if !power {
		l = spec.IntIn("l2", 0, p2-1)
		spec.Assert("gradient by parameters of the second kernel", spec.Eq(d[(i*n+j)*(p1+p2)+p1+l], f*k2.g[(i*n+j)*p2+l]))
	}
}
