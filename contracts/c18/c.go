// Package c18: multilayer perceptrons.
package c18

import (
	"math"

	nn "github.com/pa-m/sklearn/neural_network"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/blas/blas64"
	"gonum.org/v1/gonum/mat"
)

func name(k int) string {
	switch k {
	case 0:
		return "identity"
	case 1:
		return "logistic"
	case 2:
		return "tanh"
	}
	return "relu"
}

func act(k int, v float64) float64 {
	switch k {
	case 1:
		return 1 / (1 + math.Exp(-v))
	case 2:
		return math.Tanh(v)
	case 3:
		if v < 0 {
			return 0
		}
	}
	return v
}

// ContractActivations: every activation function, in place, on any view.
func ContractActivations() {
	r, c := spec.Nat("r", 1), spec.Nat("c", 1)
	Z := spec.Matrix("Z", r, c)
	old := mat.DenseCopyOf(Z)
	k := spec.Choose("activation", 5)
	i, j := spec.IntIn("i", 0, r-1), spec.IntIn("j", 0, c-1)
	if k < 4 {
		nn.Activations64[name(k)](Z.RawMatrix())
		spec.Assert("activation", spec.Eq(Z.At(i, j), act(k, old.At(i, j))))
		return
	}
	nn.Activations64["softmax"](Z.RawMatrix())
	sum := spec.Sum(c, func(l int) float64 { return math.Exp(old.At(i, l)) })
	spec.Assert("softmax", spec.Eq(Z.At(i, j), math.Exp(old.At(i, j))/sum))
}

// ContractDerivatives: deltas are multiplied by the derivative of the activation, given its value.
func ContractDerivatives() {
	r, c := spec.Nat("r", 1), spec.Nat("c", 1)
	Z, D := spec.Matrix("Z", r, c), spec.Matrix("D", r, c)
	old := mat.DenseCopyOf(D)
	fz := spec.Freeze(Z)
	k := spec.Choose("activation", 4)
	i, j := spec.IntIn("i", 0, r-1), spec.IntIn("j", 0, c-1)
	nn.Derivatives64[name(k)](Z.RawMatrix(), D.RawMatrix())
	z := Z.At(i, j)
	f := 1.
	switch k {
	case 1:
		f = z * (1 - z)
	case 2:
		f = 1 - z*z
	case 3:
		if z == 0 {
			f = 0
		}
	}
	spec.Assert("delta times derivative", spec.Eq(D.At(i, j), f*old.At(i, j)))
	spec.Assert("values unchanged", spec.Unchanged(fz))
}

// ContractLosses: the losses are means over the samples.
func ContractLosses() {
	r, c := spec.Nat("r", 1), spec.Nat("c", 1)
	Y := spec.Matrix("Y", r, c)
	k := spec.Choose("loss", 3)
	var H *mat.Dense
	if k == 0 {
		H = spec.Matrix("H", r, c)
	} else {
		H = spec.MatrixIn("H", r, c, .01, .99)
	}
	fz := spec.Freeze(Y, H)
	loss := nn.LossFunctions64[[]string{"square_loss", "log_loss", "binary_log_loss"}[k]](Y.RawMatrix(), H.RawMatrix())
	e := spec.Sum(r, func(i int) float64 {
		return spec.Sum(c, func(j int) float64 {
			y, h := Y.At(i, j), H.At(i, j)
			switch k {
			case 0:
				return (h - y) * (h - y)
			case 1:
				if y == 0 {
					return 0
				}
				return -y * math.Log(h)
			}
			return -y*math.Log(h) - (1-y)*math.Log1p(-h)
		})
	})
	if k == 0 {
		e /= 2
	}
	spec.Assert("loss", spec.Eq(loss, e/float64(r)))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// elementwise is an arbitrary activation function.
func elementwise(z blas64.General, f func(v float64) float64) {
	for r := 0; r < z.Rows; r++ {
		for c := 0; c < z.Cols; c++ {
			z.Data[r*z.Stride+c] = f(z.Data[r*z.Stride+c])
		}
	}
}

func hidden(v float64) float64 {
	if spec.Symbolic() {
		return spec.UF("hidden activation", v)
	}
	return math.Sin(v)
}

func output(v float64) float64 {
	if spec.Symbolic() {
		return spec.UF("output activation", v)
	}
	return math.Cos(v)
}

// network draws a network of up to two hidden layers and gives its value.
// The activations are arbitrary functions: that those named in Activations64 are what they should be is ContractActivations.
func network(m *nn.BaseMultilayerPerceptron64, X *mat.Dense, o int) func(i, j int) float64 {
	_, c := X.Dims()
	layers := spec.Choose("hidden layers", 3)
	nn.Activations64["zz hidden"] = func(z blas64.General) { elementwise(z, hidden) }
	nn.Activations64["zz output"] = func(z blas64.General) { elementwise(z, output) }
	m.Activation, m.OutActivation = "zz hidden", "zz output"
	m.NLayers = layers + 2
	m.NOutputs = o
	f := func(i, j int) float64 { return X.At(i, j) }
	p := c
	for l := 0; l <= layers; l++ {
		q := o
		if l < layers {
			q = spec.Nat("units", 1)
			m.HiddenLayerSizes = append(m.HiddenLayerSizes, q)
		}
		W, b := spec.Matrix("W", p, q), spec.Floats("b", q)
		m.Coefs = append(m.Coefs, W.RawMatrix())
		m.Intercepts = append(m.Intercepts, b)
		g, pp, last := f, p, l == layers
		f = func(i, j int) float64 {
			z := spec.Sum(pp, func(h int) float64 { return g(i, h) * W.At(h, j) }) + b[j]
			if last {
				return output(z)
			}
			return hidden(z)
		}
		p = q
	}
	return f
}

// ContractRegressorPredict: the prediction of a regressor is its forward pass.
func ContractRegressorPredict() {
	n, c, o := spec.Nat("n", 1), spec.Nat("c", 1), spec.Nat("o", 1)
	X := spec.Matrix("X", n, c)
	m := nn.NewMLPRegressor(nil, "", "adam", 0)
	f := network(&m.BaseMultilayerPerceptron64, X, o)
	m.LossFuncName = "square_loss"
	fz := spec.Freeze(X)
	i, j := spec.IntIn("i", 0, n-1), spec.IntIn("j", 0, o-1)
	if spec.Choose("Y", 2) == 0 {
		Y := spec.Matrix("Y", n, o)
		m.Predict(X, Y)
		spec.Assert("prediction", spec.Eq(Y.At(i, j), f(i, j)))
	} else {
		Y := m.Predict(X, &mat.Dense{})
		r, s := Y.Dims()
		spec.Assert("prediction has a row per sample and a column per output", r == n && s == o)
		spec.Assert("prediction in a new matrix", spec.Eq(Y.At(i, j), f(i, j)))
	}
	spec.Assert("X unchanged", spec.Unchanged(fz))
}

// ContractMaxIdx: the index of the first of the greatest values.
func ContractMaxIdx() {
	n := spec.Nat("n", 1)
	a := spec.Floats("a", n)
	m := nn.MaxIdx64(a)
	spec.Assert("index", 0 <= m && m < n)
	spec.Assert("greatest", spec.Forall(n, func(i int) bool { return a[i] <= a[m] }))
	spec.Assert("first", spec.Forall(m, func(i int) bool { return a[i] < a[m] }))
}

// ContractClassifierPredict: a classifier predicts the most probable class (one hot), or whether the
// probability is above one half.
func ContractClassifierPredict() {
	n, c := spec.Nat("n", 1), spec.Nat("c", 1)
	X := spec.Matrix("X", n, c)
	m := nn.NewMLPClassifier(nil, "", "adam", 0)
	i := spec.IntIn("i", 0, n-1)
	if spec.Choose("kind", 2) == 0 {
		f := network(&m.BaseMultilayerPerceptron64, X, 1)
		m.LossFuncName = "binary_log_loss"
		Y := spec.Matrix("Y", n, 1)
		m.Predict(X, Y)
		p := f(i, 0)
		spec.Regular(math.Abs(p-.5) > 1e-9)
		spec.Assert("class by value above one half", Y.At(i, 0) == spec.B2F(p > .5))
		return
	}
	o := spec.Nat("o", 2)
	spec.UseContract("github.com/pa-m/sklearn/neural_network.MaxIdx64", func(a []float64) int {
		return spec.First(len(a), func(l int) bool { return spec.Forall(len(a), func(q int) bool { return a[q] <= a[l] }) })
	})
	f := network(&m.BaseMultilayerPerceptron64, X, o)
	m.LossFuncName = "log_loss"
	Y := spec.Matrix("Y", n, o)
	m.Predict(X, Y)
	best := spec.First(o, func(l int) bool { return spec.Forall(o, func(q int) bool { return f(i, q) <= f(i, l) }) })
	spec.Assert("one class", spec.Forall(o, func(l int) bool { return Y.At(i, l) == spec.B2F(l == best) }))
}
