package c18

import (
	"encoding/json"
	"io/ioutil"
	"log"
	"math"
	"sort"

	"github.com/pa-m/sklearn/base"
	nn "github.com/pa-m/sklearn/neural_network"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/blas/blas64"
	"gonum.org/v1/gonum/mat"
)

func init() { log.SetOutput(ioutil.Discard) }

func near(a, b, tol float64) bool {
	return a == b || math.Abs(a-b) <= tol*(1+math.Abs(a)+math.Abs(b))
}

// model is a network by definition. out: 0 identity, 1 logistic, 2 softmax.
type model struct {
	W        [][][]float64
	b        [][]float64
	act, out int
}

func (m *model) forward(x []float64) []float64 {
	for l := range m.W {
		z := append([]float64{}, m.b[l]...)
		for j := range z {
			for h := range x {
				z[j] += x[h] * m.W[l][h][j]
			}
			if l < len(m.W)-1 {
				if m.act == 3 {
					// not at the kink
					spec.Assume(math.Abs(z[j]) > 1e-3)
				}
				z[j] = act(m.act, z[j])
			}
		}
		x = z
	}
	switch m.out {
	case 1:
		for j := range x {
			x[j] = 1 / (1 + math.Exp(-x[j]))
		}
	case 2:
		s := 0.
		for j := range x {
			s += math.Exp(x[j])
		}
		for j := range x {
			x[j] = math.Exp(x[j]) / s
		}
	}
	return x
}

// loss is the mean loss of samples from i0 to i1, plus the penalty.
func (m *model) loss(X, Y mat.Matrix, i0, i1 int, alpha float64) float64 {
	s := 0.
	for i := i0; i < i1; i++ {
		for j, h := range m.forward(mat.Row(nil, i, X)) {
			y := Y.At(i, j)
			switch m.out {
			case 0:
				s += (h - y) * (h - y) / 2
			case 1:
				// where the logarithms are accurate
				spec.Assume(h > 1e-3 && h < 1-1e-3)
				s -= y*math.Log(h) + (1-y)*math.Log(1-h)
			case 2:
				if y != 0 {
					s -= y * math.Log(h)
				}
			}
		}
	}
	p := 0.
	for _, w := range m.W {
		for _, r := range w {
			for _, v := range r {
				p += v * v
			}
		}
	}
	return (s + alpha*p/2) / float64(i1-i0)
}

func (m *model) params() (ps []*float64) {
	for l := range m.W {
		for j := range m.b[l] {
			ps = append(ps, &m.b[l][j])
		}
		for _, r := range m.W[l] {
			for j := range r {
				ps = append(ps, &r[j])
			}
		}
	}
	return
}

// gradient of loss, by differences.
func (m *model) gradient(X, Y mat.Matrix, i0, i1 int, alpha float64) (g []float64) {
	const h = 1e-5
	for _, p := range m.params() {
		v := *p
		*p = v + h
		a := m.loss(X, Y, i0, i1, alpha)
		*p = v - h
		b := m.loss(X, Y, i0, i1, alpha)
		*p = v
		g = append(g, (a-b)/2/h)
	}
	return
}

func rowsOf(g blas64.General) (r [][]float64) {
	for i := 0; i < g.Rows; i++ {
		r = append(r, append([]float64{}, g.Data[i*g.Stride:i*g.Stride+g.Cols]...))
	}
	return
}

var outputs = map[string]int{"identity": 0, "logistic": 1, "softmax": 2}

func modelOf(m *nn.BaseMultilayerPerceptron64) *model {
	r := &model{out: outputs[m.OutActivation]}
	for k := 0; k < 4; k++ {
		if name(k) == m.Activation {
			r.act = k
		}
	}
	for l := range m.Coefs {
		r.W = append(r.W, rowsOf(m.Coefs[l]))
		r.b = append(r.b, append([]float64{}, m.Intercepts[l]...))
	}
	return r
}

func modelOf32(m *nn.BaseMultilayerPerceptron32) *model {
	r := &model{out: outputs[m.OutActivation]}
	for k := 0; k < 4; k++ {
		if name(k) == m.Activation {
			r.act = k
		}
	}
	for l, g := range m.Coefs {
		var w [][]float64
		for i := 0; i < g.Rows; i++ {
			var row []float64
			for j := 0; j < g.Cols; j++ {
				row = append(row, float64(g.Data[i*g.Stride+j]))
			}
			w = append(w, row)
		}
		var b []float64
		for _, v := range m.Intercepts[l] {
			b = append(b, float64(v))
		}
		r.W, r.b = append(r.W, w), append(r.b, b)
	}
	return r
}

func sameParams(a, b *model, tol float64) bool {
	pa, pb := a.params(), b.params()
	if len(pa) != len(pb) {
		return false
	}
	for i := range pa {
		if math.IsNaN(*pa[i]) && math.IsNaN(*pb[i]) {
			continue
		}
		if !near(*pa[i], *pb[i], tol) {
			return false
		}
	}
	return true
}

// task draws samples and targets: 0 numbers, 1 numbers that are 0 or 1, 2 one 0/1 label, 3 one of several classes.
func task(kind, n int) (X, Y *mat.Dense) {
	c := spec.IntIn("c", 1, 3)
	X = spec.MatrixIn("X", n, c, -2, 2)
	switch kind {
	case 0:
		Y = spec.MatrixIn("Y", n, spec.IntIn("o", 1, 3), -2, 2)
	case 1:
		Y = spec.LabelMatrix("Y", n, spec.IntIn("o", 1, 3), 2)
	case 2:
		Y = spec.LabelMatrix("Y", n, 1, 2)
	case 3:
		o := spec.IntIn("o", 2, 3)
		Y = spec.LabelMatrix("Y", n, o, 2)
		for i := 0; i < n; i++ {
			k := spec.IntIn("class", 0, o-1)
			for j := 0; j < o; j++ {
				Y.Set(i, j, spec.B2F(j == k))
			}
		}
	}
	return
}

func configure(m *nn.BaseMultilayerPerceptron64) {
	*m = *nn.NewBaseMultilayerPerceptron64()
	m.Activation = name(spec.Choose("activation", 4))
	m.Alpha = []float64{0, .5, 1}[spec.Choose("alpha", 3)]
	m.HiddenLayerSizes = nil
	for l := spec.Choose("hidden layers", 3); l > 0; l-- {
		m.HiddenLayerSizes = append(m.HiddenLayerSizes, spec.IntIn("units", 1, 3))
	}
	m.RandomState = base.NewSource(uint64(spec.IntIn("seed", 0, 1000)))
	m.LearningRateInit = []float64{.01, .1}[spec.Choose("rate", 2)]
	m.LearningRate = []string{"constant", "invscaling", "adaptive"}[spec.Choose("schedule", 3)]
	m.Momentum = []float64{0, .5, .9}[spec.Choose("momentum", 3)]
	m.NesterovsMomentum = spec.Bool("nesterov")
	m.Shuffle = false
}

// steps follows m from the model start by the definition of stochastic gradient descent; it returns the mean loss of the last epoch.
func steps(start *model, m *nn.BaseMultilayerPerceptron64, X, Y mat.Matrix, epochs, t, batch int) float64 {
	n, _ := X.Dims()
	ps := start.params()
	vel := make([]float64, len(ps))
	rate := m.LearningRateInit
	loss := 0.
	for e := 0; e < epochs; e++ {
		loss = 0
		for i := 0; i < n; i += batch {
			i1 := i + batch
			if i1 > n {
				i1 = n
			}
			loss += start.loss(X, Y, i, i1, m.Alpha) * float64(i1-i)
			g := start.gradient(X, Y, i, i1, m.Alpha)
			for k := range ps {
				vel[k] = m.Momentum*vel[k] - rate*g[k]
				if m.NesterovsMomentum {
					*ps[k] += m.Momentum*vel[k] - rate*g[k]
				} else {
					*ps[k] += vel[k]
				}
			}
		}
		t += n
		if m.LearningRate == "invscaling" {
			rate = m.LearningRateInit / math.Pow(float64(t+1), m.PowerT)
		}
	}
	for _, p := range ps {
		// training did not diverge
		spec.Assume(math.Abs(*p) < 20)
	}
	return loss / float64(n)
}

type fitter interface {
	Fit(X, Y mat.Matrix) base.Fiter
	Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense
	Score(X, Y mat.Matrix) float64
}

func estimator(kind int) (fitter, *nn.BaseMultilayerPerceptron64) {
	if kind < 2 {
		m := &nn.MLPRegressor{}
		configure(&m.BaseMultilayerPerceptron64)
		return m, &m.BaseMultilayerPerceptron64
	}
	m := &nn.MLPClassifier{}
	configure(&m.BaseMultilayerPerceptron64)
	return m, &m.BaseMultilayerPerceptron64
}

func cells(X mat.Matrix) *mat.Dense { return mat.DenseCopyOf(X) }

// predictions by definition.
func predictions(r *model, X mat.Matrix, o int) *mat.Dense {
	n, _ := X.Dims()
	Y := mat.NewDense(n, o, nil)
	for i := 0; i < n; i++ {
		h := r.forward(mat.Row(nil, i, X))
		best := 0
		for j := range h {
			if h[j] > h[best] {
				best = j
			}
		}
		for j := range h {
			switch r.out {
			case 0:
				Y.Set(i, j, h[j])
			case 1:
				spec.Assume(math.Abs(h[j]-.5) > 1e-9)
				Y.Set(i, j, spec.B2F(h[j] > .5))
			case 2:
				spec.Assume(j == best || h[best]-h[j] > 1e-9)
				Y.Set(i, j, spec.B2F(j == best))
			}
		}
	}
	return Y
}

func r2(Y, P mat.Matrix) float64 {
	n, o := Y.Dims()
	s := 0.
	for j := 0; j < o; j++ {
		mean, num, den := 0., 0., 0.
		for i := 0; i < n; i++ {
			mean += Y.At(i, j) / float64(n)
		}
		for i := 0; i < n; i++ {
			num += (Y.At(i, j) - P.At(i, j)) * (Y.At(i, j) - P.At(i, j))
			den += (Y.At(i, j) - mean) * (Y.At(i, j) - mean)
		}
		spec.Assume(den > .1)
		s += (1 - num/den) / float64(o)
	}
	return s
}

func accuracy(Y, P mat.Matrix) float64 {
	n, o := Y.Dims()
	s := 0.
	for i := 0; i < n; i++ {
		ok := true
		for j := 0; j < o; j++ {
			ok = ok && Y.At(i, j) == P.At(i, j)
		}
		s += spec.B2F(ok) / float64(n)
	}
	return s
}

// BoundedGradientDescent: training by sgd follows the gradient of the mean loss of each batch, from the current parameters,
// with momentum; the fitted network predicts by its forward pass; samples and targets are unchanged; the same seed gives the same network.
func BoundedGradientDescent() {
	kind := spec.Choose("task", 4)
	batch, batches := spec.IntIn("batch", 1, 4), spec.IntIn("batches", 1, 2)
	n := batch * batches
	X, Y := task(kind, n)
	X0, Y0 := cells(X), cells(Y)
	e, m := estimator(kind)
	m.Solver = "sgd"
	m.BatchSize = batch
	m.MaxIter = 1
	if batches == 1 {
		m.Shuffle = spec.Bool("shuffle")
	}
	seed := m.RandomState.(base.SourceCloner).SourceClone()
	e.Fit(X, Y)
	spec.Assert("samples and targets unchanged", mat.Equal(X, X0) && mat.Equal(Y, Y0))
	r := modelOf(m)
	out := 0
	if kind == 2 || kind == 3 {
		out = kind - 1
	}
	spec.Assert("output activation", r.out == out)
	again := *m
	again.RandomState = seed
	if kind < 2 {
		(&nn.MLPRegressor{BaseMultilayerPerceptron64: again}).Fit(X, Y)
	} else {
		(&nn.MLPClassifier{BaseMultilayerPerceptron64: again}).Fit(X, Y)
	}
	spec.Assert("fitting a copy leaves the network as it was", sameParams(modelOf(m), r, 0))
	// go on from these parameters
	m.WarmStart = true
	m.MaxIter = spec.IntIn("epochs", 1, 3)
	e.Fit(X, Y)
	loss := steps(r, m, X, Y, m.MaxIter, n, batch)
	spec.Assert("parameters after the steps", sameParams(modelOf(m), r, 1e-5))
	spec.Assert("loss of the last epoch", near(m.Loss, loss, 1e-5) && near(m.LossCurve[len(m.LossCurve)-1], m.Loss, 0))
	_, o := Y.Dims()
	P := spec.Matrix("P", n, o)
	e.Predict(X, P)
	want := predictions(modelOf(m), X, o)
	for i := 0; i < n; i++ {
		for j := 0; j < o; j++ {
			spec.Assert("prediction of the fitted network", near(P.At(i, j), want.At(i, j), 1e-9))
		}
	}
	if kind < 2 {
		s := r2(Y, want)
		spec.Assert("score is R2", near(e.Score(X, Y), s, 1e-6))
	} else {
		spec.Assert("score is the accuracy", near(e.Score(X, Y), accuracy(Y, want), 1e-9))
	}
	spec.Assert("samples and targets unchanged by prediction", mat.Equal(X, X0) && mat.Equal(Y, Y0))
}

// BoundedSeed: the same seed gives the same network, with every solver.
func BoundedSeed() {
	kind := spec.Choose("task", 4)
	n := spec.IntIn("n", 2, 8)
	X, Y := task(kind, n)
	e, m := estimator(kind)
	m.Solver = []string{"sgd", "adam", "lbfgs"}[spec.Choose("solver", 3)]
	m.BatchSize = spec.IntIn("batch", 1, n)
	m.Shuffle = spec.Bool("shuffle")
	m.MaxIter = 3
	again := *m
	again.RandomState = m.RandomState.(base.SourceCloner).SourceClone()
	X0, Y0 := cells(X), cells(Y)
	e.Fit(X, Y)
	spec.Assert("samples and targets unchanged", mat.Equal(X, X0) && mat.Equal(Y, Y0))
	r := modelOf(m)
	var m2 *nn.BaseMultilayerPerceptron64
	if kind < 2 {
		e := &nn.MLPRegressor{BaseMultilayerPerceptron64: again}
		e.Fit(X, Y)
		m2 = &e.BaseMultilayerPerceptron64
	} else {
		e := &nn.MLPClassifier{BaseMultilayerPerceptron64: again}
		e.Fit(X, Y)
		m2 = &e.BaseMultilayerPerceptron64
	}
	spec.Assert("the same seed gives the same parameters", sameParams(modelOf(m2), r, 1e-12))
}

// BoundedLbfgs: training by lbfgs gives parameters no worse than those at the start, with their loss.
func BoundedLbfgs() {
	kind := spec.Choose("task", 4)
	n := spec.IntIn("n", 2, 6)
	X, Y := task(kind, n)
	e, m := estimator(kind)
	m.Solver = "sgd"
	m.MaxIter = 1
	m.BatchSize = n
	e.Fit(X, Y)
	r := modelOf(m)
	m.WarmStart = true
	m.Solver = "lbfgs"
	m.MaxIter = spec.IntIn("evaluations", 1, 60)
	e.Fit(X, Y)
	before := r.loss(X, Y, 0, n, m.Alpha)
	q := modelOf(m)
	after := q.loss(X, Y, 0, n, m.Alpha)
	spec.Assert("loss is the loss of the parameters", near(m.Loss, after, 1e-7))
	spec.Lemma("not worse than the start", after <= before+1e-7*(1+before))
	if m.MaxIter > 20 && before > 1e-3 && q.act != 3 {
		g := 0.
		for _, v := range r.gradient(X, Y, 0, n, m.Alpha) {
			g += v * v
		}
		spec.Assert("better than the start, unless that is a stationary point", g < 1e-4 || after < before)
	}
}

// BoundedEarlyStopping: the parameters kept are those with the best score on the validation samples, the last ones, which are not used to train.
func BoundedEarlyStopping() {
	kind := []int{0, 2, 3}[spec.Choose("task", 3)]
	n := spec.IntIn("n", 6, 12)
	X, Y := task(kind, n)
	e, m := estimator(kind)
	m.Solver = "sgd"
	m.EarlyStopping = true
	m.ValidationFraction = []float64{.25, .5}[spec.Choose("fraction", 2)]
	nv := int(math.Ceil(m.ValidationFraction * float64(n)))
	m.BatchSize = n - nv
	m.MaxIter = spec.IntIn("epochs", 1, 6)
	m.Tol = 1e-6
	m.NIterNoChange = spec.IntIn("patience", 1, 3)
	m.LearningRate = "constant"
	_, c := X.Dims()
	_, o := Y.Dims()
	XV, YV := X.Slice(n-nv, n, 0, c), Y.Slice(n-nv, n, 0, o)
	if kind == 0 {
		r2(YV, YV)
	}
	if spec.Bool("refit") {
		e.Fit(X, Y)
	}
	seed := m.RandomState.(base.SourceCloner).SourceClone()
	e.Fit(X, Y)
	best := math.Inf(-1)
	for _, v := range m.ValidationScores {
		// training did not diverge
		spec.Assume(math.Abs(v) < 1e6)
		best = math.Max(best, v)
	}
	spec.Assert("a validation score per epoch", len(m.ValidationScores) == m.NIter && len(m.LossCurve) == m.NIter && m.NIter <= m.MaxIter)
	spec.Assert("best validation score", m.BestValidationScore == best)
	r := modelOf(m)
	P := predictions(r, XV, o)
	s := 0.
	if kind == 0 {
		s = r2(YV, P)
	} else {
		s = accuracy(YV, P)
	}
	spec.Assert("parameters with the best validation score", near(s, best, 1e-6))
	// other validation samples do not change the training loss
	e2, m2 := fitter(nil), (*nn.BaseMultilayerPerceptron64)(nil)
	if kind < 2 {
		x := &nn.MLPRegressor{BaseMultilayerPerceptron64: *m}
		e2, m2 = x, &x.BaseMultilayerPerceptron64
	} else {
		x := &nn.MLPClassifier{BaseMultilayerPerceptron64: *m}
		e2, m2 = x, &x.BaseMultilayerPerceptron64
	}
	m2.RandomState = seed
	X2 := cells(X)
	for i := n - nv; i < n; i++ {
		for j := 0; j < c; j++ {
			X2.Set(i, j, X2.At(i, j)+1)
		}
	}
	first := m.LossCurve[0]
	e2.Fit(X2, Y)
	spec.Assert("validation samples are not trained on", near(m2.LossCurve[0], first, 1e-12))
}

// BoundedLabels: a classifier fitted to labels predicts labels, those of the greatest network output for the classes in increasing order.
func BoundedLabels() {
	n, o := spec.IntIn("n", 2, 8), spec.IntIn("o", 1, 2)
	X := spec.MatrixIn("X", n, spec.IntIn("c", 1, 3), -2, 2)
	Y := spec.LabelMatrix("Y", n, o, 3)
	shift := []float64{1, 2.5, -4}[spec.Choose("labels", 3)]
	for i := 0; i < n; i++ {
		for j := 0; j < o; j++ {
			Y.Set(i, j, 2*Y.At(i, j)+shift)
		}
	}
	binary := true
	for i := 0; i < n; i++ {
		for j := 0; j < o; j++ {
			binary = binary && (Y.At(i, j) == 0 || Y.At(i, j) == 1)
		}
	}
	spec.Assume(!binary)
	m := &nn.MLPClassifier{}
	configure(&m.BaseMultilayerPerceptron64)
	m.Solver = []string{"sgd", "adam", "lbfgs"}[spec.Choose("solver", 3)]
	m.BatchSize = n
	m.MaxIter = spec.IntIn("epochs", 1, 10)
	m.Shuffle = spec.Bool("shuffle")
	X0, Y0 := cells(X), cells(Y)
	if spec.Bool("refit") {
		other := mat.NewDense(n, 1, nil)
		other.Set(0, 0, 7)
		m.Fit(X, other)
	}
	m.Fit(X, Y)
	spec.Assert("samples and targets unchanged", mat.Equal(X, X0) && mat.Equal(Y, Y0))
	P := spec.Matrix("P", n, o)
	m.Predict(X, P)
	r := modelOf(&m.BaseMultilayerPerceptron64)
	col := 0
	for j := 0; j < o; j++ {
		var classes []float64
		seen := map[float64]bool{}
		for i := 0; i < n; i++ {
			if v := Y.At(i, j); !seen[v] {
				seen[v] = true
				classes = append(classes, v)
			}
		}
		sort.Float64s(classes)
		for i := 0; i < n; i++ {
			h := r.forward(mat.Row(nil, i, X))
			spec.Assert("an output per class", len(h) >= col+len(classes))
			best := 0
			for k := range classes {
				if h[col+k] > h[col+best] {
					best = k
				}
			}
			for k := range classes {
				spec.Assume(k == best || h[col+best]-h[col+k] > 1e-9)
			}
			spec.Assert("label of the greatest output", P.At(i, j) == classes[best])
		}
		col += len(classes)
	}
	spec.Assert("score is the accuracy", near(m.Score(X, Y), accuracy(Y, P), 1e-9))
	// a classifier fitted to 0 and 1 again
	Z := spec.LabelMatrix("Z", n, 1, 2)
	m.Fit(X, Z)
	P = spec.Matrix("P", n, 1)
	m.Predict(X, P)
	want := predictions(modelOf(&m.BaseMultilayerPerceptron64), X, 1)
	for i := 0; i < n; i++ {
		spec.Assert("prediction after fitting again", P.At(i, 0) == want.At(i, 0))
	}
}

// BoundedUnmarshal: a network read from JSON predicts with its coefficients.
func BoundedUnmarshal() {
	n, c := spec.IntIn("n", 1, 4), spec.IntIn("c", 1, 3)
	X := spec.MatrixIn("X", n, c, -2, 2)
	r := &model{act: spec.Choose("activation", 4)}
	p := c
	layers := spec.Choose("hidden layers", 3)
	for l := 0; l <= layers; l++ {
		q := spec.IntIn("units", 1, 3)
		var w [][]float64
		for i := 0; i < p; i++ {
			w = append(w, spec.Floats("W", q))
		}
		r.W, r.b = append(r.W, w), append(r.b, spec.Floats("b", q))
		p = q
	}
	r.out = 2
	if p == 1 {
		r.out = 1
	}
	buf, _ := json.Marshal(map[string]interface{}{"activation": name(r.act), "coefs_": r.W, "intercepts_": r.b})
	m := nn.NewMLPClassifier([]int{}, "", "", 0)
	spec.Assert("no error", m.Unmarshal(buf) == nil)
	P := spec.Matrix("P", n, p)
	m.Predict(X, P)
	want := predictions(r, X, p)
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			spec.Assert("prediction of the network read", P.At(i, j) == want.At(i, j))
		}
	}
}

// BoundedFirstAdamStep: the first Adam step moves every parameter against its partial derivative.
func BoundedFirstAdamStep() {
	kind := spec.Choose("task", 4)
	n := spec.IntIn("n", 1, 6)
	X, Y := task(kind, n)
	e, m := estimator(kind)
	m.Solver = "sgd"
	m.BatchSize = n
	m.MaxIter = 1
	e.Fit(X, Y)
	r := modelOf(m)
	m.WarmStart = true
	m.Solver = "adam"
	e.Fit(X, Y)
	g := r.gradient(X, Y, 0, n, m.Alpha)
	p, q := r.params(), modelOf(m).params()
	for i := range p {
		if math.Abs(g[i]) > 1e-4 {
			d := *q[i] - *p[i]
			spec.Assert("against the derivative", d*g[i] < 0)
			spec.Assert("by at most three times the learning rate", math.Abs(d) <= 3*m.LearningRateInit)
		}
	}
}

// BoundedAdam: training by adam is the published algorithm.
func BoundedAdam() {
	kind := spec.Choose("task", 4)
	n := spec.IntIn("n", 1, 6)
	X, Y := task(kind, n)
	e, m := estimator(kind)
	m.Solver = "sgd"
	m.BatchSize = n
	m.MaxIter = 1
	e.Fit(X, Y)
	r := modelOf(m)
	m.WarmStart = true
	m.Solver = "adam"
	m.MaxIter = spec.IntIn("epochs", 1, 3)
	e.Fit(X, Y)
	adam := func(once bool) bool {
		r := r.clone()
		ps := r.params()
		ms, vs := make([]float64, len(ps)), make([]float64, len(ps))
		b1, b2 := 1., 1.
		for t := 0; t < m.MaxIter; t++ {
			g := r.gradient(X, Y, 0, n, m.Alpha)
			for i := range ps {
				if i == 0 || !once {
					b1, b2 = b1*m.Beta1, b2*m.Beta2
				}
				spec.Assume(math.Abs(g[i]) > 1e-3)
				ms[i] = m.Beta1*ms[i] + (1-m.Beta1)*g[i]
				vs[i] = m.Beta2*vs[i] + (1-m.Beta2)*g[i]*g[i]
				*ps[i] -= m.LearningRateInit * math.Sqrt(1-b2) / (1 - b1) * ms[i] / (math.Sqrt(vs[i]) + m.Epsilon)
			}
		}
		return sameParams(modelOf(m), r, 1e-5)
	}
	// known: the bias corrections decay once per parameter
	spec.Assert("parameters after the steps of adam", adam(true))
	spec.Assert("adam up to its bias corrections", adam(true) || adam(false))
}

func (m *model) clone() *model {
	r := &model{act: m.act, out: m.out}
	for l := range m.W {
		var w [][]float64
		for _, x := range m.W[l] {
			w = append(w, append([]float64{}, x...))
		}
		r.W, r.b = append(r.W, w), append(r.b, append([]float64{}, m.b[l]...))
	}
	return r
}

// BoundedLastBatch: a last batch with less samples than the others counts as a batch of its samples.
func BoundedLastBatch() {
	kind := spec.Choose("task", 4)
	batch := spec.IntIn("batch", 2, 4)
	n := batch + spec.IntIn("rest", 1, batch-1)
	X, Y := task(kind, n)
	e, m := estimator(kind)
	m.Solver = "sgd"
	m.BatchSize = batch
	m.MaxIter = 1
	e.Fit(X, Y)
	r := modelOf(m)
	m.WarmStart = true
	e.Fit(X, Y)
	loss := steps(r, m, X, Y, 1, n, batch)
	spec.Assert("parameters after a smaller last batch", sameParams(modelOf(m), r, 1e-5))
	spec.Assert("loss with a smaller last batch", near(m.Loss, loss, 1e-5))
}

// single is a 32 bit network of any configuration.
func single(kind int) *nn.BaseMultilayerPerceptron32 {
	m := nn.NewBaseMultilayerPerceptron32()
	m.Activation = name(spec.Choose("activation", 4))
	m.Solver = "sgd"
	m.Alpha = []float32{0, .5, 1}[spec.Choose("alpha", 3)]
	m.HiddenLayerSizes = nil
	for l := spec.Choose("hidden layers", 3); l > 0; l-- {
		m.HiddenLayerSizes = append(m.HiddenLayerSizes, spec.IntIn("units", 1, 3))
	}
	m.RandomState = base.NewSource(uint64(spec.IntIn("seed", 0, 1000)))
	m.LearningRateInit = []float32{.01, .1}[spec.Choose("rate", 2)]
	m.Momentum = []float32{0, .5, .9}[spec.Choose("momentum", 3)]
	m.NesterovsMomentum = spec.Bool("nesterov")
	if kind < 2 {
		m.LossFuncName = "square_loss"
	}
	return m
}

// BoundedSinglePrecision: the 32 bit network does the same as the 64 bit one, up to its precision.
func BoundedSinglePrecision() {
	kind := spec.Choose("task", 4)
	batch, batches := spec.IntIn("batch", 1, 4), spec.IntIn("batches", 1, 2)
	n := batch * batches
	X, Y := task(kind, n)
	X0, Y0 := cells(X), cells(Y)
	m := single(kind)
	m.BatchSize = batch
	m.MaxIter = 1
	m.Shuffle = batches == 1 && spec.Bool("shuffle")
	m.Fit(X, Y)
	r := modelOf32(m)
	m.WarmStart = true
	m.Fit(X, Y)
	ref := nn.NewBaseMultilayerPerceptron64()
	ref.Alpha, ref.LearningRateInit, ref.Momentum = float64(m.Alpha), float64(m.LearningRateInit), float64(m.Momentum)
	ref.NesterovsMomentum = m.NesterovsMomentum
	loss := steps(r, ref, X, Y, 1, n, batch)
	spec.Assert("parameters of the 32 bit network", sameParams(modelOf32(m), r, 1e-3))
	spec.Assert("loss of the 32 bit network", near(float64(m.Loss), loss, 1e-3))
	_, o := Y.Dims()
	P := spec.Matrix("P", n, o)
	m.Predict(X, P)
	q := modelOf32(m)
	for i := 0; i < n; i++ {
		h := q.forward(mat.Row(nil, i, X))
		best := 0
		for j := range h {
			if h[j] > h[best] {
				best = j
			}
		}
		for j := range h {
			v := h[j]
			if q.out == 1 {
				spec.Assume(math.Abs(v-.5) > 1e-3)
				v = spec.B2F(v > .5)
			}
			if q.out == 2 {
				spec.Assume(j == best || h[best]-h[j] > 1e-3)
				v = spec.B2F(j == best)
			}
			spec.Assert("prediction of the 32 bit network", near(P.At(i, j), v, 1e-3))
		}
	}
	score := 0.
	if kind < 2 {
		score = r2(Y, P)
	} else {
		score = accuracy(Y, P)
	}
	spec.Assert("score of the 32 bit network", near(m.Score(X, Y), score, 1e-3))
	spec.Assert("samples and targets unchanged", mat.Equal(X, X0) && mat.Equal(Y, Y0))
}

// BoundedSingleLbfgs: training the 32 bit network by lbfgs ends, with parameters no worse than those at the start and their loss.
func BoundedSingleLbfgs() {
	kind := spec.Choose("task", 4)
	n := spec.IntIn("n", 2, 6)
	X, Y := task(kind, n)
	m := single(kind)
	m.BatchSize, m.MaxIter = n, 1
	m.Fit(X, Y)
	r := modelOf32(m)
	m.WarmStart = true
	m.Solver = "lbfgs"
	m.MaxIter = spec.IntIn("evaluations", 1, 60)
	m.Fit(X, Y)
	q := modelOf32(m)
	before, after := r.loss(X, Y, 0, n, float64(m.Alpha)), q.loss(X, Y, 0, n, float64(m.Alpha))
	spec.Assert("loss of the parameters of the 32 bit network", near(float64(m.Loss), after, 1e-3))
	spec.Assert("the 32 bit network is not worse than at the start", after <= before+1e-3*(1+before))
}

// BoundedSingleAdam: the first Adam step of the 32 bit network moves every parameter against its partial derivative.
func BoundedSingleAdam() {
	kind := spec.Choose("task", 4)
	n := spec.IntIn("n", 1, 6)
	X, Y := task(kind, n)
	m := single(kind)
	m.BatchSize, m.MaxIter = n, 1
	m.Fit(X, Y)
	r := modelOf32(m)
	m.WarmStart = true
	m.Solver = "adam"
	m.Fit(X, Y)
	g := r.gradient(X, Y, 0, n, float64(m.Alpha))
	p, q := r.params(), modelOf32(m).params()
	for i := range p {
		if math.Abs(g[i]) > 1e-2 {
			d := *q[i] - *p[i]
			spec.Assert("32 bit step against the derivative", d*g[i] < 0)
			spec.Assert("32 bit step of at most three times the learning rate", math.Abs(d) <= 3.01*float64(m.LearningRateInit))
		}
	}
}

// BoundedSingleEarlyStopping: the parameters the 32 bit network keeps are those with the best score on the validation samples.
func BoundedSingleEarlyStopping() {
	kind := []int{0, 2, 3}[spec.Choose("task", 3)]
	n := spec.IntIn("n", 6, 12)
	X, Y := task(kind, n)
	m := single(kind)
	m.EarlyStopping, m.Shuffle = true, false
	m.ValidationFraction = []float32{.25, .5}[spec.Choose("fraction", 2)]
	nv := int(math.Ceil(float64(m.ValidationFraction) * float64(n)))
	m.BatchSize = n - nv
	m.MaxIter = spec.IntIn("epochs", 1, 6)
	m.Tol = 1e-6
	m.NIterNoChange = spec.IntIn("patience", 1, 3)
	_, c := X.Dims()
	_, o := Y.Dims()
	XV, YV := X.Slice(n-nv, n, 0, c), Y.Slice(n-nv, n, 0, o)
	if kind == 0 {
		r2(YV, YV)
	}
	m.Fit(X, Y)
	best := math.Inf(-1)
	for _, v := range m.ValidationScores {
		spec.Assume(math.Abs(float64(v)) < 1e3)
		best = math.Max(best, float64(v))
	}
	spec.Assert("a validation score per epoch of the 32 bit network", len(m.ValidationScores) == m.NIter && len(m.LossCurve) == m.NIter && m.NIter <= m.MaxIter)
	spec.Assert("best validation score of the 32 bit network", float64(m.BestValidationScore) == best)
	P := predictions(modelOf32(m), XV, o)
	s := 0.
	if kind == 0 {
		s = r2(YV, P)
	} else {
		s = accuracy(YV, P)
		h := predictions32margin(modelOf32(m), XV)
		spec.Assume(h > 1e-3)
	}
	spec.Assert("32 bit parameters with the best validation score", near(s, best, 1e-2))
}

// predictions32margin is how far the outputs for the rows of X are from changing a prediction.
func predictions32margin(r *model, X mat.Matrix) float64 {
	n, _ := X.Dims()
	d := math.Inf(1)
	for i := 0; i < n; i++ {
		h := r.forward(mat.Row(nil, i, X))
		best := 0
		for j := range h {
			if h[j] > h[best] {
				best = j
			}
		}
		for j := range h {
			if r.out == 1 {
				d = math.Min(d, math.Abs(h[j]-.5))
			}
			if r.out == 2 && j != best {
				d = math.Min(d, h[best]-h[j])
			}
		}
	}
	return d
}
