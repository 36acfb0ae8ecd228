// Package c05 holds the contracts of Pipeline.
package c05

import (
	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/pipeline"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

// shift is a transformer with known behaviour: it adds dx to X and dy to Y, and remembers what it was fitted on.
type shift struct {
	dx, dy float64
	fits   int
	X, Y   *mat.Dense
}

func (s *shift) Fit(X, Y mat.Matrix) base.Fiter {
	s.fits++
	s.X, s.Y = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
	return s
}

func add(M mat.Matrix, d float64) *mat.Dense {
	r, c := M.Dims()
	if r == 0 {
		return &mat.Dense{}
	}
	R := mat.NewDense(r, c, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			R.Set(i, j, M.At(i, j)+d)
		}
	}
	return R
}

func (s *shift) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
	return add(X, s.dx), add(Y, s.dy)
}

func (s *shift) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
	s.Fit(X, Y)
	return s.Transform(X, Y)
}

func (s *shift) TransformerClone() base.Transformer {
	c := *s
	c.fits = -1
	return &c
}

// invertible is a shift that can be undone.
type invertible struct{ shift }

func (s *invertible) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
	if X != nil {
		Xout = add(X, -s.dx)
	}
	if Y != nil {
		Yout = add(Y, -s.dy)
	}
	return
}

func (s *invertible) TransformerClone() base.Transformer {
	c := *s
	c.fits = -1
	return &c
}

// final is a predicter with known behaviour.
type final struct {
	a, b       float64
	classifier bool
	fits       int
	X, Y       *mat.Dense
	nOutputs   int
	sX, sY     *mat.Dense
	score      float64
}

func (f *final) Fit(X, Y mat.Matrix) base.Fiter {
	f.fits++
	f.X, f.Y = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
	_, f.nOutputs = Y.Dims()
	return f
}
func (f *final) GetNOutputs() int { return f.nOutputs }
func (f *final) value(X mat.Matrix, i, j int) float64 {
	return f.a*X.At(i, 0) + f.b*X.At(i, 1) + float64(j)
}
func (f *final) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
	n, _ := X.Dims()
	R := mat.NewDense(n, f.nOutputs, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < f.nOutputs; j++ {
			R.Set(i, j, f.value(X, i, j))
			if Y != nil {
				Y.Set(i, j, f.value(X, i, j))
			}
		}
	}
	return R
}
func (f *final) Score(X, Y mat.Matrix) float64 {
	f.sX, f.sY = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
	return f.score
}
func (f *final) IsClassifier() bool { return f.classifier }
func (f *final) PredicterClone() base.Predicter {
	c := *f
	c.fits = -1
	return &c
}

type setup struct {
	p      *pipeline.Pipeline
	shifts []*shift // what each transformer does
	inv    []bool   // which of them can be undone
	last   *final
	X, Y   *mat.Dense
	n, o   int
}

func newSetup() *setup {
	s := &setup{n: spec.Nat("n", 1), o: spec.Nat("outputs", 1)}
	s.X, s.Y = spec.Matrix("X", s.n, 2), spec.Matrix("Y", s.n, s.o)
	names := []string{"first", "second", "third"}
	k := spec.Choose("transformers", 4)
	kinds := spec.Choose("kinds", 1<<uint(k))
	var steps []pipeline.NamedStep
	for i := 0; i < k; i++ {
		if kinds>>uint(i)&1 == 1 {
			t := &invertible{shift{dx: spec.Float(names[i] + " dx"), dy: spec.Float(names[i] + " dy")}}
			s.shifts, s.inv = append(s.shifts, &t.shift), append(s.inv, true)
			steps = append(steps, pipeline.NamedStep{Name: names[i], Fiter: t})
		} else {
			t := &shift{dx: spec.Float(names[i] + " dx"), dy: spec.Float(names[i] + " dy")}
			s.shifts, s.inv = append(s.shifts, t), append(s.inv, false)
			steps = append(steps, pipeline.NamedStep{Name: names[i], Fiter: t})
		}
	}
	s.last = &final{a: spec.Float("a"), b: spec.Float("b"), score: spec.Float("score"), classifier: spec.Bool("classifier")}
	steps = append(steps, pipeline.NamedStep{Name: "last", Fiter: s.last})
	s.p = pipeline.NewPipeline(steps...)
	return s
}

// dx and dy are the total shifts of the first k transformers.
func (s *setup) dx(k int) float64 {
	t := 0.
	for i := 0; i < k; i++ {
		t += s.shifts[i].dx
	}
	return t
}
func (s *setup) dy(k int) float64 {
	t := 0.
	for i := 0; i < k; i++ {
		t += s.shifts[i].dy
	}
	return t
}

// undone is what the inverse transforms subtract from predictions.
func (s *setup) undone() float64 {
	t := 0.
	for i := range s.shifts {
		if s.inv[i] {
			t += s.shifts[i].dy
		}
	}
	return t
}

// shifted holds when R is M plus d.
func shifted(R, M *mat.Dense, d float64) bool {
	r, c := M.Dims()
	r1, c1 := R.Dims()
	return r == r1 && c == c1 && spec.Forall2(r, c, func(i, j int) bool { return spec.Eq(R.At(i, j), M.At(i, j)+d) })
}

// ContractFit: every step is fitted once, on the data as transformed by the steps before it.
func ContractFit() {
	s := newSetup()
	fz := spec.Freeze(s.X, s.Y)
	r := s.p.Fit(s.X, s.Y)
	spec.Assert("returns itself", r == base.Fiter(s.p))
	for i, t := range s.shifts {
		spec.Assert("a transformer is fitted once", t.fits == 1)
		spec.Assert("a transformer is fitted on the data transformed by its predecessors", shifted(t.X, s.X, s.dx(i)) && shifted(t.Y, s.Y, s.dy(i)))
	}
	k := len(s.shifts)
	spec.Assert("the estimator is fitted once", s.last.fits == 1)
	spec.Assert("the estimator is fitted on the transformed data", shifted(s.last.X, s.X, s.dx(k)) && shifted(s.last.Y, s.Y, s.dy(k)))
	spec.Assert("number of outputs", s.p.NOutputs == s.o && s.p.GetNOutputs() == s.o)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractPredict: predictions are those of the estimator on the transformed data, undone by the invertible steps in reverse.
func ContractPredict() {
	s := newSetup()
	s.p.Fit(s.X, s.Y)
	q := spec.Nat("q", 1)
	Q := spec.Matrix("Q", q, 2)
	fz := spec.Freeze(s.X, s.Y, Q, s.p)
	k := len(s.shifts)
	D := add(Q, s.dx(k))
	want := func(R *mat.Dense) bool {
		r, c := R.Dims()
		return r == q && c == s.o && spec.Forall2(q, s.o, func(i, j int) bool {
			return spec.Eq(R.At(i, j), s.last.value(D, i, j)-s.undone())
		})
	}
	switch spec.Choose("destination", 3) {
	case 0:
		spec.Assert("predictions returned", want(s.p.Predict(Q, nil)))
	case 1:
		P := &mat.Dense{}
		R := s.p.Predict(Q, P)
		spec.Assert("predictions returned and stored", want(R) && want(P))
	case 2:
		P := spec.Matrix("P", q, s.o)
		R := s.p.Predict(Q, P)
		spec.Assert("predictions returned and stored", want(R) && want(P))
	}
	spec.Assert("model and inputs unchanged", spec.Unchanged(fz))
}

// ContractScore: the score is the estimator's, on X and Y transformed as for fitting.
func ContractScore() {
	s := newSetup()
	s.p.Fit(s.X, s.Y)
	q := spec.Nat("q", 1)
	Q, T := spec.Matrix("Q", q, 2), spec.Matrix("T", q, s.o)
	fz := spec.Freeze(s.X, s.Y, Q, T)
	k := len(s.shifts)
	r := s.p.Score(Q, T)
	spec.Assert("score of the estimator", r == s.last.score)
	spec.Assert("on the transformed data", shifted(s.last.sX, Q, s.dx(k)) && shifted(s.last.sY, T, s.dy(k)))
	spec.Assert("steps are not fitted again", s.last.fits == 1)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractTransform: as a transformer, a pipeline leaves X and gives the predictions as Y.
func ContractTransform() {
	s := newSetup()
	fz := spec.Freeze(s.X, s.Y)
	Xo, Yo := s.p.FitTransform(s.X, s.Y)
	k := len(s.shifts)
	D := add(s.X, s.dx(k))
	r, c := Yo.Dims()
	spec.Assert("shape", r == s.n && c == s.o)
	spec.Assert("fitted", s.last.fits == 1)
	spec.Assert("X", shifted(Xo, s.X, 0))
	spec.Assert("Y is predicted", spec.Forall2(s.n, s.o, func(i, j int) bool {
		return spec.Eq(Yo.At(i, j), s.last.value(D, i, j)-s.undone())
	}))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractClone: a clone has clones of all steps in the same order, and fitting it leaves the original alone.
func ContractClone() {
	s := newSetup()
	s.p.Fit(s.X, s.Y)
	fz := spec.Freeze(s.p)
	c := s.p.PredicterClone().(*pipeline.Pipeline)
	spec.Assert("classifier when the last step is", c.IsClassifier() == s.last.classifier && s.p.IsClassifier() == s.last.classifier)
	spec.Assert("as many steps", len(c.NamedSteps) == len(s.shifts)+1)
	for i, st := range c.NamedSteps {
		spec.Assert("same names", st.Name == s.p.NamedSteps[i].Name)
		if i == len(s.shifts) {
			f, ok := st.Fiter.(*final)
			spec.Assert("clone of the estimator", ok && f != s.last && f.fits == -1 && f.a == s.last.a)
		} else if s.inv[i] {
			t, ok := st.Fiter.(*invertible)
			spec.Assert("clone of an invertible step", ok && &t.shift != s.shifts[i] && t.fits == -1 && t.dx == s.shifts[i].dx)
		} else {
			t, ok := st.Fiter.(*shift)
			spec.Assert("clone of a step", ok && t != s.shifts[i] && t.fits == -1 && t.dx == s.shifts[i].dx)
		}
	}
	c.Fit(s.X, s.Y)
	spec.Assert("the original is unchanged", spec.Unchanged(fz))
}

// BoundedMakePipeline: the steps are kept in order, named after their types.
func BoundedMakePipeline() {
	a, b, f := &shift{dx: spec.Float("dx")}, &invertible{shift{dy: spec.Float("dy")}}, &final{a: spec.Float("a")}
	p := pipeline.MakePipeline(a, b, f)
	spec.Assert("steps", len(p.NamedSteps) == 3 && p.NamedSteps[0].Fiter == base.Fiter(a) && p.NamedSteps[1].Fiter == base.Fiter(b) && p.NamedSteps[2].Fiter == base.Fiter(f))
	spec.Assert("names", p.NamedSteps[0].Name == "*c05.shift" && p.NamedSteps[1].Name == "*c05.invertible" && p.NamedSteps[2].Name == "*c05.final")
}
