// Package c04 holds the contracts of cross validation and grid search.
package c04

import (
	"fmt"
	"sort"
	"time"

	"github.com/pa-m/sklearn/base"
	modelselection "github.com/pa-m/sklearn/model_selection"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

// est is an estimator with known behaviour: it keeps what it is fitted on and predicts from it.
type est struct {
	A, B     float64
	fits     int
	X, Y     mat.Matrix
	tested   mat.Matrix
	predicts int
	clones   int
	nOutputs int
	Kind     string
	Depth    int
	Flag     bool
	Opt      interface{}
}

func (e *est) Fit(X, Y mat.Matrix) base.Fiter {
	e.fits++
	e.X, e.Y = X, Y
	_, e.nOutputs = Y.Dims()
	return e
}
func (e *est) GetNOutputs() int { return e.nOutputs }
func (e *est) value(X mat.Matrix, i, j int) float64 {
	return e.A*X.At(i, 0) + e.B*float64(j) + e.Y.At(0, j)
}
func (e *est) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
	e.predicts++
	e.tested = X
	n, _ := X.Dims()
	for i := 0; i < n; i++ {
		for j := 0; j < e.nOutputs; j++ {
			Y.Set(i, j, e.value(X, i, j))
		}
	}
	return base.ToDense(Y)
}
func (e *est) Score(X, Y mat.Matrix) float64 { return 0 }
func (e *est) IsClassifier() bool            { return false }
func (e *est) PredicterClone() base.Predicter {
	c := *e
	c.clones++
	return &c
}

// splits is a splitter that makes given splits.
type splits struct{ s []modelselection.Split }

func (s *splits) Split(X, Y *mat.Dense) chan modelselection.Split {
	ch := make(chan modelselection.Split, len(s.s))
	spec.Feed(ch, len(s.s), func(i int) modelselection.Split { return s.s[i] })
	return ch
}
func (s *splits) GetNSplits(X, Y *mat.Dense) int         { return len(s.s) }
func (s *splits) SplitterClone() modelselection.Splitter { c := *s; return &c }

// scorer is a scorer of which the value tells its arguments apart.
func scorer(Ytrue, Ypred mat.Matrix) float64 {
	n, c := Ytrue.Dims()
	s := 0.
	for i := 0; i < n; i++ {
		for j := 0; j < c; j++ {
			s += Ytrue.At(i, j) * (float64(i) + 2*Ypred.At(i, j))
		}
	}
	return s
}

// ContractCrossValidate: the score of each split is that of a clone of the estimator, fitted on the split's train rows only, for its test rows.
func ContractCrossValidate() {
	n, k, o := spec.Nat("n", 2), spec.Nat("k", 1), spec.Nat("outputs", 1)
	X, Y := spec.Matrix("X", n, k), spec.Matrix("Y", n, o)
	cv := &splits{}
	count := 1 + spec.Choose("splits", 3)
	tr, te := []string{"train0", "train1", "train2"}, []string{"test0", "test1", "test2"}
	for s := 0; s < count; s++ {
		a := spec.IntIn(tr[s]+" size", 1, n-1)
		b := spec.IntIn(te[s]+" size", 1, n-a)
		cv.s = append(cv.s, modelselection.Split{TrainIndex: spec.IntsIn(tr[s], a, 0, n-1), TestIndex: spec.IntsIn(te[s], b, 0, n-1)})
	}
	spec.UseBody("github.com/pa-m/sklearn/base.Parallelize")
	jobs := spec.Choose("jobs", 4)
	if jobs == 0 { // one for each of the machine's processors; more than there are splits is the same as one per split
		cpus := 1 + spec.Choose("cpus", 3)
		spec.UseContract("runtime.NumCPU", func() int { return cpus })
	}
	e := &est{A: spec.Float("a"), B: spec.Float("b")}
	fz := spec.Freeze(X, Y, e, cv)
	res := modelselection.CrossValidate(e, X, Y, nil, scorer, cv, jobs)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
	spec.Assert("one result per split", len(res.TestScore) == count && len(res.Estimator) == count && len(res.FitTime) == count && len(res.ScoreTime) == count)
	for s := 0; s < count; s++ {
		train, test := cv.s[s].TrainIndex, cv.s[s].TestIndex
		c, ok := res.Estimator[s].(*est)
		spec.Assert("a clone of the estimator", ok && c != e && c.clones == 1 && c.A == e.A && c.B == e.B)
		for t := 0; t < s; t++ {
			spec.Assert("a clone for each split", c != res.Estimator[t].(*est))
		}
		spec.Assert("fitted once", c.fits == 1)
		r, w := c.X.Dims()
		spec.Assert("as many train samples", r == len(train) && w == k)
		spec.Assert("fitted on the train samples", spec.Forall2(r, k, func(i, j int) bool { return c.X.At(i, j) == X.At(train[i], j) }))
		r, w = c.Y.Dims()
		spec.Assert("as many train targets", r == len(train) && w == o)
		spec.Assert("fitted on the train targets", spec.Forall2(r, o, func(i, j int) bool { return c.Y.At(i, j) == Y.At(train[i], j) }))
		r, w = c.tested.Dims()
		spec.Assert("as many test samples", c.predicts == 1 && r == len(test) && w == k)
		spec.Assert("tested on the test samples", spec.Forall2(r, k, func(i, j int) bool { return c.tested.At(i, j) == X.At(test[i], j) }))
		spec.Assert("the score of the predictions for the test samples", spec.Eq(res.TestScore[s], spec.Sum(len(test), func(i int) float64 {
			return spec.Sum(o, func(j int) float64 {
				return Y.At(test[i], j) * (float64(i) + 2*(e.A*X.At(test[i], 0)+e.B*float64(j)+Y.At(train[0], j)))
			})
		})))
	}
}

// BoundedDefaultSplitter: without a splitter, three splits of all samples are made.
func BoundedDefaultSplitter() {
	n := spec.IntIn("n", 3, 12)
	X, Y := spec.Matrix("X", n, 1), spec.Matrix("Y", n, 1)
	res := modelselection.CrossValidate(&est{A: 1}, X, Y, nil, scorer, nil, spec.IntIn("jobs", 0, 4))
	spec.Assert("three splits", len(res.TestScore) == 3 && len(res.Estimator) == 3)
	for _, e := range res.Estimator {
		a, _ := e.(*est).X.Dims()
		b, _ := e.(*est).tested.Dims()
		spec.Assert("all samples", a+b == n && (b == n/3 || b == n/3+1))
	}
}

// BoundedSort: sorting the result puts the highest scores first and keeps what belongs to a split together.
func BoundedSort() {
	n := spec.IntIn("n", 0, 6)
	r := modelselection.CrossValidateResult{TestScore: spec.Floats("score", n), FitTime: make([]time.Duration, n), ScoreTime: make([]time.Duration, n), Estimator: make([]base.Predicter, n)}
	orig := append([]float64(nil), r.TestScore...)
	for i := 0; i < n; i++ {
		r.FitTime[i], r.ScoreTime[i], r.Estimator[i] = time.Duration(i), time.Duration(10+i), &est{Depth: i}
	}
	sort.Sort(r)
	seen := make([]bool, n)
	for i := 0; i < n; i++ {
		spec.Assert("highest first", i == 0 || r.TestScore[i-1] >= r.TestScore[i])
		k := int(r.FitTime[i])
		spec.Assert("rows together", !seen[k] && r.TestScore[i] == orig[k] && r.ScoreTime[i] == time.Duration(10+k) && r.Estimator[i].(*est).Depth == k)
		seen[k] = true
	}
}

// BoundedParameterGrid: the parameter grid holds each combination of the listed values once.
func BoundedParameterGrid() {
	grid := map[string][]interface{}{}
	total := 1
	names := []string{"a", "b", "c", "d"}[:spec.IntIn("parameters", 0, 4)]
	for _, name := range names {
		m := spec.IntIn(name, 0, 3)
		vs := make([]interface{}, m)
		for i := range vs {
			vs[i] = i
		}
		grid[name] = vs
		total *= m
	}
	if len(names) == 0 {
		total = 0
	}
	out := modelselection.ParameterGrid(grid)
	spec.Assert("number of combinations", len(out) == total)
	seen := map[int]bool{}
	for _, p := range out {
		spec.Assert("a value for each parameter", len(p) == len(names))
		code := 0
		for _, name := range names {
			v, ok := p[name].(int)
			spec.Assert("a listed value", ok && v < len(grid[name]))
			code = 4*code + v
		}
		spec.Assert("no combination twice", !seen[code])
		seen[code] = true
	}
}

// BoundedGridSearch: each combination is evaluated by cross validation of the estimator with exactly these parameters, and the best is kept. runs=250
func BoundedGridSearch() {
	n, k, o := spec.IntIn("n", 2, 7), spec.IntIn("k", 1, 3), spec.IntIn("outputs", 1, 2)
	X, Y := spec.Matrix("X", n, k), spec.Matrix("Y", n, o)
	cv := &splits{}
	for s := spec.IntIn("splits", 1, 4); s > 0; s-- {
		a := spec.IntIn("train size", 1, n-1)
		b := spec.IntIn("test size", 1, n-a)
		cv.s = append(cv.s, modelselection.Split{TrainIndex: spec.IntsIn("train", a, 0, n-1), TestIndex: spec.IntsIn("test", b, 0, n-1)})
	}
	values := func(name string, f func() interface{}) []interface{} {
		vs := make([]interface{}, spec.IntIn(name, 1, 3))
		for i := range vs {
			vs[i] = f()
		}
		return vs
	}
	grid := map[string][]interface{}{}
	names := map[string]string{}
	add := func(key string, spellings []string, f func() interface{}) {
		if spec.Bool(key) {
			name := spellings[spec.IntIn("spelling", 0, len(spellings)-1)]
			names[key] = name
			grid[name] = values(name, f)
		}
	}
	add("A", []string{"A", "a"}, func() interface{} { return spec.Float("A") })
	add("B", []string{"B", "b"}, func() interface{} {
		switch spec.IntIn("type", 0, 2) {
		case 0:
			return spec.IntIn("B", -3, 3)
		case 1:
			return float32(spec.IntIn("B", -3, 3))
		}
		return spec.Float("B")
	})
	add("Depth", []string{"Depth", "depth", "DEPTH"}, func() interface{} { return spec.IntIn("depth", -5, 5) })
	add("Kind", []string{"Kind", "kind"}, func() interface{} { return []string{"x", "y", "z"}[spec.IntIn("kind", 0, 2)] })
	add("Flag", []string{"Flag"}, func() interface{} { return spec.Bool("flag") })
	add("Opt", []string{"Opt", "opt"}, func() interface{} { return []interface{}{1, "s", 2.5}[spec.IntIn("opt", 0, 2)] })
	if len(grid) == 0 {
		grid["Depth"], names["Depth"] = []interface{}{1, 2}, "Depth"
	}
	e := &est{A: spec.Float("e.A"), B: spec.Float("e.B"), Depth: 77, Kind: "k"}
	if spec.Bool("tie") {
		e.A, e.B = 0, 0
	}
	gs := &modelselection.GridSearchCV{Estimator: e, ParamGrid: grid, Scorer: scorer, CV: cv, NJobs: spec.IntIn("jobs", -1, 4), LowerScoreIsBetter: spec.Bool("lower"), UseChannels: spec.Bool("channels")}
	fz := spec.Freeze(X, Y, e, cv, grid)
	fits := spec.IntIn("fits", 1, 2) // fitting again starts afresh
	for ; fits > 0; fits-- {
		gs.Fit(X, Y)
	}
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
	total := 1
	for _, vs := range grid {
		total *= len(vs)
	}
	spec.Assert("outputs", gs.GetNOutputs() == o)
	spec.Assert("results for each parameter", len(gs.CVResults) == len(grid)+1 && len(gs.CVResults["score"]) == total)
	tofloat := func(v interface{}, d float64) float64 {
		switch x := v.(type) {
		case int:
			return float64(x)
		case float32:
			return float64(x)
		case float64:
			return x
		}
		return d
	}
	better := func(a, b float64) bool { return gs.LowerScoreIsBetter && a < b || !gs.LowerScoreIsBetter && a > b }
	combo := map[string]int{}
	best := gs.CVResults["score"][gs.BestIndex].(float64)
	for i := 0; i < total; i++ {
		c := *e
		key := ""
		for f, name := range names {
			v := gs.CVResults[name][i]
			if f == "A" {
				c.A = tofloat(v, 0)
			} else if f == "B" {
				c.B = tofloat(v, 0)
			}
		}
		for _, f := range []string{"A", "B", "Depth", "Kind", "Flag", "Opt"} {
			if name, ok := names[f]; ok {
				key += fmt.Sprintf("%s=%T %v;", f, gs.CVResults[name][i], gs.CVResults[name][i])
			}
		}
		combo[key]++
		res := modelselection.CrossValidate(&c, X, Y, nil, scorer, cv, 1)
		mean := 0.
		for _, s := range res.TestScore {
			mean += s / float64(len(cv.s))
		}
		score := gs.CVResults["score"][i].(float64)
		spec.Assert("mean score of the combination", spec.Eq(score, mean))
		spec.Assert("no combination is better", !better(score, best))
	}
	// each combination of values as often as the grid lists it
	var walk func(fs []string, key string, m int)
	walk = func(fs []string, key string, m int) {
		if len(fs) == 0 {
			spec.Assert("every combination is evaluated", combo[key] == m)
			return
		}
		name, ok := names[fs[0]]
		if !ok {
			walk(fs[1:], key, m)
			return
		}
		count := map[string]int{}
		for _, v := range grid[name] {
			count[fmt.Sprintf("%s=%T %v;", fs[0], v, v)]++
		}
		for s, c := range count {
			walk(fs[1:], key+s, m*c)
		}
	}
	walk([]string{"A", "B", "Depth", "Kind", "Flag", "Opt"}, "", 1)
	spec.Assert("best score", gs.BestScore == best)
	spec.Assert("best parameters", len(gs.BestParams) == len(grid))
	for _, name := range names {
		spec.Assert("best parameters", gs.BestParams[name] == gs.CVResults[name][gs.BestIndex])
	}
	b := gs.BestEstimator.(*est)
	want := *e
	for f, name := range names {
		v := gs.BestParams[name]
		switch f {
		case "A":
			want.A = tofloat(v, 0)
		case "B":
			want.B = tofloat(v, 0)
		case "Depth":
			want.Depth = v.(int)
		case "Kind":
			want.Kind = v.(string)
		case "Flag":
			want.Flag = v.(bool)
		case "Opt":
			want.Opt = v
		}
	}
	spec.Assert("the best estimator has the best parameters and no others", b != e && b.A == want.A && b.B == want.B && b.Depth == want.Depth && b.Kind == want.Kind && b.Flag == want.Flag && b.Opt == want.Opt)
	// it is the one of the best fold
	res := modelselection.CrossValidate(&want, X, Y, nil, scorer, cv, 1)
	top := res.TestScore[0]
	for _, s := range res.TestScore {
		if better(s, top) {
			top = s
		}
	}
	found := false
	for i, s := range res.TestScore {
		r := res.Estimator[i].(*est)
		found = found || s == top && mat.Equal(r.X, b.X) && mat.Equal(r.Y, b.Y)
	}
	spec.Assert("the best estimator is that of the best split", b.fits == 1 && found)
	P, Q := mat.NewDense(n, o, nil), mat.NewDense(n, o, nil)
	gs.Predict(X, P)
	b.Predict(X, Q)
	spec.Assert("predictions are those of the best estimator", mat.Equal(P, Q))
}
