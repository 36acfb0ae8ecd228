// Package c13 holds the contracts of the neighbor searches and the predictors built on them.
package c13

import (
	"math"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/neighbors"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

// fitted are neighbors fitted on the n rows of T, searched by brute force.
func fitted(T *mat.Dense, metric string, p float64) *neighbors.NearestNeighbors {
	m := neighbors.NewNearestNeighbors()
	m.Algorithm, m.Metric, m.P, m.NJobs = "brute", metric, p, spec.IntIn("jobs", -1, 3)
	m.Fit(T, nil)
	return m
}

// dist is the distance between row s of X and row i of T.
func dist(p float64, X, T *mat.Dense, s, i int) float64 {
	_, k := X.Dims()
	d := func(j int) float64 { return math.Abs(X.At(s, j) - T.At(i, j)) }
	if p == 1 {
		return spec.Sum(k, d)
	}
	return math.Sqrt(spec.Sum(k, func(j int) float64 { return d(j) * d(j) }))
}

// ContractKNeighbors: brute-force search returns the K smallest distances in increasing order and the rows they belong to.
func ContractKNeighbors() {
	n, q, k := spec.Nat("n", 1), spec.Nat("q", 1), spec.Nat("k", 1)
	K := spec.IntIn("K", 1, n)
	T, X := spec.Matrix("T", n, k), spec.Matrix("X", q, k)
	metric := []string{"euclidean", "manhattan", "cityblock"}[spec.Choose("metric", 3)]
	p := 2.
	if metric != "euclidean" {
		p = 1
	}
	m := fitted(T, metric, 3)
	fz := spec.Freeze(T, X, m)
	ds, is := m.KNeighbors(X, K)
	r, c := ds.Dims()
	r2, c2 := is.Dims()
	spec.Assert("shapes", r == q && c == K && r2 == q && c2 == K)
	spec.Assert("distances are the smallest ones, in increasing order", spec.Forall2(q, K, func(s, i int) bool {
		return spec.Eq(ds.At(s, i), spec.Sorted(n, i, func(t int) float64 { return dist(p, X, T, s, t) }))
	}))
	spec.Assert("each distance belongs to its index", spec.Forall2(q, K, func(s, i int) bool {
		t := int(is.At(s, i))
		return 0 <= t && t < n && is.At(s, i) == float64(t) && spec.Eq(ds.At(s, i), dist(p, X, T, s, t))
	}))
	spec.Assert("indices are distinct", spec.Forall2(q, K, func(s, i int) bool {
		return spec.Forall(i, func(j int) bool { return is.At(s, i) != is.At(s, j) })
	}))
	spec.Assert("model and inputs unchanged", spec.Unchanged(fz))
}

// search replaces KNeighbors by its contract (ContractKNeighbors): some distances and some rows in range.
func search(n, q, K int, X mat.Matrix) {
	spec.UseContract("(*github.com/pa-m/sklearn/neighbors.NearestNeighbors).KNeighbors", func(m *neighbors.NearestNeighbors, Q mat.Matrix, k int) (distances, indices *mat.Dense) {
		spec.Assert("searched for the neighbors of the queries", k == K && spec.Forall2(q, 2, func(i, j int) bool { return Q.At(i, j) == X.At(i, j) }))
		return mat.DenseCopyOf(spec.MatrixIn("distances", q, K, 0, 100)), mat.DenseCopyOf(spec.LabelMatrix("neighbors", q, K, n))
	})
}

// ContractRegressor: the prediction is the (weighted) mean of the targets of the K nearest training rows.
func ContractRegressor() {
	n, q, o := spec.Nat("n", 1), spec.Nat("q", 1), spec.Nat("outputs", 1)
	K := spec.IntIn("K", 1, n)
	T, Y, X := spec.Matrix("T", n, 2), spec.Matrix("Y", n, o), spec.Matrix("X", q, 2)
	search(n, q, K, X)
	weights := []string{"uniform", "distance"}[spec.Choose("weights", 2)]
	m := neighbors.NewKNeighborsRegressor(K, weights).(*neighbors.KNeighborsRegressor)
	m.Algorithm = "brute"
	fz := spec.Freeze(T, Y, X)
	m.Fit(T, Y)
	spec.Assert("number of outputs", m.GetNOutputs() == o)
	D, I := m.KNeighbors(X, K)
	P := &mat.Dense{}
	if spec.Choose("destination", 2) == 1 {
		P = spec.Matrix("P", q, o)
	}
	R := m.Predict(X, P)
	w := func(s, i int) float64 {
		if weights == "distance" {
			return 1 / (1e-15 + D.At(s, i))
		}
		return 1
	}
	r, c := P.Dims()
	spec.Assert("shape", r == q && c == o)
	spec.Assert("weighted mean of the neighbors' targets", spec.Forall2(q, o, func(s, j int) bool {
		return spec.Eq(P.At(s, j), spec.Sum(K, func(i int) float64 { return w(s, i) * Y.At(int(I.At(s, i)), j) })/spec.Sum(K, func(i int) float64 { return w(s, i) }))
	}))
	spec.Assert("the result is returned too", spec.Forall2(q, o, func(s, j int) bool { return R.At(s, j) == P.At(s, j) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractGraph: one (or the distance) for each neighbor, zero elsewhere.
func ContractGraph() {
	n, q := spec.Nat("n", 1), spec.Nat("q", 1)
	K := spec.IntIn("K", 1, n)
	T, X := spec.Matrix("T", n, 2), spec.Matrix("X", q, 2)
	search(n, q, K, X)
	m := fitted(T, "euclidean", 2)
	self := spec.Bool("self")
	fz := spec.Freeze(T, X, m)
	D, I := m.KNeighbors(X, K)
	// the neighbors found are distinct (ContractKNeighbors)
	spec.Assume(spec.Forall2(q, K, func(s, i int) bool {
		return spec.Forall(i, func(j int) bool { return I.At(s, i) != I.At(s, j) })
	}))
	mode := []string{"connectivity", "distance"}[spec.Choose("mode", 2)]
	G := m.KNeighborsGraph(X, K, mode, self)
	r, c := G.Dims()
	spec.Assert("shape", r == q && c == n)
	if mode == "connectivity" {
		spec.Assert("edges", spec.Forall2(q, n, func(s, t int) bool {
			edge := spec.Exists(K, func(i int) bool { return int(I.At(s, i)) == t })
			if s == t && !self {
				edge = false
			}
			return G.At(s, t) == spec.B2F(edge)
		}))
	} else {
		spec.Assert("no edge to rows that are not neighbors", spec.Forall2(q, n, func(s, t int) bool {
			return spec.Exists(K, func(i int) bool { return int(I.At(s, i)) == t && (self || s != t) }) || G.At(s, t) == 0
		}))
		spec.Assert("edges carry the distance", spec.Forall2(q, K, func(s, i int) bool {
			t := int(I.At(s, i))
			return s == t && !self || G.At(s, t) == D.At(s, i)
		}))
	}
	spec.Assert("model and inputs unchanged", spec.Unchanged(fz))
}

// BoundedRadius: the result is exactly the training rows within the radius, nearest first.
func BoundedRadius() {
	n, q := spec.Nat("n", 1), spec.Nat("q", 1)
	T, X := spec.Matrix("T", n, 2), spec.Matrix("X", q, 2)
	search(n, q, n, X)
	m := fitted(T, "euclidean", 2)
	radius := spec.Float("radius")
	fz := spec.Freeze(T, X, m)
	D, I := m.KNeighbors(X, n)
	// the distances found are sorted (ContractKNeighbors)
	spec.Assume(spec.Forall2(q, n, func(s, i int) bool {
		return spec.Forall(i, func(j int) bool { return D.At(s, j) <= D.At(s, i) })
	}))
	ds, is := m.RadiusNeighbors(X, radius)
	spec.Assert("a list per query", len(ds) == q && len(is) == q)
	spec.Assert("as many distances as indices", spec.Forall(q, func(s int) bool { return len(ds[s]) == len(is[s]) && len(ds[s]) <= n }))
	spec.Assert("all listed rows are within the radius", spec.Forall2(q, n, func(s, i int) bool {
		return i >= len(ds[s]) || ds[s][i] == D.At(s, i) && float64(is[s][i]) == I.At(s, i) && D.At(s, i) <= radius
	}))
	spec.Assert("all rows within the radius are listed", spec.Forall2(q, n, func(s, i int) bool {
		return i < len(ds[s]) || D.At(s, i) > radius
	}))
	spec.Assert("model and inputs unchanged", spec.Unchanged(fz))
}

// BoundedClassifier: the predicted class has the largest total weight among the K nearest rows; probabilities are the shares of the weights.
func BoundedClassifier() {
	n, q, o := spec.Nat("n", 1), spec.Nat("q", 1), spec.IntIn("outputs", 1, 2)
	K := spec.IntIn("K", 1, n)
	T, Y, X := spec.Matrix("T", n, 2), spec.LabelMatrix("Y", n, o, 3), spec.Matrix("X", q, 2)
	weights := []string{"uniform", "distance"}[spec.Choose("weights", 2)]
	m := neighbors.NewKNeighborsClassifier(K, weights)
	m.Algorithm = "brute"
	fz := spec.Freeze(T, Y, X)
	m.Fit(T, Y)
	D, I := m.KNeighbors(X, K)
	w := func(s, i int) float64 {
		if weights == "distance" {
			return 1 / (1e-15 + D.At(s, i))
		}
		return 1
	}
	total := func(s, j int, c float64) float64 {
		return spec.Sum(K, func(i int) float64 { return w(s, i) * spec.B2F(Y.At(int(I.At(s, i)), j) == c) })
	}
	P := &mat.Dense{}
	if spec.Choose("destination", 2) == 1 {
		P = spec.Matrix("P", q, o)
	}
	m.Predict(X, P)
	r, c := P.Dims()
	spec.Assert("shape", r == q && c == o)
	spec.Assert("heaviest class", spec.Forall2(q, o, func(s, j int) bool {
		return total(s, j, P.At(s, j)) > 0 && spec.Forall(3, func(c int) bool { return spec.Le(total(s, j, float64(c)), total(s, j, P.At(s, j))) })
	}))
	if o == 1 {
		cls := m.Classes[0]
		spec.Assert("classes sorted", spec.Forall(len(cls)-1, func(i int) bool { return cls[i] < cls[i+1] }))
		spec.Assert("classes of the targets", spec.Forall(n, func(i int) bool {
			return spec.Exists(len(cls), func(c int) bool { return cls[c] == Y.At(i, 0) })
		}))
		Q := spec.Matrix("Q", q, len(cls))
		m.PredictProba(X, Q)
		spec.Assert("probabilities", spec.Forall2(q, len(cls), func(s, c int) bool {
			return spec.Eq(Q.At(s, c), total(s, 0, cls[c])/spec.Sum(K, func(i int) float64 { return w(s, i) }))
		}))
	}
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// BoundedKDTree: the search in a k-d tree finds the same distances as the search through all rows (up to 40 rows, 3 columns).
func BoundedKDTree() {
	n, q, k := spec.IntIn("n", 1, 40), spec.Nat("q", 1), spec.IntIn("k", 1, 3)
	K := spec.IntIn("K", 1, n)
	T, X := spec.Matrix("T", n, k), spec.Matrix("X", q, k)
	metric := []string{"euclidean", "manhattan"}[spec.Choose("metric", 2)]
	p := 2.
	if metric == "manhattan" {
		p = 1
	}
	m := neighbors.NewNearestNeighbors()
	m.Algorithm, m.Metric, m.LeafSize = "kd_tree", metric, spec.IntIn("leaf", 1, 5)
	m.Fit(T, nil)
	D, I := m.KNeighbors(X, K)
	spec.Assert("distances are the smallest ones, in increasing order", spec.Forall2(q, K, func(s, i int) bool {
		return spec.Eq(D.At(s, i), spec.Sorted(n, i, func(t int) float64 { return dist(p, X, T, s, t) }))
	}))
	spec.Assert("each distance belongs to its index", spec.Forall2(q, K, func(s, i int) bool {
		t := int(I.At(s, i))
		return 0 <= t && t < n && spec.Eq(D.At(s, i), dist(p, X, T, s, t))
	}))
	spec.Assert("indices are distinct", spec.Forall2(q, K, func(s, i int) bool {
		return spec.Forall(i, func(j int) bool { return I.At(s, i) != I.At(s, j) })
	}))
}

// BoundedKDTreeQuery: searching a k-d tree directly, for any Minkowski order, any layout of the queries, with a bound on the
// distance and with more neighbours asked than there are rows (missing neighbours are at infinite distance).
func BoundedKDTreeQuery() {
	n, q, k := spec.IntIn("n", 1, 40), spec.Nat("q", 1), spec.IntIn("k", 1, 3)
	K := spec.IntIn("K", 1, n+2)
	T, X := spec.Matrix("T", n, k), spec.Matrix("X", q, k)
	p := []float64{1, 2, 3, math.Inf(1)}[spec.Choose("order", 4)]
	between := func(s, t int) float64 {
		d := 0.
		for j := 0; j < k; j++ {
			v := math.Abs(X.At(s, j) - T.At(t, j))
			if math.IsInf(p, 1) {
				d = math.Max(d, v)
			} else {
				d += math.Pow(v, p)
			}
		}
		if math.IsInf(p, 1) {
			return d
		}
		return math.Pow(d, 1/p)
	}
	bound := math.Inf(1)
	if spec.Choose("bounded", 2) == 1 {
		bound = math.Abs(spec.Float("bound"))
		spec.Regular(spec.Forall2(q, n, func(s, t int) bool { return math.Abs(between(s, t)-bound) > 1e-6 }))
	}
	var queries mat.Matrix = X
	if spec.Choose("layout", 2) == 1 {
		queries = mat.DenseCopyOf(X.T()).T()
	}
	var data mat.Matrix = T
	if spec.Choose("data layout", 2) == 1 {
		data = mat.DenseCopyOf(T.T()).T()
	}
	tree := neighbors.NewKDTree(data, spec.IntIn("leaf", 1, 5))
	D, I := tree.Query(queries, K, 0, p, bound)
	spec.Assert("distances are the smallest ones within the bound, in increasing order", spec.Forall2(q, K, func(s, i int) bool {
		if i >= n {
			return math.IsInf(D.At(s, i), 1)
		}
		v := spec.Sorted(n, i, func(t int) float64 { return between(s, t) })
		if v > bound {
			return math.IsInf(D.At(s, i), 1)
		}
		return spec.Eq(D.At(s, i), v)
	}))
	spec.Assert("each distance belongs to its index", spec.Forall2(q, K, func(s, i int) bool {
		if math.IsInf(D.At(s, i), 1) {
			return true
		}
		t := int(I.At(s, i))
		return 0 <= t && t < n && spec.Eq(D.At(s, i), between(s, t))
	}))
	spec.Assert("indices are distinct", spec.Forall2(q, K, func(s, i int) bool {
		return math.IsInf(D.At(s, i), 1) || spec.Forall(i, func(j int) bool { return I.At(s, i) != I.At(s, j) })
	}))
}

// BoundedKDTreeRadius: the search in a k-d tree finds exactly the rows within the radius (up to 40 rows, 3 columns).
func BoundedKDTreeRadius() {
	n, q, k := spec.IntIn("n", 1, 40), spec.Nat("q", 1), spec.IntIn("k", 1, 3)
	T, X := spec.Matrix("T", n, k), spec.Matrix("X", q, k)
	radius := math.Abs(spec.Float("radius"))
	m := neighbors.NewNearestNeighbors()
	m.Algorithm, m.LeafSize = "kd_tree", spec.IntIn("leaf", 1, 5)
	m.Fit(T, nil)
	ds, is := m.RadiusNeighbors(X, radius)
	spec.Regular(spec.Forall2(q, n, func(s, t int) bool { return math.Abs(dist(2, X, T, s, t)-radius) > 1e-6 }))
	spec.Assert("rows within the radius", spec.Forall2(q, n, func(s, t int) bool {
		in := spec.Count(len(is[s]), func(i int) bool { return is[s][i] == t })
		if dist(2, X, T, s, t) <= radius {
			return in == 1
		}
		return in == 0
	}))
	spec.Assert("each distance belongs to its index", spec.Forall(q, func(s int) bool {
		return spec.Forall(len(is[s]), func(i int) bool { return spec.Eq(ds[s][i], dist(2, X, T, s, is[s][i])) })
	}))
}

// BoundedCentroid: the predicted class is the one whose centroid (mean, or median for manhattan) is nearest.
func BoundedCentroid() {
	n, q, k := spec.Nat("n", 1), spec.Nat("q", 1), spec.IntIn("k", 1, 3)
	T, Y, X := spec.Matrix("T", n, k), spec.LabelMatrix("Y", n, 1, 3), spec.Matrix("X", q, k)
	metric := []string{"euclidean", "manhattan"}[spec.Choose("metric", 2)]
	m := neighbors.NewNearestCentroid(metric, 0)
	fz := spec.Freeze(T, Y, X)
	m.Fit(T, Y)
	cls := m.Classes[0]
	spec.Assert("classes sorted", spec.Forall(len(cls)-1, func(i int) bool { return cls[i] < cls[i+1] }))
	spec.Assert("class counts", spec.Forall(len(cls), func(c int) bool {
		return m.ClassCount[0][c] > 0 && m.ClassCount[0][c] == spec.Count(n, func(i int) bool { return Y.At(i, 0) == cls[c] })
	}) && spec.Sum(len(cls), func(c int) float64 { return float64(m.ClassCount[0][c]) }) == float64(n))
	C := m.Centroids
	if metric == "euclidean" {
		spec.Assert("means", spec.Forall2(len(cls), k, func(c, j int) bool {
			return spec.Eq(C.At(c, j)*float64(m.ClassCount[0][c]), spec.Sum(n, func(i int) float64 { return T.At(i, j) * spec.B2F(Y.At(i, 0) == cls[c]) }))
		}))
	} else {
		spec.Assert("medians", spec.Forall2(len(cls), k, func(c, j int) bool {
			below := spec.Count(n, func(i int) bool { return Y.At(i, 0) == cls[c] && T.At(i, j) < C.At(c, j) })
			above := spec.Count(n, func(i int) bool { return Y.At(i, 0) == cls[c] && T.At(i, j) > C.At(c, j) })
			return 2*below <= m.ClassCount[0][c] && 2*above <= m.ClassCount[0][c]
		}))
	}
	P := &mat.Dense{}
	if spec.Choose("destination", 2) == 1 {
		P = spec.Matrix("P", q, 1)
	}
	R := m.Predict(X, P)
	r, c := P.Dims()
	spec.Assert("shape", r == q && c == 1)
	p := 2.
	if metric == "manhattan" {
		p = 1
	}
	spec.Assert("class of the nearest centroid", spec.Forall(q, func(s int) bool {
		return R.At(s, 0) == P.At(s, 0) && spec.Exists(len(cls), func(c int) bool {
			return cls[c] == P.At(s, 0) && spec.Forall(len(cls), func(o int) bool { return spec.Le(dist(p, X, C, s, c), dist(p, X, C, s, o)) })
		})
	}))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// BoundedRefit: fitting again forgets the rows fitted before, whatever the search algorithm.
func BoundedRefit() {
	k := spec.IntIn("k", 1, 3)
	n, q := spec.Nat("n", 1), spec.Nat("q", 1)
	A, T, X := spec.Matrix("A", spec.IntIn("n0", 1, 40), k), spec.Matrix("T", n, k), spec.Matrix("X", q, k)
	m, f := neighbors.NewNearestNeighbors(), neighbors.NewNearestNeighbors()
	m.Algorithm = []string{"kd_tree", "brute"}[spec.Choose("first", 2)]
	m.Fit(A, nil)
	m.Algorithm = []string{"kd_tree", "brute"}[spec.Choose("second", 2)]
	m.Fit(T, nil)
	f.Fit(T, nil)
	D, I := m.KNeighbors(X, n)
	E, _ := f.KNeighbors(X, n)
	spec.Assert("as a new model", spec.Forall2(q, n, func(s, i int) bool {
		return spec.Eq(D.At(s, i), E.At(s, i)) && I.At(s, i) < float64(n)
	}))
}

// BoundedIndependence: a fitted model keeps no reference to the caller's data, and fitting a clone leaves the original alone.
func BoundedIndependence() {
	k := spec.IntIn("k", 1, 3)
	n, q := spec.IntIn("n", 2, 40), spec.Nat("q", 1)
	T, X, Y := spec.Matrix("T", n, k), spec.Matrix("X", q, k), spec.LabelMatrix("Y", n, 1, 3)
	A, B := spec.Matrix("A", n, k), spec.LabelMatrix("B", n, 1, 3)
	K := spec.IntIn("K", 1, 2)
	algorithm := []string{"kd_tree", "brute"}[spec.Choose("algorithm", 2)]
	var m base.Predicter
	kind := spec.Choose("model", 3)
	switch kind {
	case 0:
		r := neighbors.NewKNeighborsRegressor(K, "distance").(*neighbors.KNeighborsRegressor)
		r.Algorithm, r.LeafSize = algorithm, 1
		m = r
	case 1:
		c := neighbors.NewKNeighborsClassifier(1, "uniform")
		c.Algorithm, c.LeafSize = algorithm, 1
		m = c
	case 2:
		m = neighbors.NewNearestCentroid("euclidean", 0)
	}
	spec.Assert("kind of model", m.IsClassifier() == (kind > 0))
	// ties would be broken arbitrarily
	spec.Regular(spec.Forall2(n, q, func(i, s int) bool {
		return spec.Forall(i, func(j int) bool { return math.Abs(dist(2, X, T, s, i)-dist(2, X, T, s, j)) > 1e-6 })
	}))
	m.Fit(T, Y)
	P := m.Predict(X, nil)
	spec.Assert("outputs", m.GetNOutputs() == 1)
	c := m.PredicterClone()
	c.Fit(A, B)
	same := func() bool {
		R := m.Predict(X, nil)
		return spec.Forall(q, func(s int) bool { return R.At(s, 0) == P.At(s, 0) })
	}
	spec.Assert("fitting a clone leaves the original alone", same())
	T.Copy(A)
	Y.Copy(B)
	spec.Assert("the model keeps its own copy of the data", same())
}
