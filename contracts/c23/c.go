// Package c23 holds the contracts of the clustering algorithms.
package c23

import (
	"math"

	"github.com/pa-m/sklearn/cluster"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

// dist is the distance between row i of A and row j of B.
func dist(p int, A mat.Matrix, i int, B mat.Matrix, j int) float64 {
	_, c := A.Dims()
	d := func(k int) float64 { return math.Abs(A.At(i, k) - B.At(j, k)) }
	if p == 1 {
		return spec.Sum(c, d)
	}
	if p == 0 {
		m := 0.
		for k := 0; k < c; k++ {
			m = math.Max(m, d(k))
		}
		return m
	}
	return math.Sqrt(spec.Sum(c, func(k int) float64 { return d(k) * d(k) }))
}

// ContractKMeansPredict: each sample gets the number of a nearest centroid.
func ContractKMeansPredict() {
	n, K, c := spec.Nat("n", 1), spec.Nat("K", 1), 1
	if spec.Choose("features", 2) == 1 {
		c = spec.Nat("c", 2)
	}
	X, C := spec.Matrix("X", n, c), spec.Matrix("C", K, c)
	m := &cluster.KMeans{NClusters: K, Centroids: C, Distance: cluster.EuclideanDistance}
	p := 2
	if spec.Choose("distance", 2) == 1 {
		p = 1
		m.Distance = cluster.MinkowskiDistance(1)
	}
	fz := spec.Freeze(X, C)
	Y := &mat.Dense{}
	if spec.Choose("destination", 2) == 1 {
		Y = spec.Matrix("Y", n, 1)
	}
	R := m.Predict(X, Y)
	r, c1 := Y.Dims()
	spec.Assert("one column, a row per sample", r == n && c1 == 1)
	spec.Assert("a nearest centroid", spec.Forall(n, func(i int) bool {
		y := int(Y.At(i, 0))
		return Y.At(i, 0) == float64(y) && 0 <= y && y < K && spec.Forall(K, func(k int) bool { return dist(p, X, i, C, y) <= dist(p, X, i, C, k) })
	}))
	spec.Assert("the result is returned too", spec.Forall(n, func(i int) bool { return R.At(i, 0) == Y.At(i, 0) }))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}
