// Package c12 holds the contracts of the distance functions.
package c12

import (
	"math"

	"github.com/pa-m/sklearn/cluster"
	"github.com/pa-m/sklearn/neighbors"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

// vectors are two vectors of length k: rows, columns or transposed rows of matrices, contiguous or strided.
func vectors(k int) (a, b mat.Vector) {
	switch spec.Choose("storage", 3) {
	case 0:
		return spec.Matrix("A", 1, k).RowView(0), spec.Matrix("B", 1, k).RowView(0)
	case 1:
		return spec.Matrix("A", k, 2).ColView(0), spec.Matrix("B", k, 3).ColView(1)
	default:
		return spec.Matrix("A", k, 2).ColView(1), spec.Matrix("B", 2, k).RowView(1)
	}
}

// ContractEuclidean: square root of the sum of squared differences, in both packages.
func ContractEuclidean() {
	k := spec.Nat("k", 1)
	a, b := vectors(k)
	fz := spec.Freeze(a, b)
	d2 := spec.Sum(k, func(i int) float64 { return (a.AtVec(i) - b.AtVec(i)) * (a.AtVec(i) - b.AtVec(i)) })
	d, e := neighbors.EuclideanDistance(a, b), cluster.EuclideanDistance(a, b)
	spec.Assert("neighbors: euclidean distance", spec.Eq(d*d, d2) && d >= 0)
	spec.Assert("cluster: euclidean distance", spec.Eq(e*e, d2) && e >= 0)
	spec.Assert("neighbors: symmetric", spec.Eq(d, neighbors.EuclideanDistance(b, a)))
	spec.Assert("cluster: symmetric", spec.Eq(e, cluster.EuclideanDistance(b, a)))
	spec.Assert("distance to itself is zero", neighbors.EuclideanDistance(a, a) == 0 && cluster.EuclideanDistance(a, a) == 0)
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractMinkowski: p-th root of the sum of p-th powers of the absolute differences; sum for p=1; maximum for p infinite.
func ContractMinkowski() {
	k := spec.Nat("k", 1)
	a, b := vectors(k)
	fz := spec.Freeze(a, b)
	p := spec.Float("p")
	kind := spec.Choose("p", 3)
	switch kind {
	case 0:
		p = 1
	case 1:
		p = math.Inf(1)
	default:
		spec.Assume(p > 1)
	}
	var dp, d float64
	abs := func(i int) float64 { return math.Abs(a.AtVec(i) - b.AtVec(i)) }
	switch kind {
	case 0:
		dp = spec.Sum(k, func(i int) float64 { return math.Pow(abs(i), 1) })
		d = dp
	case 1:
		dp = spec.Max(k, abs)
		d = dp
	default:
		dp = spec.Sum(k, func(i int) float64 { return math.Pow(abs(i), p) })
		d = math.Pow(dp, 1/p)
	}
	spec.Assert("neighbors: power distance", spec.Eq(neighbors.MinkowskiDistanceP(a, b, p), dp))
	spec.Assert("cluster: power distance", spec.Eq(cluster.MinkowskiDistanceP(a, b, p), dp))
	spec.Assert("neighbors: distance", spec.Eq(neighbors.MinkowskiDistance(p)(a, b), d))
	spec.Assert("cluster: distance", spec.Eq(cluster.MinkowskiDistance(p)(a, b), d))
	spec.Assert("neighbors: symmetric", spec.Eq(neighbors.MinkowskiDistanceP(b, a, p), dp))
	spec.Assert("cluster: symmetric", spec.Eq(cluster.MinkowskiDistanceP(b, a, p), dp))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractRectangle: splitting yields the two halves; distances to points and rectangles are the extreme ones per axis.
func ContractRectangle() {
	k := spec.Nat("k", 1)
	lo, hi, x := spec.Floats("mins", k), spec.Floats("maxes", k), spec.Floats("x", k)
	lo2, hi2 := spec.Floats("mins2", k), spec.Floats("maxes2", k)
	spec.Assume(spec.Forall(k, func(i int) bool { return lo[i] <= hi[i] && lo2[i] <= hi2[i] }))
	r, o := neighbors.NewRectangle(hi, lo), neighbors.NewRectangle(hi2, lo2)
	fz := spec.Freeze(r, o, x)
	d := spec.IntIn("d", 0, k-1)
	split := spec.Float("split")
	less, greater := r.Split(d, split)
	spec.Assert("halves", spec.Forall(k, func(i int) bool {
		return less.Mins[i] == lo[i] && greater.Maxes[i] == hi[i] && (i == d && less.Maxes[i] == split && greater.Mins[i] == split || i != d && less.Maxes[i] == hi[i] && greater.Mins[i] == lo[i])
	}))
	p := []float64{1, 2, math.Inf(1)}[spec.Choose("p", 3)]
	norm := func(f func(i int) float64) float64 {
		switch p {
		case 1:
			return spec.Sum(k, f)
		case 2:
			return math.Sqrt(spec.Sum(k, func(i int) float64 { return f(i) * f(i) }))
		}
		return spec.Max(k, f)
	}
	spec.Assert("nearest point", spec.Eq(r.MinDistancePoint(x, p), norm(func(i int) float64 { return math.Max(0, math.Max(lo[i]-x[i], x[i]-hi[i])) })))
	spec.Assert("farthest point", spec.Eq(r.MaxDistancePoint(x, p), norm(func(i int) float64 { return math.Max(hi[i]-x[i], x[i]-lo[i]) })))
	spec.Assert("nearest points of two", spec.Eq(r.MinDistanceRectangle(o, p), norm(func(i int) float64 { return math.Max(0, math.Max(lo[i]-hi2[i], lo2[i]-hi[i])) })))
	spec.Assert("farthest points of two", spec.Eq(r.MaxDistanceRectangle(o, p), norm(func(i int) float64 { return math.Max(hi[i]-lo2[i], hi2[i]-lo[i]) })))
	spec.Assert("unchanged", spec.Unchanged(fz))
}
