// Package c15 holds the contracts of the interpolation functions.
package c15

import (
	"math"

	"github.com/pa-m/sklearn/interpolate"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

// ContractInterp1d: between neighbouring points, and beyond the ends, the interpolation is the straight line through the two nearest points.
func ContractInterp1d() {
	n := spec.Nat("n", 2)
	x, y := spec.SortedFloats("x", n), spec.Floats("y", n)
	q := spec.Float("q")
	i := spec.IntIn("segment", 0, n-2)
	spec.Assume(spec.Forall(n-1, func(i int) bool { return x[i] < x[i+1] }))
	where := spec.Choose("where", 4)
	if !spec.Symbolic() {
		d := spec.FloatsIn("d", 1, 0, 1)[0]
		q = []float64{x[i+1] - d*(x[i+1]-x[i]), x[i], x[0] - d, x[n-1] + d}[where]
		i = []int{i, i, 0, n - 2}[where]
	}
	k := spec.First(n, func(j int) bool { return x[j] >= q })
	switch where {
	case 0: // after point i, not after the next
		spec.Assume(x[i] < q && q <= x[i+1])
		spec.Lemma("located", k == i+1)
	case 1: // at point i
		spec.Assume(q == x[i])
		spec.Lemma("located", k == i)
	case 2: // before the first
		spec.Assume(i == 0 && q < x[0])
		spec.Lemma("located", k == 0)
	case 3: // after the last
		spec.Assume(i == n-2 && x[n-1] < q)
		spec.Lemma("located", k == n)
	}
	fz := spec.Freeze(x, y)
	f := interpolate.Interp1d(x, y)
	v := f(q)
	spec.Assert("on the line", spec.Eq(v, y[i]+(q-x[i])/(x[i+1]-x[i])*(y[i+1]-y[i])))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// ContractCubicSpline: the spline goes through the given points, whatever slopes the linear system gives.
func ContractCubicSpline() {
	n := spec.Nat("n", 2)
	x, y := spec.SortedFloats("x", n), spec.Floats("y", n)
	i := spec.IntIn("point", 0, n-1)
	spec.Assume(spec.Forall(n-1, func(i int) bool { return x[i] < x[i+1] }))
	spec.UseContract("gonum.org/v1/gonum/mat.NewSymBandDense", func(n, k int, data []float64) *mat.SymBandDense { return nil })
	spec.UseContract("(*gonum.org/v1/gonum/mat.SymBandDense).SetSymBand", func(s *mat.SymBandDense, i, j int, v float64) {})
	spec.UseContract("(*gonum.org/v1/gonum/mat.Cholesky).Factorize", func(c *mat.Cholesky, a mat.Symmetric) bool { return true })
	spec.UseContract("(*gonum.org/v1/gonum/mat.Cholesky).SolveVecTo", func(c *mat.Cholesky, dst *mat.VecDense, b mat.Vector) error {
		slopes := spec.Floats("slopes", n)
		for i := 0; i < n; i++ {
			dst.SetVec(i, slopes[i])
		}
		return nil
	})
	fz := spec.Freeze(x, y)
	f := interpolate.CubicSpline(x, y)
	k := spec.First(n-2, func(j int) bool { return x[j+1] >= x[i] })
	switch spec.Choose("where", 3) {
	case 0:
		spec.Assume(i == 0)
		spec.Lemma("located", k == 0)
	case 1:
		spec.Assume(0 < i && i < n-1)
		spec.Lemma("located", k == i-1)
	case 2:
		spec.Assume(i == n-1)
		spec.Lemma("located", k == n-2)
	}
	spec.Assert("through the point", spec.Eq(f(x[i]), y[i]))
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// points makes n points with distinct abscissae, in any order; perm lists them by abscissa.
func points(n int) (x, y []float64, perm []int) {
	x, y = make([]float64, n), spec.Floats("y", n)
	perm = make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	if spec.Bool("shuffled") {
		for i := n - 1; i > 0; i-- {
			j := spec.IntIn("swap", 0, i)
			perm[i], perm[j] = perm[j], perm[i]
		}
	}
	steps := spec.FloatsIn("step", n, .25, 3)
	at := spec.FloatsIn("start", 1, -5, 5)[0]
	for i := 0; i < n; i++ {
		x[perm[i]] = at
		at += steps[i]
	}
	return
}

// query is a number around x[perm[0]], ..., x[perm[n-1]] and its segment.
func query(x []float64, perm []int) (q float64, seg int) {
	n := len(x)
	seg = spec.IntIn("segment", 0, n-2)
	a, b := x[perm[seg]], x[perm[seg+1]]
	switch spec.IntIn("where", 0, 6) {
	case 0:
		return a, seg
	case 1:
		return b, seg
	case 2:
		return x[perm[0]] - spec.FloatsIn("before", 1, 0, 4)[0], 0
	case 3:
		return x[perm[n-1]] + spec.FloatsIn("after", 1, 0, 4)[0], n - 2
	}
	return a + spec.FloatsIn("t", 1, 0, 1)[0]*(b-a), seg
}

func line(q, x0, y0, x1, y1 float64) float64 { return y0 + (q-x0)/(x1-x0)*(y1-y0) }

func close(a, b float64) bool {
	return math.Abs(a-b) <= 1e-6*(1+math.Abs(a)+math.Abs(b)) || a != a && b != b
}

// BoundedInterp1d: points in any order; missing values (NaN) between others are bridged.
func BoundedInterp1d() {
	n := spec.IntIn("n", 2, 8)
	x, y, p := points(n)
	for i := 1; i < n-1; i++ {
		if spec.IntIn("missing", 0, 3) == 0 {
			y[p[i]] = math.NaN()
		}
	}
	fz := spec.Freeze(x, y)
	f := interpolate.Interp1d(x, y)
	for k := 0; k < 4; k++ {
		q, s := query(x, p)
		if y[p[s]] != y[p[s]] && q <= x[p[s]] || y[p[s+1]] != y[p[s+1]] && q >= x[p[s+1]] {
			continue // at a missing value
		}
		a, b := s, s+1
		for y[p[a]] != y[p[a]] {
			a--
		}
		for y[p[b]] != y[p[b]] {
			b++
		}
		spec.Assert("on the line through the nearest points", close(f(q), line(q, x[p[a]], y[p[a]], x[p[b]], y[p[b]])))
	}
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// BoundedInterp2d: linear in y along each of the two neighbouring lines of points with the same x, then linear in x; the outermost cells extend beyond the points.
func BoundedInterp2d() {
	cols := spec.IntIn("columns", 2, 4)
	xs, _, px := points(cols)
	grid := spec.Bool("grid")
	var x, y, z []float64
	ys, zs, ps := make([][]float64, cols), make([][]float64, cols), make([][]int, cols)
	for c := range ys {
		if c == 0 || !grid {
			ys[c], zs[c], ps[c] = points(spec.IntIn("rows", 2, 4))
		} else {
			ys[c], zs[c], ps[c] = ys[0], spec.Floats("z", len(ys[0])), ps[0]
		}
		for i := range ys[c] {
			x, y, z = append(x, xs[c]), append(y, ys[c][i]), append(z, zs[c][i])
		}
	}
	for i := len(x) - 1; i > 0; i-- {
		j := spec.IntIn("swap", 0, i)
		x[i], x[j], y[i], y[j], z[i], z[j] = x[j], x[i], y[j], y[i], z[j], z[i]
	}
	fz := spec.Freeze(x, y, z)
	f := interpolate.Interp2d(x, y, z)
	for k := 0; k < 4; k++ {
		qx, sx := query(xs, px)
		a, b := px[sx], px[sx+1]
		qy, _ := query(ys[a], ps[a])
		at := func(c int) float64 {
			s := 0
			for s < len(ys[c])-2 && ys[c][ps[c][s+1]] < qy {
				s++
			}
			return line(qy, ys[c][ps[c][s]], zs[c][ps[c][s]], ys[c][ps[c][s+1]], zs[c][ps[c][s+1]])
		}
		spec.Assert("bilinear", close(f(qx, qy), line(qx, xs[a], at(a), xs[b], at(b))))
	}
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}

// BoundedCubicSpline: a cubic polynomial between neighbouring points, with continuous first and second derivatives, the latter zero at the ends.
func BoundedCubicSpline() {
	n := spec.IntIn("n", 2, 8)
	x, y, p := points(n)
	fz := spec.Freeze(x, y)
	f := interpolate.CubicSpline(x, y)
	// coefficients of the cubic in the segment, as a polynomial in (q-x0)/h, from four values
	type cubic struct{ a, b, c, d, h float64 }
	segs := make([]cubic, n-1)
	for s := range segs {
		x0, h := x[p[s]], x[p[s+1]]-x[p[s]]
		v0, v1, v2, v3 := f(x0), f(x0+h/3), f(x0+2*h/3), f(x0+h)
		spec.Assert("through the points", close(v0, y[p[s]]) && close(v3, y[p[s+1]]))
		segs[s] = cubic{v0, -5.5*v0 + 9*v1 - 4.5*v2 + v3, 9*v0 - 22.5*v1 + 18*v2 - 4.5*v3, -4.5*v0 + 13.5*v1 - 13.5*v2 + 4.5*v3, h}
		t := spec.FloatsIn("t", 1, 0, 1)[0]
		if s == 0 && spec.Bool("before") {
			t = -t
		}
		if s == n-2 && spec.Bool("after") {
			t++
		}
		g := segs[s]
		spec.Assert("cubic in each segment", close(f(x0+t*h), g.a+t*(g.b+t*(g.c+t*g.d))))
	}
	for s := range segs {
		g := segs[s]
		if s == 0 {
			spec.Assert("natural start", close(1+2*g.c/(g.h*g.h), 1))
		}
		if s == n-2 {
			spec.Assert("natural end", close(1+(2*g.c+6*g.d)/(g.h*g.h), 1))
		} else {
			k := segs[s+1]
			spec.Assert("continuous slope", close(1+(g.b+2*g.c+3*g.d)/g.h, 1+k.b/k.h))
			spec.Assert("continuous curvature", close(1+(2*g.c+6*g.d)/(g.h*g.h), 1+2*k.c/(k.h*k.h)))
		}
	}
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}
