package c23

import (
	"math"

	"github.com/pa-m/sklearn/cluster"
	"github.com/pa-m/sklearn/zzverif/spec"
	"gonum.org/v1/gonum/mat"
)

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-7*(1+math.Abs(a)+math.Abs(b)) }

// grid are samples on a small grid, so that ties and duplicates occur.
func grid(name string, n, c, k int) *mat.Dense {
	X := spec.LabelMatrix(name, n, c, k)
	return X
}

// BoundedKMeansFit: fitting ends, also with samples as near to several centroids; each centroid is the mean of the samples nearest to it; fitting again starts afresh; samples are unchanged. runs=4000
func BoundedKMeansFit() {
	n, c := spec.IntIn("n", 1, 14), spec.IntIn("c", 1, 3)
	K := spec.IntIn("K", 1, 4)
	spec.Assume(K <= n)
	var X *mat.Dense
	if spec.Bool("grid") {
		X = grid("X", n, c, 7)
		X.Apply(func(i, j int, v float64) float64 { return v - 3 }, X)
	} else {
		X = spec.Matrix("X", n, c)
	}
	m := &cluster.KMeans{NClusters: K, NJobs: []int{0, 1, 1, 5}[spec.IntIn("jobs", 0, 3)]}
	fz := spec.Freeze(X)
	if spec.Bool("refit") {
		m.Fit(spec.Matrix("Z", n, c), nil)
	}
	clone := m.PredicterClone()
	if m.Fit(X, nil) != m {
		spec.Assert("Fit returns the model", false)
	}
	if spec.Bool("clone") {
		clone.Fit(spec.Matrix("W", n, c), nil)
	}
	C := m.Centroids
	r, cc := C.Dims()
	spec.Assert("a centroid per cluster", r == K && cc == c)
	Y := m.Predict(X, nil)
	tied := false
	for i := 0; i < n; i++ {
		y := int(Y.At(i, 0))
		spec.Assert("a number of a cluster", 0 <= y && y < K && Y.At(i, 0) == float64(y))
		for k := 0; k < K; k++ {
			spec.Assert("a nearest centroid", dist(2, X, i, C, y) <= dist(2, X, i, C, k)+1e-9)
			// samples as near to another centroid may belong to either, by rounding errors of the order of summation
			if k != y && math.Abs(dist(2, X, i, C, y)-dist(2, X, i, C, k)) < 1e-9 {
				tied = true
			}
		}
	}
	spec.Assert("samples unchanged", spec.Unchanged(fz))
	for k := 0; k < K && !tied; k++ {
		cnt := 0.
		sum := make([]float64, c)
		for i := 0; i < n; i++ {
			if Y.At(i, 0) == float64(k) {
				cnt++
				for j := range sum {
					sum[j] += X.At(i, j)
				}
			}
		}
		for j := range sum {
			spec.Assert("a centroid is the mean of its samples", cnt == 0 || near(C.At(k, j), sum[j]/cnt))
		}
	}
	spec.Assert("samples unchanged", spec.Unchanged(fz))
}

// BoundedDBSCAN: core samples are those with enough weight within Eps; clusters are the connected core samples and the samples close to them; others are noise. runs=4000
func BoundedDBSCAN() {
	n, c := spec.IntIn("n", 1, 14), spec.IntIn("c", 1, 2)
	X := grid("X", n, c, 5)
	eps := []float64{.5, 1, 1.5, 2}[spec.Choose("eps", 4)]
	min := float64(spec.IntIn("min", 1, 5))
	cfg := &cluster.DBSCANConfig{Eps: eps, MinSamples: min, Algorithm: []string{"", "brute", "kd_tree"}[spec.Choose("algorithm", 3)], NJobs: spec.IntIn("jobs", -1, 3), LeafSize: spec.IntIn("leaf", 0, 3)}
	p := 2
	switch spec.Choose("metric", 5) {
	case 1:
		p = 1
		cfg.Metric, cfg.P = "manhattan", 1
	case 2:
		p = 1
		cfg.Metric, cfg.P = "minkowski", 1
	case 3:
		p = 0 // greatest difference
		cfg.Metric, cfg.P = "minkowski", math.Inf(1)
	case 4:
		cfg.Metric, cfg.P = "l2", 1 // P is used by the minkowski metric only
	}
	m := cluster.NewDBSCAN(cfg)
	w := make([]float64, n)
	for i := range w {
		w[i] = 1
	}
	if spec.Bool("weights") {
		w = spec.FloatsIn("w", n, -1, 3)
		m.SampleWeight = w
	}
	fz := spec.Freeze(X, w)
	if spec.Bool("refit") {
		m.Fit(grid("Z", n, c, 3), nil)
	}
	m.Fit(X, nil)
	clone := m.PredicterClone()
	if spec.Bool("clone") {
		clone.Fit(grid("W", n, c, 3), nil)
	}
	// definition
	core := make([]bool, n)
	var cores []int
	for i := range core {
		s := 0.
		for k := 0; k < n; k++ {
			if dist(p, X, i, X, k) <= eps {
				s += w[k]
			}
		}
		spec.Regular(s == min || math.Abs(s-min) > 1e-9)
		core[i] = s >= min
		if core[i] {
			cores = append(cores, i)
		}
	}
	spec.Assert("a label per sample", len(m.Labels) == n)
	same := len(cores) == len(m.CoreSampleIndices)
	for i := 0; same && i < len(cores); i++ {
		same = cores[i] == m.CoreSampleIndices[i]
	}
	spec.Assert("core samples", same)
	// components of the core samples, numbered by their first sample
	comp := make([]int, n)
	for i := range comp {
		comp[i] = -1
	}
	next := 0
	for i := range comp {
		if !core[i] || comp[i] >= 0 {
			continue
		}
		comp[i] = next
		for ch := true; ch; {
			ch = false
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					if core[a] && core[b] && comp[a] == next && comp[b] < 0 && dist(p, X, a, X, b) <= eps {
						comp[b] = next
						ch = true
					}
				}
			}
		}
		next++
	}
	for i := range comp {
		if core[i] {
			spec.Assert("connected core samples share a cluster, numbered by first sample", m.Labels[i] == comp[i])
			continue
		}
		reached, ok := false, false
		for k := range comp {
			if core[k] && dist(p, X, i, X, k) <= eps {
				reached = true
				ok = ok || m.Labels[i] == comp[k]
			}
		}
		spec.Assert("other samples belong to a cluster of a close core sample, or are noise", reached && ok || !reached && m.Labels[i] == -1)
	}
	Y := m.Predict(X, nil)
	for i := range comp {
		spec.Assert("Predict gives the labels", Y.At(i, 0) == float64(m.Labels[i]))
	}
	spec.Assert("inputs unchanged", spec.Unchanged(fz))
}
