// Package c03 holds the contracts of the splitters.
package c03

import (
	"math"

	"github.com/pa-m/randomkit"
	"github.com/pa-m/sklearn/base"
	modelselection "github.com/pa-m/sklearn/model_selection"
	"github.com/pa-m/sklearn/zzverif/spec"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

// source is a random source of which nothing is known.
type source struct{}

func (source) Uint64() uint64 { return 0 }
func (source) Seed(uint64)    {}

// chooser is a random source that shuffles and draws by arbitrary methods of its own.
type chooser struct{ source }

func (chooser) Shuffle(n int, swap func(i, j int)) {
	t := spec.Nat("swaps", 0)
	x, y := spec.IntsIn("swapped", t, 0, n-1), spec.IntsIn("with", t, 0, n-1)
	for i := 0; i < t; i++ {
		swap(x[i], y[i])
	}
}
func (chooser) Intn(n int) int { return spec.IntIn("drawn", 0, n-1) }

// once holds when each of 0, ..., n-1 is in exactly one place of train and test together.
func once(n int, train, test []int) bool {
	return spec.Forall(n, func(v int) bool {
		return spec.Count(len(train), func(i int) bool { return train[i] == v })+spec.Count(len(test), func(i int) bool { return test[i] == v }) == 1
	})
}

// shuffle is the contract of all methods that shuffle: some number of swaps of positions below n.
func shuffle(n int, swap func(i, j int)) { chooser{}.Shuffle(n, swap) }

// ContractKFold: NSplits splits, each of which puts every sample in exactly one of its train and test sets, the test sets having the documented sizes.
func ContractKFold() {
	n := spec.Nat("n", 1)
	folds := spec.IntIn("folds", 1, n)
	want := folds
	X, Y := spec.Matrix("X", n, 2), spec.Matrix("Y", n, 1)
	kf := &modelselection.KFold{NSplits: folds, Shuffle: spec.Choose("shuffle", 2) == 1}
	switch spec.Choose("source", 3) {
	case 0: // the source of the random number package
		spec.UseContract("golang.org/x/exp/rand.Shuffle", shuffle)
		spec.UseContract("golang.org/x/exp/rand.Intn", func(n int) int { return chooser{}.Intn(n) })
	case 1: // a source used through that package's methods
		kf.RandomState = source{}
		spec.UseContract("golang.org/x/exp/rand.New", func(src rand.Source) *rand.Rand { return nil })
		spec.UseContract("(*golang.org/x/exp/rand.Rand).Shuffle", func(r *rand.Rand, n int, swap func(i, j int)) { shuffle(n, swap) })
		spec.UseContract("(*golang.org/x/exp/rand.Rand).Intn", func(r *rand.Rand, n int) int { return chooser{}.Intn(n) })
	case 2: // a source with methods of its own
		kf.RandomState = chooser{}
	}
	spec.Assert("number of splits", kf.GetNSplits(X, Y) == folds)
	if spec.Choose("default", 2) == 1 {
		spec.Assume(n >= 3)
		kf.NSplits, want = 0, 3
		spec.Assert("three splits by default", kf.GetNSplits(X, Y) == 3)
	}
	fz := spec.Freeze(X, Y)
	lo := n / want
	larger := 0
	spec.OnSend(func(s modelselection.Split) {
		te := len(s.TestIndex)
		spec.Assert("test sets share the samples evenly", te == lo || te == lo+1 && n%want != 0)
		if te > lo {
			larger++
		}
		spec.Assert("sizes", len(s.TrainIndex)+te == n)
		spec.Assert("every sample once", once(n, s.TrainIndex, s.TestIndex))
	})
	ch := kf.Split(X, Y)
	spec.Assert("as many splits as asked", spec.Received(ch) == want)
	spec.Assert("test sets add up to all samples", want*lo+larger == n)
	spec.Assert("data unchanged", spec.Unchanged(fz))
}

// ContractTrainTestSplit: the train and test sets are the rows of X with those of Y, shuffled and each in one set, in the asked proportion.
func ContractTrainTestSplit() {
	n, k, o := spec.Nat("n", 2), spec.Nat("k", 1), spec.Nat("outputs", 1)
	X, Y := spec.Matrix("X", n, k), spec.Matrix("Y", n, o)
	seed := spec.Nat("seed", 0)
	spec.UseContract("(*github.com/pa-m/randomkit.RKState).Seed", func(r *randomkit.RKState, s uint64) {})
	spec.UseContract("(*github.com/pa-m/randomkit.RKState).Perm", func(r *randomkit.RKState, n int) []int {
		a := make([]int, n)
		for i := range a {
			a[i] = i
		}
		shuffle(n, func(i, j int) { a[i], a[j] = a[j], a[i] })
		return a
	})
	var size float64
	var te int
	if spec.Choose("kind", 2) == 0 {
		size = spec.FloatsIn("size", 1, 0, 1)[0]
		te = int(math.Ceil(float64(n) * size))
	} else {
		te = spec.IntIn("count", 2, n-1)
		size = float64(te)
	}
	spec.Assume(1 <= te && te < n)
	fz := spec.Freeze(X, Y)
	p := base.NewSource(uint64(seed)).Perm(n)
	spec.Assert("a permutation", once(n, p[te:], p[:te]))
	Xtrain, Xtest, ytrain, ytest := modelselection.TrainTestSplit(X, Y, size, uint64(seed))
	is := func(M *mat.Dense, r, c int) bool { a, b := M.Dims(); return a == r && b == c }
	spec.Assert("shapes", is(Xtrain, n-te, k) && is(Xtest, te, k) && is(ytrain, n-te, o) && is(ytest, te, o))
	spec.Assert("test rows", spec.Forall2(te, k, func(i, j int) bool { return Xtest.At(i, j) == X.At(p[i], j) }))
	spec.Assert("test targets", spec.Forall2(te, o, func(i, j int) bool { return ytest.At(i, j) == Y.At(p[i], j) }))
	spec.Assert("train rows", spec.Forall2(n-te, k, func(i, j int) bool { return Xtrain.At(i, j) == X.At(p[te+i], j) }))
	spec.Assert("train targets", spec.Forall2(n-te, o, func(i, j int) bool { return ytrain.At(i, j) == Y.At(p[te+i], j) }))
	spec.Assert("data unchanged", spec.Unchanged(fz))
}

// BoundedSources: with a seeded source, splits are reproducible: a clone of the splitter gives the same splits, whatever was drawn in between.
func BoundedSources() {
	n := spec.IntIn("n", 1, 12)
	kf := &modelselection.KFold{NSplits: spec.IntIn("folds", 1, n), Shuffle: spec.Bool("shuffle")}
	seed := uint64(spec.Nat("seed", 0))
	if spec.Bool("locked") {
		kf.RandomState = base.NewLockedSource(seed)
	} else {
		kf.RandomState = base.NewSource(seed)
	}
	X, Y := spec.Matrix("X", n, 1), spec.Matrix("Y", n, 1)
	clone := kf.SplitterClone()
	var a, b []modelselection.Split
	for s := range kf.Split(X, Y) {
		a = append(a, s)
	}
	for s := range clone.Split(X, Y) {
		b = append(b, s)
	}
	same := func(x, y []int) bool {
		return len(x) == len(y) && spec.Forall(len(x), func(i int) bool { return x[i] == y[i] })
	}
	spec.Assert("every sample once", spec.Forall(len(a), func(i int) bool { return once(n, a[i].TrainIndex, a[i].TestIndex) }))
	spec.Assert("the clone gives the same splits", len(a) == len(b) && spec.Forall(len(a), func(i int) bool {
		return same(a[i].TrainIndex, b[i].TrainIndex) && same(a[i].TestIndex, b[i].TestIndex)
	}))
}

var _ base.Source = source{}
