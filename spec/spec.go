// Package spec is the contract language. A contract is a Go function over the real code. It has two
// interpretations: govc executes it symbolically (inputs are arbitrary, Assume is a precondition,
// Assert is a proof obligation), and the replay harness executes it concretely with generated inputs.
// The bodies below are the concrete interpretation; govc replaces every exported function here by its
// logical meaning.
package spec

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"unsafe"

	"gonum.org/v1/gonum/mat"
)

// ---- concrete run state

type assumeFailed struct{}

// Failure is a failed assertion.
type Failure struct{ Name, Msg string }

var rng = rand.New(rand.NewSource(1))
var trace []string
var fails []Failure
var sizeHint = 4
var failMu sync.Mutex

func logf(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)) }

// RunConcrete executes a contract once with the given seed. ok is false when a precondition was not met.
func RunConcrete(seed int64, f func()) (ok bool, failures []Failure, inputs []string) {
	rng = rand.New(rand.NewSource(seed))
	rand.Seed(seed)
	sizeHint = 2 + int(seed/8%5)
	if seed/8%29 == 28 {
		sizeHint = 30
	}
	trace, fails = nil, nil
	ok = true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(assumeFailed); is {
					ok = false
					return
				}
				fails = append(fails, Failure{"panic", fmt.Sprint(r)})
			}
		}()
		f()
	}()
	if !ok {
		fails = nil
	}
	return ok, fails, trace
}

// ---- inputs

// Nat is an arbitrary integer >= lo.
func Nat(name string, lo int) int {
	v := lo + rng.Intn(sizeHint)
	logf("%s=%d", name, v)
	return v
}

// IntIn is an arbitrary integer with lo <= v <= hi.
func IntIn(name string, lo, hi int) int {
	if hi < lo {
		panic(assumeFailed{})
	}
	v := lo + rng.Intn(hi-lo+1)
	logf("%s=%d", name, v)
	return v
}

// Int is an arbitrary integer.
func Int(name string) int {
	v := rng.Intn(15) - 5
	logf("%s=%d", name, v)
	return v
}

func real() float64 {
	switch rng.Intn(6) {
	case 0, 1, 2:
		return float64(rng.Intn(7) - 3)
	case 3:
		return float64(rng.Intn(13)-6) / 2
	}
	return rng.NormFloat64() * 2
}

// Float is an arbitrary real.
func Float(name string) float64 {
	v := real()
	logf("%s=%v", name, v)
	return v
}

// Bool is an arbitrary boolean.
func Bool(name string) bool {
	v := rng.Intn(2) == 0
	logf("%s=%v", name, v)
	return v
}

// Choose is an integer in [0,n); the proof enumerates all of them.
func Choose(name string, n int) int {
	v := rng.Intn(n)
	logf("%s=%d", name, v)
	return v
}

// Matrix is an arbitrary r x c matrix view with arbitrary stride >= c.
func Matrix(name string, r, c int) *mat.Dense { return matrixOf(name, r, c, func(i, j int) float64 { return real() }) }

func matrixOf(name string, r, c int, f func(i, j int) float64) *mat.Dense {
	if r < 1 || c < 1 {
		panic(assumeFailed{})
	}
	pad := 0
	if rng.Intn(2) == 0 {
		pad = rng.Intn(3)
	}
	big := mat.NewDense(r, c+pad, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < c+pad; j++ {
			if j < c {
				big.Set(i, j, f(i, j))
			} else {
				big.Set(i, j, 1234.5)
			}
		}
	}
	m := big.Slice(0, r, 0, c).(*mat.Dense)
	logf("%s=%dx%d stride %d %v", name, r, c, c+pad, rows(m))
	return m
}

func rows(m *mat.Dense) [][]float64 {
	var o [][]float64
	r, _ := m.Dims()
	for i := 0; i < r; i++ {
		o = append(o, append([]float64(nil), m.RawRowView(i)...))
	}
	return o
}

// LabelMatrix is an arbitrary r x c matrix of integer labels in [0,k).
func LabelMatrix(name string, r, c, k int) *mat.Dense {
	if k < 1 {
		panic(assumeFailed{})
	}
	return matrixOf(name, r, c, func(i, j int) float64 { return float64(rng.Intn(k)) })
}

// MatrixNaN is an arbitrary matrix whose entries may be NaN.
func MatrixNaN(name string, r, c int) *mat.Dense {
	return matrixOf(name, r, c, func(i, j int) float64 {
		if rng.Intn(3) == 0 {
			return math.NaN()
		}
		return real()
	})
}

// MatrixIn is an arbitrary matrix with lo <= entries <= hi.
func MatrixIn(name string, r, c int, lo, hi float64) *mat.Dense {
	in := within(lo, hi)
	return matrixOf(name, r, c, func(i, j int) float64 { return in() })
}

// within draws values in [lo,hi], all near lo sometimes.
func within(lo, hi float64) func() float64 {
	if lo >= 0 && rng.Intn(4) == 0 {
		hi = lo + (hi-lo)/2048
	}
	return func() float64 {
		switch rng.Intn(4) {
		case 0:
			return lo
		case 1:
			return hi
		}
		return lo + (hi-lo)*rng.Float64()
	}
}

// Floats is an arbitrary slice of length n.
func Floats(name string, n int) []float64 {
	if n < 0 {
		panic(assumeFailed{})
	}
	r := make([]float64, n)
	for i := range r {
		r[i] = real()
	}
	logf("%s=%v", name, r)
	return r
}

// FloatsIn is an arbitrary slice of length n with entries in [lo,hi].
func FloatsIn(name string, n int, lo, hi float64) []float64 {
	if n < 0 {
		panic(assumeFailed{})
	}
	r := make([]float64, n)
	in := within(lo, hi)
	for i := range r {
		r[i] = in()
	}
	logf("%s=%v", name, r)
	return r
}

// SortedFloats is an arbitrary nondecreasing slice of length n.
func SortedFloats(name string, n int) []float64 {
	r := Floats(name, n)
	sort.Float64s(r)
	logf("%s(sorted)=%v", name, r)
	return r
}

// IntsIn is an arbitrary int slice of length n with entries in [lo,hi].
func IntsIn(name string, n, lo, hi int) []int {
	if n < 0 || hi < lo && n > 0 {
		panic(assumeFailed{})
	}
	r := make([]int, n)
	for i := range r {
		r[i] = lo + rng.Intn(hi-lo+1)
	}
	logf("%s=%v", name, r)
	return r
}

// ---- logic

// Assume is a precondition.
func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

// Regular discards numerically degenerate inputs in concrete execution (where reals are floats).
// It has no effect on the proof.
func Regular(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

// Assert is a proof obligation.
func Assert(name string, c bool) {
	if !c {
		failMu.Lock()
		fails = append(fails, Failure{name, ""})
		failMu.Unlock()
	}
}

// Lemma is a proof obligation that later obligations may use.
func Lemma(name string, c bool) { Assert(name, c) }

// Eq is equality of reals.
func Eq(a, b float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-9 || d <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

// Le is a <= b over reals.
func Le(a, b float64) bool { return a <= b || Eq(a, b) }

// Implies is logical implication.
func Implies(a, b bool) bool { return !a || b }

// Sum is the sum of f(i) for 0<=i<n.
func Sum(n int, f func(i int) float64) float64 {
	s := 0.
	for i := 0; i < n; i++ {
		s += f(i)
	}
	return s
}

// Count is the number of 0<=i<n with f(i).
func Count(n int, f func(i int) bool) int {
	s := 0
	for i := 0; i < n; i++ {
		if f(i) {
			s++
		}
	}
	return s
}

// Forall holds when f(i) for every 0<=i<n.
func Forall(n int, f func(i int) bool) bool {
	for i := 0; i < n; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Forall2 holds when f(i,j) for every 0<=i<n, 0<=j<m.
func Forall2(n, m int, f func(i, j int) bool) bool {
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			if !f(i, j) {
				return false
			}
		}
	}
	return true
}

// Exists holds when f(i) for some 0<=i<n.
func Exists(n int, f func(i int) bool) bool {
	for i := 0; i < n; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// First is the least 0<=i<n with f(i), or n.
func First(n int, f func(i int) bool) int {
	for i := 0; i < n; i++ {
		if f(i) {
			return i
		}
	}
	return n
}

// Sorted is the k-th smallest (from 0) of f(0), ..., f(n-1).
func Sorted(n, k int, f func(i int) float64) float64 {
	x := make([]float64, n)
	for i := range x {
		x[i] = f(i)
	}
	sort.Float64s(x)
	return x[k]
}

// Max is the maximum of f(i), 0<=i<n (n>=1).
func Max(n int, f func(i int) float64) float64 {
	m := f(0)
	for i := 1; i < n; i++ {
		m = math.Max(m, f(i))
	}
	return m
}

// Min is the minimum of f(i), 0<=i<n (n>=1).
func Min(n int, f func(i int) float64) float64 {
	m := f(0)
	for i := 1; i < n; i++ {
		m = math.Min(m, f(i))
	}
	return m
}

// ---- uninterpreted functions

func hashAll(h interface{ Write([]byte) (int, error) }, a []interface{}) {
	for _, x := range a {
		switch v := x.(type) {
		case *mat.Dense:
			r, c := v.Dims()
			fmt.Fprintf(h, "m%d,%d:%v;", r, c, rows(v))
		default:
			fmt.Fprintf(h, "%v;", v)
		}
	}
}

// UF is an arbitrary function of its arguments (matrices and slices by content).
func UF(name string, a ...interface{}) float64 {
	h := fnv.New64a()
	fmt.Fprint(h, name, ";")
	hashAll(h, a)
	x := h.Sum64()
	if x%3 == 0 {
		return float64(int64(x>>8%7) - 3)
	}
	return float64(int64(x>>20%20001)-10000) / 3000
}

// UFInt is an arbitrary function into [0,n).
func UFInt(name string, n int, a ...interface{}) int {
	h := fnv.New64a()
	fmt.Fprint(h, name, ";")
	hashAll(h, a)
	return int(h.Sum64() >> 3 % uint64(n))
}

// Rand is an arbitrary real, a new one at every call.
func Rand(name string) float64 { return real() }

// ---- frames

// Snapshot is a recorded heap fragment.
type Snapshot struct {
	x []interface{}
	s []string
}

func dump(sb *strings.Builder, v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if seen[v.Pointer()] {
			sb.WriteString("^")
			return
		}
		seen[v.Pointer()] = true
		dump(sb, v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		dump(sb, v.Elem(), seen)
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			dump(sb, v.Field(i), seen)
			sb.WriteString(",")
		}
		sb.WriteString("}")
	case reflect.Slice:
		sb.WriteString("[")
		if v.Cap() > v.Len() && v.Kind() == reflect.Slice && v.CanInterface() {
			v = v.Slice(0, v.Cap())
		} else if v.Cap() > v.Len() && v.CanAddr() {
			v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
			v = v.Slice(0, v.Cap())
		}
		for i := 0; i < v.Len(); i++ {
			dump(sb, v.Index(i), seen)
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		sb.WriteString("f")
	case reflect.Map:
		fmt.Fprintf(sb, "%d", v.Len())
	default:
		fmt.Fprintf(sb, "%v", v)
	}
}

func dumpStr(x interface{}) string {
	var sb strings.Builder
	dump(&sb, reflect.ValueOf(x), map[uintptr]bool{})
	return sb.String()
}

// Freeze records everything reachable from the arguments.
func Freeze(x ...interface{}) *Snapshot {
	s := &Snapshot{x: x}
	for _, v := range x {
		s.s = append(s.s, dumpStr(v))
	}
	return s
}

// Unchanged holds when nothing recorded in the snapshot has changed since.
func Unchanged(s *Snapshot) bool {
	for i, v := range s.x {
		if dumpStr(v) != s.s[i] {
			return false
		}
	}
	return true
}

// Disjoint holds when the two objects share no mutable storage.
func Disjoint(a, b interface{}) bool {
	sa, sb := map[uintptr]bool{}, map[uintptr]bool{}
	ptrs(reflect.ValueOf(a), sa)
	ptrs(reflect.ValueOf(b), sb)
	for p := range sa {
		if sb[p] {
			return false
		}
	}
	return true
}

func ptrs(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		ptrs(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			ptrs(v.Elem(), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			ptrs(v.Field(i), seen)
		}
	case reflect.Slice:
		if v.Len() > 0 {
			seen[v.Pointer()] = true
			for i := 0; i < v.Len(); i++ {
				ptrs(v.Index(i), seen)
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			seen[v.Pointer()] = true
		}
	}
}

// UseBody makes the proof execute the body of a function that otherwise is used by contract.
func UseBody(name string) {}

// UseSpec ends UseBody: calls are verified by the contract of the function again.
func UseSpec(name string) {}

// IsNaN reports a missing value.
func IsNaN(x float64) bool { return x != x }

// UseContract makes the proof replace calls of the named function by f, which states its contract
// (fresh results constrained by Assume, preconditions by Assert). The real body runs in concrete execution.
func UseContract(name string, f interface{}) {}

// B2F is 1 when c holds, else 0.
func B2F(c bool) float64 {
	if c {
		return 1
	}
	return 0
}

// SumNonneg is the lemma: f(j,i) >= 0 for all j<k, i<n (an obligation) gives sum over i of f(j,i) >= 0 for every j.
func SumNonneg(name string, k, n int, f func(j, i int) float64) {
	Assert(name, Forall2(k, n, func(j, i int) bool { return f(j, i) >= 0 }))
}

// WellConditioned is for Regular only: the columns of A are independent, and numerically so.
func WellConditioned(A mat.Matrix) bool {
	var svd mat.SVD
	r, c := A.Dims()
	return r >= c && svd.Factorize(A, mat.SVDNone) && svd.Cond() < 1e3
}

// Symbolic tells whether callees are replaced by their contracts (UseContract), as in the proof.
func Symbolic() bool { return false }

// ---- channels

var onSend interface{}

// OnSend makes f (a func of one value) the check of every value sent on a channel: in the proof it is called at each
// send, in concrete execution by Received.
func OnSend(f interface{}) { onSend = f }

// Received is the number of values sent on ch (a channel) before it is closed.
func Received(ch interface{}) int {
	c, f := reflect.ValueOf(ch), reflect.ValueOf(onSend)
	var vs []reflect.Value
	for {
		v, ok := c.Recv()
		if !ok {
			break
		}
		vs = append(vs, v)
	}
	for _, v := range vs {
		f.Call([]reflect.Value{v})
	}
	return len(vs)
}

// Feed makes f(0), ..., f(n-1) the values received from ch, a channel with capacity n, which then is closed.
func Feed(ch interface{}, n int, f interface{}) {
	c, g := reflect.ValueOf(ch), reflect.ValueOf(f)
	for i := 0; i < n; i++ {
		c.Send(g.Call([]reflect.Value{reflect.ValueOf(i)})[0])
	}
	c.Close()
}

// Inputs are those drawn so far.
func Inputs() []string { return append([]string(nil), trace...) }
