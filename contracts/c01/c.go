// Package c01 holds the contract of base.Parallelize.
package c01

import (
	"sync"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/zzverif/spec"
)

// ContractPartition: every index of [0,n) is handed to exactly one chunk, whatever the thread count,
// all chunks are inside [0,n), and all of them have ended when the call returns.
func ContractPartition() {
	spec.UseBody("github.com/pa-m/sklearn/base.Parallelize")
	n := spec.Nat("n", 0)
	threads := spec.Int("threads")
	cnt := make([]int, n)
	base.Parallelize(threads, n, func(th, start, end int) {
		spec.Assert("chunk bounds", 0 <= start && start <= end && end <= n)
		for i := start; i < end; i++ {
			cnt[i]++
		}
	})
	spec.Assert("each index is processed exactly once before the call returns", spec.Forall(n, func(i int) bool { return cnt[i] == 1 }))
}

// ContractThreadIndex: concurrent chunks get distinct thread numbers in [0,threads).
func ContractThreadIndex() {
	spec.UseBody("github.com/pa-m/sklearn/base.Parallelize")
	n := spec.Nat("n", 0)
	threads := spec.Nat("threads", 1)
	calls := make([]int, threads)
	var mu sync.Mutex
	base.Parallelize(threads, n, func(th, start, end int) {
		spec.Assert("thread number in range", 0 <= th && th < threads)
		mu.Lock()
		calls[th]++
		mu.Unlock()
	})
	spec.Assert("no thread number is used twice", spec.Forall(threads, func(t int) bool { return calls[t] <= 1 }))
}
