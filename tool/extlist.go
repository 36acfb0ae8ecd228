package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// extList prints the dependency functions called per repository package.
func extList(ld *loaded) {
	cnt := map[string]map[string]int{}
	for fn := range ssautil.AllFunctions(ld.prog) {
		pp := pkgPathOf(fn)
		if !strings.HasPrefix(pp, repoPath) || strings.Contains(pp, "zzverif") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := c.Common().StaticCallee()
				if f == nil || strings.HasPrefix(pkgPathOf(f), repoPath) {
					continue
				}
				k := fnKey(f)
				if cnt[k] == nil {
					cnt[k] = map[string]int{}
				}
				cnt[k][strings.TrimPrefix(pp, repoPath+"/")]++
			}
		}
	}
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		_, in := intrinsics[k]
		fmt.Println(k, in, cnt[k])
	}
}
