package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	flagRepo     = flag.String("repo", "/repo", "repository")
	flagVerif    = flag.String("verif", "/verif", "verification directory")
	flagProp     = flag.String("prop", "", "property id")
	flagContract = flag.String("contract", "", "only this contract")
	flagChild    = flag.Bool("child", false, "internal: verify one group and print JSON")
	flagJobs     = flag.Int("j", 8, "parallel workers")
	flagTime     = flag.Int("time", 240, "time budget per contract, seconds")
	flagReplayS  = flag.Int("replay", 60, "seconds of concrete replay after a failed proof")
	flagThorough = flag.Bool("thorough", false, "thorough tier")
	flagSeed     = flag.String("seed", "", "re-execute -contract concretely with this seed")
	flagConc     = flag.Bool("concrete", false, "only execute the contracts concretely")
	flagList     = flag.Bool("v", false, "print obligations")
)

// overlayFiles maps paths inside the repository to files of /verif.
func overlayFiles() map[string]string {
	m := map[string]string{}
	add := func(src, dst string) {
		fs, _ := filepath.Glob(filepath.Join(src, "*.go"))
		for _, f := range fs {
			m[filepath.Join(*flagRepo, "zzverif", dst, filepath.Base(f))] = f
		}
	}
	add(filepath.Join(*flagVerif, "spec"), "spec")
	add(filepath.Join(*flagVerif, "models"), "models")
	ds, _ := filepath.Glob(filepath.Join(*flagVerif, "contracts", "*"))
	for _, d := range ds {
		add(d, filepath.Base(d))
	}
	return m
}

type contractInfo struct {
	Name, Doc string
}

func contractsOf(prop string) []contractInfo { return namedOf(prop, "Contract") }

// boundedOf: bounded stand-ins, executed only.
func boundedOf(prop string) []contractInfo { return namedOf(prop, "Bounded") }

func namedOf(prop, prefix string) []contractInfo {
	dir := filepath.Join(*flagVerif, "contracts", strings.ToLower(prop))
	fset := token.NewFileSet()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var r []contractInfo
	for _, f := range fs {
		a, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		for _, d := range a.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, prefix) && fd.Type.Params.NumFields() == 0 {
				r = append(r, contractInfo{fd.Name.Name, strings.TrimSpace(fd.Doc.Text())})
			}
		}
	}
	return r
}

type loaded struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package
	fset *token.FileSet
}

func load(prop string) *loaded {
	ov := map[string][]byte{}
	for k, f := range overlayFiles() {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		ov[k] = b
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile,
		Dir:     *flagRepo,
		Overlay: ov,
		Fset:    fset,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off"),
	}
	cfg.Mode &^= packages.NeedDeps
	pats := []string{"./...", repoPath + "/zzverif/spec", repoPath + "/zzverif/models", repoPath + "/zzverif/" + strings.ToLower(prop)}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		fatal("load: %v", err)
	}
	bad := false
	for _, p := range initial {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "govc load:", e)
			bad = true
		}
	}
	if bad {
		os.Exit(3)
	}
	prog, pkgs := ssautil.Packages(initial, ssa.InstantiateGenerics)
	r := &loaded{prog: prog, pkgs: map[string]*ssa.Package{}, fset: fset}
	for _, p := range pkgs {
		if p != nil {
			p.Build()
			r.pkgs[p.Pkg.Path()] = p
		}
	}
	return r
}

// Result of verifying one contract.
type Result struct {
	Contract string
	Doc      string
	Error    string // tool could not decide
	Obls     []OblR
	Paths    int
	Asserts  int
	Funcs    []string
	Models   []string
	Trusted  []string
	Loops    int
	Covers   int
	WallS    float64
	SolverS  float64
	Queries  int
	Quick    int
	Vacuous  string
}

// OblR is a reported obligation
type OblR struct {
	Name, Kind, Pos, How string
	OK                   bool
	Goal                 string   `json:",omitempty"`
	Facts                []string `json:",omitempty"`
}

func newExec(ld *loaded) *Exec {
	ex := &Exec{
		prog: ld.prog, fset: ld.fset, models: map[string]*ssa.Function{},
		oblSeen: map[string]int{}, globals: map[*ssa.Global]*Loc{},
		funcs: map[string]bool{}, modelsU: map[string]bool{}, trusted: map[string]bool{},
		useBody: map[string]bool{}, feeds: map[*Loc]feed{}, regLen: map[*Loc]*Term{}, subst: map[string]*FuncV{}, nanSyms: map[string]bool{}, activeN: map[string]bool{},
		tagIDs: map[string]int{}, locs: map[string]*Loc{}, instrIDs: map[ssa.Instruction]int{},
		inits: map[*ssa.Package]bool{},
	}
	for n, m := range ld.pkgs[modelsPath].Members {
		if f, ok := m.(*ssa.Function); ok {
			ex.models[n] = f
		}
	}
	return ex
}

func verifyContract(ld *loaded, prop string, ci contractInfo) *Result {
	t0 := time.Now()
	q0, s0, k0 := statQueries, statSolverNS, statQuick
	r := &Result{Contract: ci.Name, Doc: ci.Doc}
	fn := ld.pkgs[repoPath+"/zzverif/"+strings.ToLower(prop)].Func(ci.Name)
	deadline := t0.Add(time.Duration(*flagTime) * time.Second)
	funcs, models, trusted := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var sel, max []int
	for {
		ex := newExec(ld)
		ex.deadline = deadline
		ex.pathSel, ex.pathMax = sel, max
		err := ex.runContract(fn)
		r.Paths++
		for _, o := range ex.obls {
			or := OblR{Name: o.Name, Kind: o.Kind, Pos: o.Pos, How: o.how, OK: o.proved}
			if len(ex.pathSel) > 0 {
				or.Name += fmt.Sprint(" ", ex.pathSel)
			}
			if !o.proved {
				or.Goal = o.goal.String()
				for _, f := range o.facts {
					or.Facts = append(or.Facts, f.String())
				}
			}
			r.Obls = append(r.Obls, or)
		}
		r.Asserts += ex.asserts
		r.Loops += ex.loops
		for _, m := range []struct{ d, s map[string]bool }{{funcs, ex.funcs}, {models, ex.modelsU}, {trusted, ex.trusted}} {
			for k := range m.s {
				m.d[k] = true
			}
		}
		if err != "" {
			r.Error = err
			if len(ex.pathSel) > 0 {
				r.Error += fmt.Sprint(" at choice ", ex.pathSel)
			}
			break
		}
		if ex.asserts == 0 {
			r.Vacuous = fmt.Sprint("no assertion reached ", ex.pathSel)
		} else if ex.covers == 0 || ex.coversOK == 0 {
			r.Vacuous = fmt.Sprint("contract end not reachable ", ex.pathSel)
		}
		r.Covers += ex.coversOK
		sel, max = ex.pathSel, ex.pathMax
		// next choice
		i := len(sel) - 1
		for i >= 0 && sel[i]+1 >= max[i] {
			i--
		}
		if i < 0 {
			break
		}
		sel = append([]int(nil), sel[:i+1]...)
		max = append([]int(nil), max[:i+1]...)
		sel[i]++
	}
	r.Funcs, r.Models, r.Trusted = keys(funcs), keys(models), keys(trusted)
	r.WallS = time.Since(t0).Seconds()
	r.SolverS = float64(statSolverNS-s0) / 1e9
	r.Queries = statQueries - q0
	r.Quick = statQuick - k0
	return r
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, trimRepo(k))
	}
	sort.Strings(r)
	return r
}

func (ex *Exec) runContract(fn *ssa.Function) (err string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				err = x.msg
				if len(ex.stack) > 0 {
					err += " [in " + strings.Join(ex.stack, " > ") + "]"
				}
			case deadPath:
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				err = fmt.Sprint("internal: ", r)
			}
		}
	}()
	st := &State{newCtx(), tTrue, make(Mem)}
	ex.inline(st, fn, nil, nil, fn.Pos())
	// reachability of the end of the contract (vacuity guard)
	ex.covers++
	if !st.ctx().inconsistent() {
		ex.coversOK++
	}
	return ""
}

func main() {
	debug.SetGCPercent(400)
	flag.Parse()
	if p := os.Getenv("GOVC_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *flagProp == "" {
		fatal("need -prop")
	}
	if *flagContract == "EXT" {
		extList(load(*flagProp))
		return
	}
	if *flagChild {
		child()
		return
	}
	if *flagSeed != "" {
		exit(replayOne(*flagContract, *flagSeed))
	}
	if *flagConc {
		exit(concrete())
	}
	exit(parent())
}

func child() {
	if histOn {
		defer func() {
			for k, n := range hist {
				if n > 20 {
					fmt.Fprintln(os.Stderr, "HIST", n, k)
				}
			}
		}()
	}
	cs := contractsOf(*flagProp)
	ld := load(*flagProp)
	var rs []*Result
	want := map[string]bool{}
	for _, n := range strings.Split(*flagContract, ",") {
		want[n] = true
	}
	for _, c := range cs {
		if *flagContract != "" && !want[c.Name] {
			continue
		}
		r := verifyContract(ld, *flagProp, c)
		rs = append(rs, r)
		if *flagList {
			n, bad := 0, 0
			for _, o := range r.Obls {
				n++
				if !o.OK {
					bad++
					fmt.Fprintf(os.Stderr, "  FAIL [%s] %s @%s\n     %s\n", o.Kind, o.Name, o.Pos, o.Goal)
				}
			}
			fmt.Fprintf(os.Stderr, "%s: %d obligations, %d failed, %d paths, %.1fs (solver %.1fs, %d queries) %s %s\n", r.Contract, n, bad, r.Paths, r.WallS, r.SolverS, r.Queries, r.Error, r.Vacuous)
		}
	}
	if !*flagList {
		b, _ := json.Marshal(rs)
		os.Stdout.Write(b)
	}
}

func exit(code int) {
	if replayDir != "" {
		os.RemoveAll(replayDir)
	}
	os.Exit(code)
}
