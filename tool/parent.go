package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func seed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" || *flagThorough {
		return "thorough"
	}
	return "quick"
}

// runChild verifies one contract in its own process.
func runChild(c contractInfo, budget int) *Result {
	cmd := exec.Command(os.Args[0], "-repo", *flagRepo, "-verif", *flagVerif, "-prop", *flagProp, "-child", "-contract", c.Name, "-time", fmt.Sprint(budget))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out, errb strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		return &Result{Contract: c.Name, Doc: c.Doc, Error: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(time.Duration(budget+60) * time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = fmt.Errorf("killed after %d s", budget+60)
		<-done
	}
	var rs []*Result
	if e := json.Unmarshal([]byte(out.String()), &rs); e == nil && len(rs) == 1 {
		return rs[0]
	}
	tail := errb.String()
	if len(tail) > 1500 {
		tail = tail[len(tail)-1500:]
	}
	return &Result{Contract: c.Name, Doc: c.Doc, Error: fmt.Sprintf("verifier process failed: %v: %s", err, tail)}
}

type finding struct{ contract, obligation, text string }

var findRe = regexp.MustCompile(`^finding: property=(\S+) contract=(\S+) obligation="([^"]*)" (.*)$`)

var runsRe = regexp.MustCompile(`runs=(\d+)`)

func knownFindings() []finding {
	f, err := os.Open(filepath.Join(*flagVerif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if m := findRe.FindStringSubmatch(sc.Text()); m != nil && m[1] == *flagProp {
			r = append(r, finding{m[2], m[3], m[4]})
		}
	}
	return r
}

type failure struct {
	res  *Result
	obls []OblR
	why  string
}

func parent() int {
	t0 := time.Now()
	cs := contractsOf(*flagProp)
	if len(cs) == 0 {
		fatal("no contracts for %s", *flagProp)
	}
	if *flagContract != "" {
		var k []contractInfo
		for _, c := range cs {
			if c.Name == *flagContract {
				k = append(k, c)
			}
		}
		cs = k
	}
	// the repository and the contracts have to build: also warms the build cache for the workers
	if out, err := buildCheck(); err != nil {
		fmt.Fprintf(os.Stderr, "%s\n", out)
		cmd := exec.Command("go", "build", "./...")
		cmd.Dir = *flagRepo
		cmd.Env = goEnv()
		if cmd.Run() != nil {
			fmt.Println("ERROR: the repository does not compile")
			return 2
		}
		p := writeReplay(failure{res: &Result{Contract: "interface"}, why: "the contracts do not compile against the exported interface of the repository"}, nil, out)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *flagProp, p)
		return 1
	}
	budget := *flagTime
	if tier() == "thorough" {
		budget *= 2
	}
	res := make([]*Result, len(cs))
	sem := make(chan bool, *flagJobs)
	var wg sync.WaitGroup
	for i := range cs {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			res[i] = runChild(cs[i], budget)
			<-sem
		}(i)
	}
	wg.Wait()
	known := knownFindings()
	var fails []failure
	usedKnown := map[int]bool{}
	total, discharged, quickN := 0, 0, 0
	how := map[string]int{}
	var solver float64
	queries := 0
	funcs, models, trusted := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var per []map[string]interface{}
	for _, r := range res {
		fl := failure{res: r}
		bad := 0
		knownBad := 0
		for _, o := range r.Obls {
			total++
			if o.OK {
				discharged++
				how[o.How]++
				continue
			}
			bad++
			isKnown := false
			for k, f := range known {
				if f.contract == r.Contract && strings.HasPrefix(o.Name, f.obligation) {
					usedKnown[k] = true
					isKnown = true
				}
			}
			if isKnown {
				knownBad++
				continue
			}
			fl.obls = append(fl.obls, o)
		}
		fl.why = r.Error
		if r.Vacuous != "" && fl.why == "" {
			fl.why = "vacuous: " + r.Vacuous
		}
		if len(r.Obls) == 0 && fl.why == "" {
			fl.why = "no obligations generated"
		}
		if len(fl.obls) > 0 || fl.why != "" {
			fails = append(fails, fl)
		}
		solver += r.SolverS
		queries += r.Queries
		quickN += r.Quick
		for _, x := range r.Funcs {
			funcs[x] = true
		}
		for _, x := range r.Models {
			models[x] = true
		}
		for _, x := range r.Trusted {
			trusted[x] = true
		}
		per = append(per, map[string]interface{}{"contract": r.Contract, "what": r.Doc, "obligations": len(r.Obls), "failed": bad, "known": knownBad, "paths": r.Paths, "loops_summarised": r.Loops, "wall_s": round(r.WallS), "solver_s": round(r.SolverS), "end_reachable": r.Covers, "undecided": r.Error})
	}
	for k, f := range known {
		if usedKnown[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *flagProp, f.text)
		}
	}
	code := 0
	nviol := 0
	unreplayed := "" // replay file of failed obligations without a failing input
	cross := map[string]interface{}{}
	if len(fails) > 0 {
		code = 1
		nviol = len(fails)
		unreplayed = reportFailures(fails)
	} else {
		// cross-check of the verifier and of the library models: the same contracts executed on the real code
		var names []string
		for _, c := range cs {
			skip := false
			for _, f := range known {
				skip = skip || f.contract == c.Name
			}
			if !skip {
				names = append(names, c.Name)
			}
		}
		arg, secs := "n100", 60
		if tier() == "thorough" {
			arg, secs = fmt.Sprint(*flagReplayS), *flagReplayS
		}
		rr, runs, err := replayN(names, arg, secs, false)
		cross["concrete_runs"] = runs
		if err != nil {
			cross["error"] = err.Error()
		}
		if rr != nil {
			p := writeReplay(failure{res: &Result{Contract: rr.Contract}, why: "concrete execution of a proved contract failed"}, rr, "")
			fmt.Printf("VIOLATION property=%s replay=%s\n", *flagProp, p)
			code, nviol = 1, 1
		}
		if tier() != "thorough" {
		} else if out, err := modelsTest(); err != nil {
			fmt.Println(out)
			fmt.Println("ERROR: a library model disagrees with the library")
			if code == 0 {
				code = 2
			}
		} else {
			cross["models_vs_library"] = "agree on random inputs"
		}
	}
	// bounded stand-ins: contracts executed on the real code, never counted as proved
	var bounded []map[string]interface{}
	for _, b := range boundedOf(*flagProp) {
		if *flagContract != "" && *flagContract != b.Name {
			continue
		}
		n := 400
		if m := runsRe.FindStringSubmatch(b.Doc); m != nil {
			n, _ = strconv.Atoi(m[1])
		}
		if tier() == "thorough" {
			n *= 10
		}
		rr, runs, err := replayN([]string{b.Name}, fmt.Sprintf("n%d", n), 100, false)
		e := map[string]interface{}{"check": b.Name, "what": b.Doc, "label": "bounded (not proved)", "executions": runs,
			"bound": "pseudo-random inputs; every size at most 4 above its least value unless the contract says otherwise"}
		if err != nil {
			e["error"] = err.Error()
		}
		bounded = append(bounded, e)
		if rr != nil || err != nil {
			isKnown := rr != nil && len(rr.Failures) > 0
			if rr != nil {
				for _, x := range rr.Failures {
					k1 := false
					for k, f := range known {
						if f.contract == b.Name && strings.HasPrefix(x.Name, f.obligation) {
							k1 = true
							if !usedKnown[k] {
								usedKnown[k] = true
								fmt.Printf("KNOWN-FINDING: property=%s %s\n", *flagProp, f.text)
							}
						}
					}
					isKnown = isKnown && k1
				}
			}
			if isKnown {
				continue
			}
			e["violated"] = true
			unreplayed = "" // here is a failing input
			nviol++
			if rr == nil {
				rr = &replayResult{Contract: b.Name, Race: err.Error()}
			}
			for _, x := range rr.Failures {
				fmt.Printf("failed: %s: %s %s\n", b.Name, x.Name, x.Msg)
			}
			p := writeReplay(failure{res: &Result{Contract: b.Name, Doc: b.Doc}, why: "bounded check failed"}, rr, "")
			fmt.Printf("VIOLATION property=%s replay=%s\n", *flagProp, p)
			code = 1
		}
	}
	if unreplayed != "" {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *flagProp, unreplayed)
	}
	ev := map[string]interface{}{
		"property": *flagProp, "tier": tier(), "seed": seed(), "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": total, "discharged": discharged,
			"checker_cmd":              fmt.Sprintf("bash check.sh %s", *flagProp),
			"trusted_base":             trustedBase(keys(models), keys(trusted)),
			"contracts":                per,
			"functions_under_contract": keys(funcs),
			"by_backend":               how,
			"solver_s":                 round(solver), "solver_queries": queries, "decided_by_simplifier": quickN,
			"cross_check": cross, "bounded_checks": bounded,
		},
		"assumptions": assumptions(),
		"wall_s":      round(time.Since(t0).Seconds()), "violations": nviol,
	}
	os.MkdirAll(filepath.Join(*flagVerif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*flagVerif, "evidence", *flagProp+".json"), append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s: %d contracts, %d functions of the repository under contract, %d obligations, %d discharged, %.1fs (solver %.1fs)\n", *flagProp, len(cs), len(funcs), total, discharged, time.Since(t0).Seconds(), solver)
	return code
}

func round(x float64) float64 { return float64(int(x*100+.5)) / 100 }

func assumptions() []string {
	return []string{
		"floating point is treated as exact real arithmetic (no rounding, overflow or signed zeros); missing values (NaN) only where a contract declares them; infinities only as initial values of running minima and maxima",
		"machine integers are treated as mathematical integers (no overflow)",
		"termination is not proved",
		"append is treated as copying (no aliasing through spare capacity)",
		"the dependencies behave as the models in /verif/models and the interpreted functions of /verif/tool/intrin.go say (listed in trusted_base)",
		"go/types, go/ssa, the govc term simplifier and loop summariser, and z3 are correct",
	}
}

func trustedBase(m, t []string) []string {
	r := []string{"go/ssa (golang.org/x/tools) construction of SSA from /repo's current source", "govc symbolic executor, loop summariser and simplifier (/verif/tool)", "z3"}
	for _, x := range m {
		r = append(r, "model of "+x)
	}
	for _, x := range t {
		if strings.HasPrefix(x, "zzverif/") {
			continue
		}
		r = append(r, "built-in meaning of "+x)
	}
	return r
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

// overlayJSON writes the overlay for the go command.
func overlayJSON(dir string, extra map[string]string) string {
	m := overlayFiles()
	for k, v := range extra {
		m[k] = v
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": m})
	p := filepath.Join(dir, "overlay.json")
	os.WriteFile(p, b, 0644)
	return p
}

func buildCheck() (string, error) {
	dir, err := os.MkdirTemp("", "govc")
	if err != nil {
		return "", err
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command("go", "build", "-overlay", overlayJSON(dir, nil), "./...", "./zzverif/"+strings.ToLower(*flagProp))
	cmd.Dir = *flagRepo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	return string(out), err
}

func modelsTest() (string, error) {
	dir, err := os.MkdirTemp("", "govc")
	if err != nil {
		return "", err
	}
	defer os.RemoveAll(dir)
	ex := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(*flagVerif, "models", "test", "*_test.go"))
	for _, f := range fs {
		ex[filepath.Join(*flagRepo, "zzverif", "models", filepath.Base(f))] = f
	}
	cmd := exec.Command("go", "test", "-vet=off", "-count=1", "-overlay", overlayJSON(dir, ex), "./zzverif/models")
	cmd.Dir = *flagRepo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	return string(out), err
}

type replayResult struct {
	Contract string
	Seed     int64
	Failures []struct{ Name, Msg string }
	Inputs   []string
	Runs     int
	Race     string
}

const replayMain = `package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"strconv"
	"time"

	c "github.com/pa-m/sklearn/zzverif/PKG"
	"github.com/pa-m/sklearn/zzverif/spec"
)

var all = map[string]func(){
LIST}

func main() {
	log.SetOutput(ioutil.Discard)
	out := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	from, _ := strconv.ParseInt(os.Args[1], 10, 64)
	step, _ := strconv.ParseInt(os.Args[2], 10, 64)
	max := 1 << 60
	if os.Args[3][0] == 'n' {
		max, _ = strconv.Atoi(os.Args[3][1:])
		os.Args[3] = "100"
	}
	secs, _ := strconv.Atoi(os.Args[3])
	end := time.Now().Add(time.Duration(secs) * time.Second)
	runs := 0
	for seed, it := from, 0; it < max && (runs == 0 || time.Now().Before(end)); seed, it = seed+step, it+1 {
		for _, n := range os.Args[4:] {
			done := make(chan bool)
			var ok bool
			var fails []spec.Failure
			var inputs []string
			go func() { ok, fails, inputs = spec.RunConcrete(seed, all[n]); done <- true }()
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				ok, fails, inputs = true, []spec.Failure{{Name: "termination", Msg: "no result after 20 s"}}, spec.Inputs()
			}
			if ok {
				runs++
			}
			if len(fails) > 0 {
				b, _ := json.Marshal(map[string]interface{}{"Contract": n, "Seed": seed, "Failures": fails, "Inputs": inputs, "Runs": runs})
				fmt.Fprintln(out, string(b))
				os.Exit(9)
			}
		}
		if step == 0 {
			break
		}
	}
	fmt.Fprintf(out, "{\"Runs\":%d}\n", runs)
}
`

// replay executes contracts concretely on the real code.
func replay(names []string, secs int, race bool) (*replayResult, int, error) {
	return replayN(names, fmt.Sprint(secs), secs, race)
}

func replayN(names []string, arg string, secs int, race bool) (*replayResult, int, error) {
	bin, err := replayBin(race)
	if err != nil {
		return nil, 0, err
	}
	var mu sync.Mutex
	var best *replayResult
	runs := 0
	var wg sync.WaitGroup
	nw := 8
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			args := append([]string{fmt.Sprint(seed()*1000 + w), fmt.Sprint(nw), arg}, names...)
			cmd := exec.Command(bin, args...)
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			var out, eb strings.Builder
			cmd.Stdout, cmd.Stderr = &out, &eb
			if cmd.Start() != nil {
				return
			}
			done := make(chan bool, 1)
			go func() { cmd.Wait(); done <- true }()
			select {
			case <-done:
			case <-time.After(time.Duration(secs+60) * time.Second):
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
			}
			mu.Lock()
			defer mu.Unlock()
			var rr replayResult
			if json.Unmarshal([]byte(strings.TrimSpace(out.String())), &rr) == nil {
				runs += rr.Runs
				if rr.Contract != "" && (best == nil || rr.Seed < best.Seed) {
					best = &rr
				}
				return
			}
			if race && strings.Contains(eb.String(), "DATA RACE") || strings.Contains(eb.String(), "panic:") || strings.Contains(eb.String(), "fatal error:") {
				if best == nil {
					best = &replayResult{Contract: strings.Join(names, ","), Race: eb.String()}
				}
			}
		}(w)
	}
	wg.Wait()
	return best, runs, nil
}

var (
	replayDir  string
	replayBins = map[bool]string{}
)

// replayBin is the program executing the contracts of the property, built once per run.
func replayBin(race bool) (string, error) {
	if b := replayBins[race]; b != "" {
		return b, nil
	}
	if replayDir == "" {
		d, err := os.MkdirTemp("", "govc")
		if err != nil {
			return "", err
		}
		replayDir = d
	}
	b, err := buildReplay(replayDir, race)
	if err == nil {
		replayBins[race] = b
	}
	return b, err
}

func buildReplay(dir string, race bool) (string, error) {
	pkg := strings.ToLower(*flagProp)
	var list strings.Builder
	for _, c := range append(contractsOf(*flagProp), boundedOf(*flagProp)...) {
		fmt.Fprintf(&list, "\t%q: c.%s,\n", c.Name, c.Name)
	}
	src := strings.NewReplacer("PKG", pkg, "LIST", list.String()).Replace(replayMain)
	mp := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mp, []byte(src), 0644); err != nil {
		return "", err
	}
	ov := overlayJSON(dir, map[string]string{filepath.Join(*flagRepo, "zzverif", "replay"+pkg, "main.go"): mp})
	bin := filepath.Join(dir, fmt.Sprint("replay-", race))
	args := []string{"build", "-overlay", ov, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./zzverif/replay"+pkg)...)
	cmd.Dir = *flagRepo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the replay: %v: %s", err, out)
	}
	return bin, nil
}

func writeReplay(f failure, rr *replayResult, note string) string {
	dir := filepath.Join(*flagVerif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, *flagProp+"-"+f.res.Contract+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s, contract %s\n%s\n\n", *flagProp, f.res.Contract, f.res.Doc)
	if f.why != "" {
		fmt.Fprintf(&sb, "verifier: %s\n", f.why)
	}
	for _, o := range f.obls {
		g := o.Goal
		if len(g) > 3000 {
			g = g[:3000] + "..."
		}
		fmt.Fprintf(&sb, "FAILED OBLIGATION [%s] %s at %s\n  goal: %s\n", o.Kind, o.Name, o.Pos, g)
		for i, x := range o.Facts {
			if i > 40 {
				break
			}
			if len(x) > 400 {
				x = x[:400] + "..."
			}
			fmt.Fprintf(&sb, "  fact: %s\n", x)
		}
	}
	if note != "" {
		fmt.Fprintln(&sb, note)
	}
	if rr != nil {
		if rr.Race != "" {
			fmt.Fprintf(&sb, "\nexecuting the contract on the real code failed:\n%s\n", rr.Race)
		} else {
			fmt.Fprintf(&sb, "\nFAILING INPUT on the real code: contract %s, seed %d\n", rr.Contract, rr.Seed)
			for _, i := range rr.Inputs {
				fmt.Fprintf(&sb, "  input %s\n", i)
			}
			for _, x := range rr.Failures {
				fmt.Fprintf(&sb, "  fails: %s %s\n", x.Name, x.Msg)
			}
			fmt.Fprintf(&sb, "re-run: bash %s/check.sh %s replay %s %d\n", *flagVerif, *flagProp, rr.Contract, rr.Seed)
		}
	}
	os.WriteFile(p, []byte(sb.String()), 0644)
	return p
}

// reportFailures prints the failed obligations and looks for a failing input; it returns the replay file if there is none.
func reportFailures(fails []failure) (unreplayed string) {
	sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].obls) > len(fails[j].obls) })
	var names []string
	race := false
	for _, f := range fails {
		names = append(names, f.res.Contract)
		for _, o := range f.obls {
			race = race || o.Kind == "race" || o.Kind == "parallel"
		}
		if f.why != "" {
			fmt.Printf("undecided: %s: %s\n", f.res.Contract, f.why)
		}
		for _, o := range f.obls {
			fmt.Printf("failed obligation: %s: [%s] %s at %s\n", f.res.Contract, o.Kind, o.Name, o.Pos)
		}
	}
	rr, runs, err := replay(names, *flagReplayS, false)
	if rr == nil && err == nil && race {
		rr, _, err = replay(names, *flagReplayS/2+1, true)
	}
	if rr != nil {
		f := fails[0]
		for _, x := range fails {
			if x.res.Contract == rr.Contract {
				f = x
			}
		}
		p := writeReplay(f, rr, "")
		fmt.Printf("VIOLATION property=%s replay=%s\n", *flagProp, p)
		return ""
	}
	note := fmt.Sprintf("no failing input found in %d concrete executions of the failed contracts", runs)
	if err != nil {
		note = "replay could not run: " + err.Error()
	}
	for i, f := range fails {
		p := writeReplay(f, nil, note)
		if i == 0 {
			unreplayed = p
		}
	}
	return unreplayed
}

// replayOne re-executes one contract with one seed and prints what happens.
func replayOne(contract string, sd string) int {
	dir, err := os.MkdirTemp("", "govc")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	bin, err := buildReplay(dir, false)
	if err != nil {
		fatal("%v", err)
	}
	cmd := exec.Command(bin, sd, "0", "1", contract)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	if cmd.Run() != nil {
		return 1
	}
	return 0
}

// concrete executes every contract (or one) on the real code for a while; a development aid.
func concrete() int {
	code := 0
	for _, c := range append(contractsOf(*flagProp), boundedOf(*flagProp)...) {
		if *flagContract != "" && c.Name != *flagContract {
			continue
		}
		rr, runs, err := replay([]string{c.Name}, *flagReplayS, false)
		fmt.Println(c.Name, "runs", runs, err)
		if rr != nil {
			fmt.Printf("  seed %d %v\n", rr.Seed, rr.Failures)
			for _, i := range rr.Inputs {
				fmt.Println("   ", i)
			}
			fmt.Println(rr.Race)
			code = 1
		}
	}
	return code
}
