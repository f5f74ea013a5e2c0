// As in the modules of users whose go.mod asks for an older go: recover returns nil for panic(nil)
//
//go:debug panicnil=1
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// verifDir is the directory of the framework (the parent of mc/)
func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// KnownFinding is a "known:" line of known_findings.txt
type KnownFinding struct {
	ID       string
	Property string
	What     string
}

// knownFindings reads the lines "known: property=<id> <finding id> <what fails>"
func knownFindings() map[string]KnownFinding {
	res := map[string]KnownFinding{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "known:" && strings.HasPrefix(f[1], "property=") {
			k := KnownFinding{ID: f[2], Property: strings.TrimPrefix(f[1], "property="), What: f[3]}
			res[k.ID] = k
		}
	}
	return res
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: mc run ID tier | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		ids := []string{}
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "run":
		os.Exit(runMain(os.Args[2], os.Args[3]))
	case "worker":
		p := properties[os.Args[2]]
		shard, _ := strconv.Atoi(os.Args[4])
		shards, _ := strconv.Atoi(os.Args[5])
		ms, _ := strconv.ParseInt(os.Args[7], 10, 64)
		out := os.Stdout
		os.Stdout = os.Stderr // yarql prints to stdout in some cases
		workerMain(p, os.Args[3], shard, shards, os.Args[6], time.UnixMilli(ms), out)
	case "rerun":
		rerunMain(os.Args[2], os.Args[3], os.Args[4])
	case "replay":
		mode := "case"
		if len(os.Args) > 3 {
			mode = os.Args[3]
		}
		rerunMain(os.Args[2], mode, "")
		fmt.Println()
	default:
		if f := extraCommands[os.Args[1]]; f != nil {
			f(os.Args[2:])
			return
		}
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

var extraCommands = map[string]func(args []string){}

func runMain(id, tier string) int {
	p := properties[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "harness error: unknown property", id)
		return 3
	}
	started := time.Now()
	var err error
	scratchDir, err = os.MkdirTemp("", "verif-mc-")
	fatalIf(err)
	defer os.RemoveAll(scratchDir)
	cleanupOnSignal()
	// for the processes of the binary with the race detector
	os.Setenv("GORACE", "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(scratchDir, "race"))

	budget := 200 * time.Second
	if tier == "thorough" {
		budget = 750 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	var rep *Report
	if p.Custom != nil {
		rep = p.Custom(tier)
	} else {
		rep = runSharded(p, tier, 8, budget)
	}

	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	known := knownFindings()
	coverage := map[string]any{
		"states":                        rep.Nodes,
		"transitions":                   rep.Steps,
		"traces_validated_against_impl": rep.Cases,
		"only_well_formedness_checked":  rep.DontCare,
		"distinct_outcomes":             rep.Outcomes,
		"exhaustive":                    rep.Complete,
		"bounds":                        p.Bounds[tier],
		"samples":                       rep.Samples,
		"known_findings_seen":           rep.Known,
	}
	if rep.Samples == nil {
		coverage["samples"] = []string{}
	}
	for k, v := range rep.Extra {
		coverage[k] = v
	}
	exit := 0
	for k, n := range rep.Known {
		kf, ok := known[k]
		if ok && kf.Property == id {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s (%d cases, first: %s)\n", id, k, kf.What, n, rep.KnownDesc[k])
		} else {
			// not listed: it is a violation
			rep.Fail = &Failure{Property: id, Tier: tier, Desc: rep.KnownDesc[k], Fail: "matches the signature " + k + ", which is not listed as a known finding", Kind: "mismatch"}
		}
	}
	if rep.Fail != nil {
		dir := filepath.Join(verifDir(), "evidence", "replays")
		os.MkdirAll(dir, 0o755)
		rp := filepath.Join(dir, id+".json")
		b, _ := json.MarshalIndent(rep.Fail, "", " ")
		os.WriteFile(rp, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		fmt.Printf("case: %s\n%s\n(%s; %s)\n", rep.Fail.Desc, clip(rep.Fail.Fail, 3000), rep.Fail.Kind, rep.Fail.How)
		coverage["violation"] = clip(rep.Fail.Desc+" :: "+rep.Fail.Fail, 2000)
		exit = 1
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": coverage, "wall_s": time.Since(started).Seconds(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	fatalIf(os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), b, 0o644))
	fmt.Printf("%s %s: cases=%d skipped=%d steps=%d outcomes=%d exhaustive=%v wall=%.1fs\n", id, tier, rep.Cases, rep.DontCare, rep.Steps, rep.Outcomes, rep.Complete, time.Since(started).Seconds())
	return exit
}
