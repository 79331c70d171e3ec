package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Prop is one property's enumeration.
type Prop struct {
	ID     string
	Bounds string
	Assume []string
	Gen    func(g *Gen)
	Phases []string // environment variables with the binaries to explore, default this one
}

var props []*Prop

func register(p *Prop) { props = append(props, p) }

func propByID(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	fmt.Fprintln(os.Stderr, "unknown property", id)
	os.Exit(3)
	return nil
}

func verifDir() string {
	if d := os.Getenv("MC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("MC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<substring of trace or message> :: <text>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: ")
		parts := strings.SplitN(rest, " :: ", 2)
		if len(parts) != 2 {
			continue
		}
		f := strings.SplitN(parts[0], " key=", 2)
		if len(f) != 2 {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(f[0], "property="), f[1], parts[1]})
	}
	return out
}

func main() {
	log.SetOutput(io.Discard)
	if len(os.Args) < 2 {
		os.Exit(3)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(supervise(os.Args[2], os.Args[3]))
	case "worker":
		// worker prop tier shard n out only upto
		sh, _ := strconv.ParseInt(os.Args[4], 10, 64)
		n, _ := strconv.ParseInt(os.Args[5], 10, 64)
		only, _ := strconv.ParseInt(os.Args[7], 10, 64)
		upto, _ := strconv.ParseInt(os.Args[8], 10, 64)
		phase, _ := strconv.Atoi(os.Args[9])
		runWorker(os.Args[2], os.Args[3], sh, n, os.Args[6], only, upto, phase)
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		var v ViolationRec
		json.Unmarshal(b, &v)
		dir, _ := os.MkdirTemp("", "mcreplay")
		defer os.RemoveAll(dir)
		r := reproduce(&v, dir)
		if r != nil {
			fmt.Printf("reproduced (%s)\n%s\n%s\n", v.Mode, r.Desc, r.Message)
			os.Exit(1)
		}
		fmt.Println("not reproduced")
	case "lits":
		l := loadLiterals()
		fmt.Println(l.Ints)
		fmt.Printf("%q\n", l.Strings)
	case "list":
		for _, p := range props {
			fmt.Println(p.ID, p.Bounds)
		}
	}
}

// one worker process; returns result or nil and the crash text and last index
func spawn(prop, tier string, shard, n int64, dir string, only, upto int64, phase int) (*workerResult, string, int64) {
	out := filepath.Join(dir, fmt.Sprintf("w%d-%d-%d-%d.json", phase, shard, only, upto))
	os.Remove(out)
	bin := os.Args[0]
	if p := propByID(prop).Phases; len(p) > 0 {
		bin = os.Getenv(p[phase])
	}
	cmd := exec.Command(bin, "worker", prop, tier, fmt.Sprint(shard), fmt.Sprint(n), out, fmt.Sprint(only), fmt.Sprint(upto), fmt.Sprint(phase))
	var eb bytes.Buffer
	cmd.Stderr = &eb
	running(cmd, true)
	defer running(cmd, false)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200", "GORACE=halt_on_error=1 atexit_sleep_ms=0 history_size=5")
	err := cmd.Run()
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		var r workerResult
		if json.Unmarshal(b, &r) == nil {
			os.Remove(out)
			return &r, "", 0
		}
	}
	idx := int64(-1)
	if m, e := os.ReadFile(out + ".mark"); e == nil && len(m) == 8 {
		idx = int64(binary.LittleEndian.Uint64(m)) - 1
	}
	s := eb.String()
	return nil, fmt.Sprintf("worker died (%v): %s", err, trim(s, 3000)), idx
}

var (
	runMu sync.Mutex
	procs = map[*exec.Cmd]bool{}
)

func running(c *exec.Cmd, on bool) {
	runMu.Lock()
	defer runMu.Unlock()
	if on {
		procs[c] = true
	} else {
		delete(procs, c)
	}
}

func stopOthers() {
	runMu.Lock()
	defer runMu.Unlock()
	for c := range procs {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
}

// reproduce re-runs a violation: alone first, then with its history.
func reproduce(v *ViolationRec, dir string) *ViolationRec {
	try := func(only, upto int64, mode string) *ViolationRec {
		r, crash, idx := spawn(v.Property, v.Tier, v.Shard, v.N, dir, only, upto, v.Phase)
		if r == nil {
			v.Mode = mode
			return &ViolationRec{Property: v.Property, Tier: v.Tier, Index: idx, Phase: v.Phase, Message: crash}
		}
		if r.Viol != nil {
			v.Mode = mode
			return r.Viol
		}
		return nil
	}
	if v.Mode != "history" {
		if r := try(v.Index, -1, "alone"); r != nil {
			return r
		}
	}
	return try(-1, v.Index, "history")
}

func supervise(prop, tier string) int {
	p := propByID(prop)
	start := time.Now()
	dir, err := os.MkdirTemp("", "mcrun")
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer os.RemoveAll(dir)
	n := int64(runtime.NumCPU())
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	if w, err := strconv.ParseInt(os.Getenv("MC_WORKERS"), 10, 64); err == nil && w > 0 {
		n = w
	}
	phases := 1
	if len(p.Phases) > 0 {
		phases = len(p.Phases)
	}
	res := make([]*workerResult, n*int64(phases))
	crash := make([]string, len(res))
	cidx := make([]int64, len(res))
	for ph := 0; ph < phases; ph++ {
		var wg sync.WaitGroup
		for i := int64(0); i < n; i++ {
			wg.Add(1)
			go func(i int64) {
				defer wg.Done()
				k := int64(ph)*n + i
				res[k], crash[k], cidx[k] = spawn(prop, tier, i, n, dir, -1, -1, ph)
				if r := res[k]; os.Getenv("MC_FAST") != "" && (r == nil || r.Viol != nil) {
					stopOthers() // campaigns only want to know whether there is a violation
				}
			}(i)
		}
		wg.Wait()
	}
	states := map[uint64]struct{}{}
	outs := map[string]int64{}
	known := map[string]int64{}
	var trans, traces, total int64
	samples := []string{}
	exhaustive := true
	var viols []*ViolationRec
	totals := make([]int64, phases)
	for i, r := range res {
		ph := int64(i) / n
		if r == nil {
			viols = append(viols, &ViolationRec{Property: prop, Tier: tier, Index: cidx[i], Shard: int64(i) % n, N: n, Phase: int(ph), Message: crash[i]})
			exhaustive = false
			continue
		}
		for _, s := range r.States {
			states[s] = struct{}{}
		}
		for k, v := range r.Outs {
			outs[k] += v
		}
		for k, v := range r.Known {
			known[k] += v
		}
		trans += r.Trans
		traces += r.Traces
		if r.Total > totals[ph] {
			totals[ph] = r.Total
		}
		if len(samples) < 4 {
			samples = append(samples, r.Samples...)
		}
		if r.Trunc {
			exhaustive = false
		}
		if r.Viol != nil {
			viols = append(viols, r.Viol)
			exhaustive = false
		}
	}
	for _, x := range totals {
		total += x
	}
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })
	if os.Getenv("MC_FAST") != "" && len(viols) > 0 {
		fmt.Println("violation", viols[0].Desc, viols[0].Message)
		return 1
	}
	var bad *ViolationRec
	for _, v := range viols {
		ok, tries := 0, 5
		for k := 0; k < tries; k++ {
			if reproduce(v, dir) != nil {
				ok++
			} else if k == 0 && res[int64(v.Phase)*n+v.Shard] == nil {
				break // a crash that does not repeat (killed from outside): no verdict
			}
		}
		v.Repro = fmt.Sprintf("%d/%d", ok, tries)
		if ok == 0 && res[int64(v.Phase)*n+v.Shard] == nil {
			fmt.Printf("note: %s did not repeat; its traces are not counted\n", trim(v.Message, 300))
			continue
		}
		bad = v
		break
	}
	nviol := 0
	if bad != nil {
		nviol = 1
	}
	if p.Assume == nil {
		p.Assume = []string{}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed(), "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": len(states), "transitions": trans, "traces_validated_against_impl": traces,
			"traces_enumerated": total, "distinct_outcomes": outs, "samples": samples, "exhaustive": exhaustive && bad == nil, "bounds": p.Bounds,
			"workers": n, "known_findings_hit": known,
		},
		"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	writeEvidence(prop, ev)
	for k, c := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d traces)\n", prop, k, c)
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d/%d outcomes=%d exhaustive=%v wall=%.1fs\n", prop, tier, len(states), trans, traces, total, len(outs), exhaustive, time.Since(start).Seconds())
	if bad != nil {
		return reportViolation(bad)
	}
	return 0
}

func seed() int {
	s, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return s
}

func writeEvidence(prop string, ev map[string]interface{}) {
	d := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(d, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(d, prop+".json"), b, 0644)
}

func reportViolation(bad *ViolationRec) int {
	d := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(d, 0755)
	f := filepath.Join(d, fmt.Sprintf("%s-%d.json", bad.Property, bad.Index))
	b, _ := json.MarshalIndent(bad, "", " ")
	os.WriteFile(f, b, 0644)
	fmt.Printf("trace %d: %s\n%s\nreproduced %s (%s)\n", bad.Index, bad.Desc, bad.Message, bad.Repro, bad.Mode)
	fmt.Printf("VIOLATION property=%s replay=%s\n", bad.Property, f)
	return 1
}
