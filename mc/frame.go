package main

// Enumeration framework: deterministic trace enumeration, sharding over
// single-threaded worker processes, counting, violation capture.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// T is the context of one trace.
type T struct {
	g    *Gen
	idx  int64
	desc func() string
	log  []string
}

type violation struct{ msg string }

// Gen drives one enumeration.
type Gen struct {
	Tier    string
	Shard   int64
	N       int64
	Phase   int   // index into the property's builds
	Block   int64 // traces handed out together
	Only    int64 // >=0: run only this trace
	Upto    int64 // >=0: stop after this trace (history replay)
	Lits    *Literals
	next    int64
	sub     map[string]int64
	States  map[uint64]struct{}
	Trans   int64
	Traces  int64
	Outs    map[string]int64
	Samples []string
	Viol    *ViolationRec
	stop    bool
	mark    []byte
	beat    *int64
	Trunc   bool
	start   time.Time
	phases  int
	Known   map[string]int64
	known   []knownFinding
	prop    string
}

// ViolationRec describes one violation, replayable by index.
type ViolationRec struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Index    int64    `json:"index"`
	Shard    int64    `json:"shard"`
	N        int64    `json:"workers"`
	Phase    int      `json:"phase"`
	Message  string   `json:"message"`
	Desc     string   `json:"trace"`
	Log      []string `json:"log"`
	Mode     string   `json:"mode"`
	Repro    string   `json:"reproduced"`
}

type knownFinding struct{ Prop, Key, Text string }

func (g *Gen) Thorough() bool { return g.Tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough tier.
func (g *Gen) Pick(q, th int) int {
	if g.Thorough() {
		return th
	}
	return q
}

// Do registers the next trace of the enumeration and runs it if it belongs to
// this worker.
func (g *Gen) Do(run func(t *T)) {
	idx := g.next
	g.next++
	if g.stop {
		return
	}
	if g.Only >= 0 {
		if idx != g.Only {
			return
		}
	} else {
		if (idx/g.Block)%g.N != g.Shard {
			return
		}
		if g.Upto < 0 && idx%g.Block == 0 && time.Since(g.start) > time.Duration(g.Pick(600, 14400)/g.phases)*time.Second {
			g.Trunc, g.stop = true, true // out of time: what was explored counts, not exhaustive
			return
		}
		if g.Upto >= 0 && idx > g.Upto {
			g.stop = true
			return
		}
	}
	g.exec(idx, run)
}

// Mine tells whether the next trace would be executed here; Skip counts it off.
func (g *Gen) Mine() bool {
	if g.stop {
		return false
	}
	if g.Only >= 0 {
		return g.next == g.Only
	}
	return (g.next/g.Block)%g.N == g.Shard
}

func (g *Gen) Skip() { g.next++ }

func (g *Gen) exec(idx int64, run func(t *T)) {
	if g.mark != nil {
		binary.LittleEndian.PutUint64(g.mark, uint64(idx)+1)
	}
	t := &T{g: g, idx: idx}
	failed := true
	defer func() {
		if g.beat != nil {
			atomic.AddInt64(g.beat, 1)
		}
		if !failed {
			g.Traces++
			if len(g.Samples) < 3 && t.desc != nil && (g.Traces == 1 || g.Traces == 1000 || g.Traces == 20000) {
				g.Samples = append(g.Samples, trim(t.desc(), 600))
			}
			return
		}
		r := recover()
		msg := ""
		if v, ok := r.(violation); ok {
			msg = v.msg
		} else {
			st := string(debug.Stack())
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(st))
		}
		d := ""
		if t.desc != nil {
			d = t.desc()
		}
		for _, k := range g.known {
			if k.Prop == g.prop && k.Key != "" && strings.Contains(d+"\n"+msg, k.Key) {
				g.Known[k.Text]++
				return
			}
		}
		if g.Viol == nil {
			g.Viol = &ViolationRec{Property: g.prop, Tier: g.Tier, Index: idx, Shard: g.Shard, N: g.N, Phase: g.Phase, Message: trim(msg, 4000), Desc: trim(d, 6000), Log: t.log}
		}
		g.stop = true
	}()
	run(t)
	failed = false
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "/runtime/") || strings.Contains(l, "runtime.") || strings.Contains(l, "debug.Stack") {
			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Fail reports a violation of the property.
func (t *T) Fail(f string, a ...interface{}) { panic(violation{fmt.Sprintf(f, a...)}) }

// Desc sets the lazily rendered description of the trace.
func (t *T) Desc(f func() string) { t.desc = f }

// beat tells the watchdog that a long trace is alive.
func (t *T) beat() {
	if t.g.beat != nil {
		atomic.AddInt64(t.g.beat, 1)
	}
}

// Step counts one engine call.
func (t *T) Step() { t.g.Trans++ }

// Steps counts n engine calls.
func (t *T) Steps(n int) { t.g.Trans += int64(n) }

// State records one visited configuration.
func (t *T) State(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	t.g.States[h.Sum64()] = struct{}{}
}

// Out counts an observed outcome class.
func (t *T) Out(s string) { t.g.Outs[s]++ }

// workerResult is what one worker reports.
type workerResult struct {
	Total   int64
	States  []uint64
	Trans   int64
	Traces  int64
	Outs    map[string]int64
	Samples []string
	Viol    *ViolationRec
	Trunc   bool
	Known   map[string]int64
}

func newGen(prop, tier string, shard, n int64) *Gen {
	return &Gen{start: time.Now(), Block: 64, phases: 1, Tier: tier, Shard: shard, N: n, Only: -1, Upto: -1, States: map[uint64]struct{}{}, Outs: map[string]int64{}, Known: map[string]int64{}, prop: prop, Lits: loadLiterals(), known: loadKnown(), sub: map[string]int64{}}
}

func runWorker(prop, tier string, shard, n int64, out string, only, upto int64, phase int) {
	debug.SetMaxStack(128 << 20)
	g := newGen(prop, tier, shard, n)
	g.Only, g.Upto, g.Phase = only, upto, phase
	if f, err := os.OpenFile(out+".mark", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644); err == nil {
		f.Truncate(8)
		if m, err := syscall.Mmap(int(f.Fd()), 0, 8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
			g.mark = m
		}
	}
	var beat int64
	g.beat = &beat
	p := propByID(prop)
	if len(p.Phases) > 1 {
		g.phases = len(p.Phases)
	}
	finish := func() {
		r := workerResult{Total: g.next, Trans: g.Trans, Traces: g.Traces, Outs: g.Outs, Samples: g.Samples, Viol: g.Viol, Trunc: g.Trunc, Known: g.Known}
		for s := range g.States {
			r.States = append(r.States, s)
		}
		b, _ := json.Marshal(r)
		os.WriteFile(out, b, 0644)
	}
	go func() { // watchdog: no trace completes for a very long time
		last := int64(-1)
		since := time.Now()
		for {
			time.Sleep(2 * time.Second)
			b := atomic.LoadInt64(&beat)
			if b != last {
				last, since = b, time.Now()
				continue
			}
			if time.Since(since) > 200*time.Second {
				idx := int64(0)
				if g.mark != nil {
					idx = int64(binary.LittleEndian.Uint64(g.mark)) - 1
				}
				r := workerResult{Viol: &ViolationRec{Property: prop, Tier: tier, Index: idx, Shard: shard, N: n, Phase: g.Phase, Message: "a trace of a few engine calls did not finish within 200 s"}}
				bb, _ := json.Marshal(r)
				os.WriteFile(out, bb, 0644)
				os.Exit(0)
			}
		}
	}()
	p.Gen(g)
	finish()
}
