package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

type failure struct {
	Kind   string
	Detail string
	Replay string
}

type harness struct {
	id       string
	tier     string
	seed     int64
	deadline time.Time
	scratch  string
	replays  string
	std      string
	lanes    []*lane
	mu       sync.Mutex
	fails    []failure
	known    []string
	knownHit map[string]bool
	counts   map[string]int
	notes    []string
	stopFlag atomic.Bool
	thorough bool
	distinct map[uint64]bool
	evals    int
	samples  []string
}

// note keeps track of the inputs given to the code under test.
func (h *harness) note(r *req) {
	f := fnv.New64a()
	names := []string{}
	for n := range r.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	size := len(r.Lex)
	io.WriteString(f, r.Lex)
	for _, n := range names {
		io.WriteString(f, n+"\x00"+r.Files[n]+"\x00")
		size += len(r.Files[n])
	}
	fmt.Fprint(f, r.Main, r.Targets, r.Script)
	h.mu.Lock()
	defer h.mu.Unlock()
	h.evals++
	if size > 1 {
		h.distinct[f.Sum64()] = true
	}
	if len(h.samples) < 3 && size > 1 {
		s := r.Lex + r.Files[r.Main]
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		h.samples = append(h.samples, s)
	}
}

func (h *harness) count(k string, n int) {
	h.mu.Lock()
	h.counts[k] += n
	h.mu.Unlock()
}

func (h *harness) over() bool { return h.stopFlag.Load() || time.Now().After(h.deadline) }

// each runs f for n seeds (or until the time is over) on all the lanes.
func (h *harness) each(n int, f func(l *lane, r *rand.Rand, i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for _, l := range h.lanes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || h.over() {
					return
				}
				f(l, rand.New(rand.NewSource(h.seed*1000003+int64(i)*7919+int64(len(h.id)))), i)
			}
		}()
	}
	wg.Wait()
}

// fail records a violation. parts are written to the replay file.
func (h *harness) fail(kind string, parts ...string) {
	b := strings.Builder{}
	fmt.Fprintf(&b, "property %s violated: %s\n", h.id, kind)
	for i := 0; i+1 < len(parts); i += 2 {
		fmt.Fprintf(&b, "\n===== %s =====\n%s\n", parts[i], parts[i+1])
	}
	sum := sha256.Sum256([]byte(b.String()))
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.fails) >= 3 {
		h.stopFlag.Store(true)
		return
	}
	os.MkdirAll(h.replays, 0755)
	f := filepath.Join(h.replays, fmt.Sprintf("%s-%x.txt", h.id, sum[:5]))
	os.WriteFile(f, []byte(b.String()), 0644)
	h.fails = append(h.fails, failure{kind, b.String(), f})
	h.stopFlag.Store(true)
}

type result struct {
	ID       string         `json:"id"`
	Fails    []failure      `json:"fails"`
	Counts   map[string]int `json:"counts"`
	Notes    []string       `json:"notes"`
	Known    []string       `json:"known"`
	Seconds  float64        `json:"seconds"`
	TimedOut bool           `json:"timed_out"`
	Evals    int            `json:"evaluations"`
	Distinct int            `json:"distinct"`
	Samples  []string       `json:"samples"`
}

var checks = map[string]func(h *harness){}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "worker" {
		workerMain()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "probe" {
		probeMain()
		return
	}
	if len(os.Args) < 5 {
		fatal("usage: rac check ID TIER OUT.json REPLAYDIR [SECONDS] [SEED]")
	}
	h := &harness{id: os.Args[2], tier: os.Args[3], counts: map[string]int{}, knownHit: map[string]bool{}, distinct: map[uint64]bool{}}
	h.thorough = h.tier == "thorough"
	h.replays = os.Args[5]
	secs := 60
	if h.thorough {
		secs = 600
	}
	if len(os.Args) > 6 {
		fmt.Sscan(os.Args[6], &secs)
	}
	h.seed = 1
	if len(os.Args) > 7 {
		fmt.Sscan(os.Args[7], &h.seed)
	}
	f, ok := checks[h.id]
	if !ok {
		fatal("no bounded check for %s", h.id)
	}
	var err error
	h.scratch, err = os.MkdirTemp("", "tsrac")
	if err != nil {
		fatal("%v", err)
	}
	os.Chmod(h.scratch, 0755)
	defer os.RemoveAll(h.scratch)
	for i := 0; i < 8; i++ {
		d := filepath.Join(h.scratch, fmt.Sprintf("l%d", i))
		os.Mkdir(d, 0755)
		h.lanes = append(h.lanes, &lane{id: i, dir: d, h: h})
	}
	start := time.Now()
	h.deadline = start.Add(time.Duration(secs) * time.Second)
	f(h)
	for _, l := range h.lanes {
		if l.w != nil {
			l.w.stop()
		}
	}
	o := result{ID: h.id, Fails: h.fails, Counts: h.counts, Notes: h.notes, Known: h.known, Seconds: time.Since(start).Seconds(), TimedOut: time.Now().After(h.deadline), Evals: h.evals, Distinct: len(h.distinct), Samples: h.samples}
	j, _ := json.MarshalIndent(o, "", " ")
	os.WriteFile(os.Args[4], j, 0644)
	keys := []string{}
	for k := range h.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %s: %d\n", k, h.counts[k])
	}
	for _, x := range h.fails {
		fmt.Printf("FAIL %s %s\n", x.Kind, x.Replay)
	}
}
