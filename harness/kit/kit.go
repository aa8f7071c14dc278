// Package kit holds what every property check shares: measured coverage
// counters, the hang/memory watchdog, and the common generators.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

const maxDistinct = 400_000

var rec = struct {
	sync.Mutex
	evals    int64
	nontriv  int64
	distinct map[uint64]struct{}
	classes  map[string]int64
	samples  []string
	sampled  int64
}{distinct: map[uint64]struct{}{}, classes: map[string]int64{}}

// Case records one generated case. desc must identify the case; nontrivial is
// the property's stated rule applied to it.
func Case(desc string, nontrivial bool, classes ...string) {
	h := fnv.New64a()
	h.Write([]byte(desc))
	sum := h.Sum64()

	rec.Lock()
	defer rec.Unlock()

	rec.evals++
	for _, c := range classes {
		if c != "" {
			rec.classes[c]++
		}
	}

	if !nontrivial {
		return
	}
	rec.nontriv++
	if len(rec.distinct) < maxDistinct {
		rec.distinct[sum] = struct{}{}
	}

	// Keep a deterministic spread of samples: at powers of two.
	n := rec.nontriv
	if n&(n-1) == 0 || (len(rec.samples) < 3) {
		if len(desc) > 900 {
			desc = desc[:900] + "…"
		}
		rec.samples = append(rec.samples, desc)
		if len(rec.samples) > 12 {
			rec.samples = rec.samples[len(rec.samples)-12:]
		}
	}
}

// Class counts a label without counting a case.
func Class(c string) {
	rec.Lock()
	rec.classes[c]++
	rec.Unlock()
}

// Events counts something that happened n times inside cases.
func Events(c string, n int) {
	rec.Lock()
	rec.classes[c] += int64(n)
	rec.Unlock()
}

type report struct {
	Evaluations int64            `json:"evaluations"`
	Nontrivial  int64            `json:"nontrivial"`
	Distinct    []string         `json:"distinct"`
	Classes     map[string]int64 `json:"classes"`
	Samples     []string         `json:"samples"`
}

func flush() {
	path := os.Getenv("VERIF_STATS")
	if path == "" {
		return
	}

	rec.Lock()
	defer rec.Unlock()

	r := report{Evaluations: rec.evals, Nontrivial: rec.nontriv, Classes: rec.classes, Samples: rec.samples}
	for h := range rec.distinct {
		r.Distinct = append(r.Distinct, fmt.Sprintf("%x", h))
	}
	sort.Strings(r.Distinct)

	b, err := json.Marshal(r)
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "kit: cannot write stats:", err)
	}
}

// --- watchdog ---------------------------------------------------------------

var (
	caseStart atomic.Int64 // unix nanos at which the running guarded step began, 0 = idle
	caseDesc  atomic.Pointer[string]
)

// Exit codes the runner understands.
const (
	ExitHang   = 41 // a guarded step did not finish within HangLimit
	ExitMemory = 42 // a guarded step allocated without bound
)

var (
	HangLimit   = 60 * time.Second
	MemoryLimit = uint64(3 << 30)
)

// Guard marks the section in which code under test runs: should it not come
// back, or allocate without bound, the process stops with a distinctive code
// and the description of the running case.
func Guard(desc string, fn func()) {
	caseDesc.Store(&desc)
	caseStart.Store(time.Now().UnixNano())
	defer caseStart.Store(0)
	fn()
}

// Journal stores a description of the case about to run, so that the runner
// can name it when the whole process dies.
func Journal(desc string) {
	if p := os.Getenv("VERIF_JOURNAL"); p != "" {
		_ = os.WriteFile(p, []byte(desc), 0o644)
	}
}

func watch() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)

		start := caseStart.Load()
		if start == 0 {
			continue
		}
		desc := ""
		if p := caseDesc.Load(); p != nil {
			desc = *p
		}

		if time.Since(time.Unix(0, start)) > HangLimit {
			fmt.Printf("WATCHDOG-HANG: no result after %v on case: %s\n", HangLimit, desc)
			_ = pprof.Lookup("goroutine").WriteTo(os.Stdout, 2)
			flush()
			os.Exit(ExitHang)
		}

		metrics.Read(sample)
		if sample[0].Value.Uint64() > MemoryLimit {
			runtime.GC()
			metrics.Read(sample)
			if sample[0].Value.Uint64() > MemoryLimit {
				fmt.Printf("WATCHDOG-MEMORY: more than %d bytes live on case: %s\n", MemoryLimit, desc)
				flush()
				os.Exit(ExitMemory)
			}
		}
	}
}

// Main is the TestMain of every property package.
func Main(m *testing.M) {
	go watch()
	code := m.Run()
	flush()
	os.Exit(code)
}

// Thorough reports whether the deep tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Q quotes compactly.
func Q(s string) string { return fmt.Sprintf("%q", s) }

// Join concatenates with a separator, formatting each value.
func Join(vs ...any) string {
	parts := make([]string, len(vs))
	for i, v := range vs {
		parts[i] = fmt.Sprintf("%v", v)
	}
	return strings.Join(parts, " ")
}
