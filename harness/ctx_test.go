// Package zzcheck is the falsification side of the verification of ssarules:
// it searches concrete inputs on which the real code breaks a property. What
// it finds is a counterexample; what it does not find proves nothing (bounded).
// It is built into the repository by a build overlay only.
package zzcheck

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"testing"
	"time"
)

type failure struct {
	What  string `json:"what"`
	Input string `json:"input"`
}

// Ctx is the run of one property's search.
type Ctx struct {
	prop     string
	rng      *rand.Rand
	deadline time.Time
	thorough bool
	scale    float64

	evals    int
	distinct map[uint64]bool
	samples  []string
	fails    []failure
	rule     string
	known    []string // findings of the known-findings file that showed again

	// trace, if set, is a file that always holds the input being run: it
	// survives a crash of the process.
	trace string

	mu      sync.Mutex
	current func() string
	started time.Time
}

const maxFails = 3

// stop tells a search to end: enough failures, or out of time.
func (c *Ctx) stop() bool {
	return len(c.fails) >= maxFails || time.Now().After(c.deadline)
}

// rounds is the number of random rounds of a search.
func (c *Ctx) rounds(n int) int { return int(float64(n) * c.scale) }

// fail records a counterexample.
func (c *Ctx) fail(input, format string, args ...interface{}) {
	if len(c.fails) < maxFails {
		c.fails = append(c.fails, failure{What: fmt.Sprintf(format, args...), Input: input})
	}
}

// run runs one case; a panic of the code under test is a failure.
func (c *Ctx) run(input func() string, nontrivial bool, f func(fail func(string, ...interface{}))) {
	c.evals++
	if nontrivial {
		h := fnv.New64a()
		s := input()
		h.Write([]byte(s))
		k := h.Sum64()
		if !c.distinct[k] {
			c.distinct[k] = true
			if len(c.samples) < 5 && len(s) < 600 && (c.evals%37 == 1 || len(c.samples) == 0) {
				c.samples = append(c.samples, s)
			}
		}
	}
	if c.trace != "" {
		ioutil.WriteFile(c.trace, []byte(input()), 0o644)
	}
	c.mu.Lock()
	c.current, c.started = input, time.Now()
	c.mu.Unlock()
	defer func() {
		c.mu.Lock()
		c.current = nil
		c.mu.Unlock()
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 2500 {
				st = st[:2500]
			}
			c.fail(input(), "panic: %v\n%s", r, st)
		}
	}()
	f(func(format string, args ...interface{}) { c.fail(input(), format, args...) })
}

func (c *Ctx) write(out string) {
	res := map[string]interface{}{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"samples":             c.samples,
		"failures":            c.fails,
		"rule":                c.rule,
		"known":               c.known,
	}
	b, _ := json.MarshalIndent(res, "", " ")
	if err := ioutil.WriteFile(out, b, 0o644); err != nil {
		panic(err)
	}
}

var checks = map[string]func(*Ctx){}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func TestVerif(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	out := os.Getenv("VERIF_OUT")
	if prop == "" || out == "" {
		t.Skip("not run by a check")
	}
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	budget, _ := strconv.ParseFloat(env("VERIF_BUDGET", "40"), 64)
	scale, _ := strconv.ParseFloat(env("VERIF_SCALE", "1"), 64)
	c := &Ctx{
		prop:     prop,
		rng:      rand.New(rand.NewSource(seed*7919 + int64(len(prop)))),
		deadline: time.Now().Add(time.Duration(budget * float64(time.Second))),
		thorough: os.Getenv("VERIF_TIER") == "thorough",
		scale:    scale,
		distinct: map[uint64]bool{},
		trace:    os.Getenv("VERIF_TRACE"),
	}
	f := checks[prop]
	if f == nil {
		t.Fatalf("no search for %s", prop)
	}
	debug.SetMaxStack(256 << 20)
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			c.mu.Lock()
			what := ""
			if c.current != nil && time.Since(c.started) > 20*time.Second {
				what = "no answer within 20 s"
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if c.current != nil && ms.HeapAlloc > 8<<30 {
				what = "takes more than 8 GB of memory"
			}
			if what != "" {
				in := c.current()
				c.fails = append(c.fails, failure{What: what, Input: in})
				c.write(out)
				os.Exit(0)
			}
			c.mu.Unlock()
		}
	}()
	f(c)
	c.write(out)
}
