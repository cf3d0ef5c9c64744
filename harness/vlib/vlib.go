// Package vlib is the common part of every property check: it pins rapid's seed
// and case count, counts and classifies the generated cases, and reports what
// was covered in a form the runner (verif/run.py) turns into evidence.
package vlib

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strconv"
	"sync"
	"testing"

	ethlog "github.com/ethereum/go-ethereum/log"
	"pgregory.net/rapid"
)

func init() {
	// the code under test logs a lot; none of it is part of any oracle
	ethlog.Root().SetHandler(ethlog.DiscardHandler())
}

// Tier is "quick" or "thorough".
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func envInt(name string, def int64) int64 {
	if v := os.Getenv(name); v != "" {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			return n
		}
	}
	return def
}

// Seed derives the seed of one test in one process from VERIF_SEED.
func Seed(name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", envInt("VERIF_SEED", 1), name, envInt("VERIF_SHARD", 0))
	s := h.Sum64() >> 1
	if s == 0 {
		s = 1
	}
	return s
}

type stats struct {
	mu         sync.Mutex
	Test       string         `json:"test"`
	Rule       string         `json:"rule"`
	Seed       uint64         `json:"seed"`
	Eval       int            `json:"evaluations"`
	Labels     map[string]int `json:"labels"`
	Keys       []string       `json:"nontrivial_keys"`
	Samples    []string       `json:"samples"`
	Failed     bool           `json:"failed"`
	keys       map[string]bool
	stopCounts bool
}

// C is the record of one generated case.
type C struct {
	st         *stats
	labels     map[string]bool
	nontrivial bool
	key        string
	sample     string
}

// Label classifies the current case.
func (c *C) Label(format string, a ...interface{}) {
	c.labels[fmt.Sprintf(format, a...)] = true
}

// NonTrivial marks the current case as non-trivial; key identifies it, so that
// equal cases are counted once.
func (c *C) NonTrivial(format string, a ...interface{}) {
	c.nontrivial = true
	c.key = fmt.Sprintf(format, a...)
}

// Sample gives the current case in words.
func (c *C) Sample(format string, a ...interface{}) {
	c.sample = fmt.Sprintf(format, a...)
	if len(c.sample) > 600 {
		c.sample = c.sample[:600] + "..."
	}
}

func (s *stats) add(c *C) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.stopCounts {
		return
	}
	s.Eval++
	for l := range c.labels {
		s.Labels[l]++
	}
	if c.nontrivial {
		h := fnv.New64a()
		h.Write([]byte(c.key))
		k := fmt.Sprintf("%016x", h.Sum64())
		if !s.keys[k] {
			s.keys[k] = true
			if c.sample != "" && len(s.Samples) < 3 {
				s.Samples = append(s.Samples, c.sample)
			}
		}
	}
}

func (s *stats) flush() {
	path := os.Getenv("VERIF_STATS")
	if path == "" {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for k := range s.keys {
		s.Keys = append(s.Keys, s.Test+"/"+k)
	}
	sort.Strings(s.Keys)
	b, err := json.Marshal(s)
	if err != nil {
		return
	}
	f, err := os.OpenFile(path, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		return
	}
	defer f.Close()
	f.Write(append(b, '\n'))
}

// N picks a bound by tier.
func N(quick, thorough int) int {
	if Tier() == "thorough" {
		return thorough
	}
	return quick
}

// Check runs prop on the tier's number of generated cases (per process). rule
// says what makes a case non-trivial.
func Check(t *testing.T, quick, thorough int, rule string, prop func(rt *rapid.T, c *C)) {
	t.Helper()
	n := N(quick, thorough)
	seed := Seed(t.Name())
	st := &stats{Test: t.Name(), Rule: rule, Seed: seed, Labels: map[string]int{}, keys: map[string]bool{}}
	flag.Set("rapid.checks", strconv.Itoa(n))
	if f := flag.Lookup("rapid.failfile"); f == nil || f.Value.String() == "" {
		flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	}
	defer func() {
		st.Failed = t.Failed()
		st.flush()
	}()
	rapid.Check(t, func(rt *rapid.T) {
		c := &C{st: st, labels: map[string]bool{}}
		done := false
		defer func() {
			if !done {
				// failing, or skipped by rapid: never counted as a passed case
				return
			}
			st.add(c)
		}()
		prop(rt, c)
		done = true
	})
}

// Once runs a check that enumerates a finite space completely; f reports each
// case through the C it makes.
func Once(t *testing.T, rule string, f func(newCase func() (*C, func()))) {
	t.Helper()
	st := &stats{Test: t.Name(), Rule: rule, Labels: map[string]int{}, keys: map[string]bool{}}
	defer func() {
		st.Failed = t.Failed()
		st.flush()
	}()
	f(func() (*C, func()) {
		c := &C{st: st, labels: map[string]bool{}}
		return c, func() { st.add(c) }
	})
}
