// Package h drives the concrete searches: it runs randomly generated (and
// growing) cases of one property against the real code until the budget is
// used up or a case fails, and prints the outcome as one JSON object.
package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

type H struct {
	*rand.Rand
	Size int // grows with the case number
	Case int
	mu   sync.Mutex
	log  []string
}

type failure struct{ msg string }

// Step records one step of the history being executed.
func (h *H) Step(f string, a ...any) {
	h.mu.Lock()
	h.log = append(h.log, fmt.Sprintf(f, a...))
	h.mu.Unlock()
}

// Fail ends the case: the property does not hold on this history.
func (h *H) Fail(f string, a ...any) { panic(failure{fmt.Sprintf(f, a...)}) }

func (h *H) Assert(ok bool, f string, a ...any) {
	if !ok {
		h.Fail(f, a...)
	}
}

// Bool is true with probability 1/n.
func (h *H) Bool(n int) bool { return h.Intn(n) == 0 }

// Panics runs f and reports whether it panicked.
func (h *H) Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failure); ok {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

type Result struct {
	Property string   `json:"property"`
	Found    bool     `json:"found"`
	Failure  string   `json:"failure,omitempty"`
	History  []string `json:"history,omitempty"`
	Case     int      `json:"case"`
	Seed     int64    `json:"seed"`
	Cases    int      `json:"cases"`
	Distinct int      `json:"distinct"`
	Samples  []string `json:"samples,omitempty"`
	Seconds  float64  `json:"seconds"`
}

// Main runs the cases of one property.
func Main(prop string, cases ...func(h *H)) {
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Duration("budget", 5*time.Second, "time")
	one := flag.Int("case", -1, "run only this case")
	stall := flag.Duration("stall", 20*time.Second, "a case that takes longer does not terminate")
	flag.Parse()
	start := time.Now()
	res := Result{Property: prop, Seed: *seed}
	seen := map[uint64]bool{}
	var mu sync.Mutex
	var cur *H
	var curStart time.Time
	finish := func() {
		res.Seconds = time.Since(start).Seconds()
		res.Distinct = len(seen)
		b, _ := json.Marshal(res)
		fmt.Println(string(b))
		if res.Found {
			os.Exit(1)
		}
		os.Exit(0)
	}
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			mu.Lock()
			if cur != nil && time.Since(curStart) > *stall {
				cur.mu.Lock()
				res.Found, res.Failure, res.History, res.Case = true, "the last step does not return", cur.log, cur.Case
				finish()
			}
			mu.Unlock()
		}
	}()
	for i := 0; ; i++ {
		if *one >= 0 {
			i = *one
		} else if time.Since(start) > *budget && i >= 50 {
			break
		}
		h := &H{Rand: rand.New(rand.NewSource(*seed*1_000_003 + int64(i))), Case: i, Size: 3 + i/40}
		if h.Size > 40 {
			h.Size = 3 + h.Intn(60)
		}
		mu.Lock()
		cur, curStart = h, time.Now()
		mu.Unlock()
		msg, bad := run(h, cases[i%len(cases)])
		mu.Lock()
		cur = nil
		res.Cases++
		text := strings.Join(h.log, "; ")
		f := fnv.New64a()
		f.Write([]byte(text))
		if len(h.log) > 1 {
			seen[f.Sum64()] = true
		}
		if len(res.Samples) < 2 && len(h.log) > 3 && len(text) < 600 {
			res.Samples = append(res.Samples, text)
		}
		if bad {
			res.Found, res.Failure, res.History, res.Case = true, msg, h.log, i
			finish()
		}
		mu.Unlock()
		if *one >= 0 {
			break
		}
	}
	mu.Lock()
	finish()
}

func run(h *H, f func(*H)) (msg string, bad bool) {
	defer func() {
		if r := recover(); r != nil {
			bad = true
			if e, ok := r.(failure); ok {
				msg = e.msg
			} else {
				msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}
	}()
	f(h)
	return "", false
}
