package main

// The explorer: depth-first enumeration of all choice sequences of a generator,
// bounded by the number of deviations from the default choice.

import (
	"fmt"
	"hash/fnv"
	"strings"
)

// Chooser hands out choices to a generator; the explorer enumerates all of them.
type Chooser struct {
	prefix []int
	trace  []point
	dev    int // deviations used so far
	bound  int // maximum deviations
}

type point struct {
	n, val int
	dev    bool
	before int // deviations used before this point
}

// N is a free choice among 0..n-1: all values are always explored.
func (c *Chooser) N(n int) int { return c.choose(n, false) }

// Dev is a choice among 0..n-1 where anything but 0 costs one deviation.
func (c *Chooser) Dev(n int) int { return c.choose(n, true) }

// Flag is a boolean deviation.
func (c *Chooser) Flag() bool { return c.Dev(2) == 1 }

func (c *Chooser) choose(n int, dev bool) int {
	if n <= 0 {
		panic("empty choice")
	}
	i := len(c.trace)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("divergence while replaying prefix: choice %d of %d at %d", v, n, i))
		}
	}
	c.trace = append(c.trace, point{n, v, dev, c.dev})
	if dev && v != 0 {
		c.dev++
	}
	return v
}

func (c *Chooser) choices() []int {
	out := make([]int, len(c.trace))
	for i, p := range c.trace {
		out[i] = p.val
	}
	return out
}

// next computes the prefix of the lexicographically next execution, nil when done.
func (c *Chooser) next() []int {
	for i := len(c.trace) - 1; i >= 0; i-- {
		p := c.trace[i]
		if p.val+1 >= p.n {
			continue
		}
		if p.dev && p.val == 0 && p.before+1 > c.bound {
			continue
		}
		out := make([]int, i+1)
		for j := 0; j < i; j++ {
			out[j] = c.trace[j].val
		}
		out[i] = p.val + 1
		return out
	}
	return nil
}

// Case is one execution to be run against the implementation and checked against the model.
type Case struct {
	Key string       // canonical rendering: what distinguishes this case from others
	Run func(e *Env) // executes and compares; reports through e
}

// Space is one bounded space of cases.
type Space struct {
	Name   string
	Rule   string                 // how cases are made
	Bound  int                    // deviation bound
	Gen    func(c *Chooser) *Case // nil: the combination is not a case
	Stride int                    // >1: the deep tail of the space is thinned for the quick tier? never: kept 1 (exhaustive)
}

// Prop is one property check.
type Prop struct {
	ID          string
	Level       string
	Bins        []string // binaries needed (see build.go)
	Spaces      func(tier string) []Space
	Assumptions []string
	Rule        string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// nextIndexed walks all leaves of a space; fn gets the leaf index and the chooser (after Gen).
func walk(s *Space, fn func(idx int, c *Chooser, k *Case) bool) (edges, leaves int, complete bool) {
	var prefix []int
	for {
		c := &Chooser{prefix: prefix, bound: s.Bound}
		k := s.Gen(c)
		if len(c.trace) < len(prefix) {
			panic(fmt.Sprintf("divergence: %s: generator used %d choices of prefix %v", s.Name, len(c.trace), prefix))
		}
		edges += len(c.trace) - len(prefix) + 1
		if k != nil {
			if !fn(leaves, c, k) {
				return edges, leaves, false
			}
			leaves++
		}
		prefix = c.next()
		if prefix == nil {
			return edges, leaves, true
		}
	}
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("...(%d more bytes)", len(s)-n)
}

func oneLine(s string) string { return strings.ReplaceAll(s, "\n", "\\n") }
