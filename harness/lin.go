package main

// A small linearizability checker: is there an order of the operations that
// respects real time and that a sequential object could have produced?

import (
	"fmt"
	"sort"
	"strings"
)

type linOp struct {
	call, ret int64
	proc      int
	text      string // what was called
	kind      string
	v, w      int64
	out       string
}

// linearizable: step applies an operation to a state; pair (may be nil)
// applies two overlapping operations that happen at one instant.
func linearizable(ops []linOp, init string, step func(st string, o *linOp) (string, bool), pair func(st string, a, b *linOp) bool) bool {
	n := len(ops)
	if n > 60 {
		bugf("history too long: %d", n)
	}
	type key struct {
		done uint64
		st   string
	}
	dead := map[key]bool{}
	full := uint64(1)<<uint(n) - 1
	var search func(done uint64, st string) bool
	search = func(done uint64, st string) bool {
		if done == full {
			return true
		}
		k := key{done, st}
		if dead[k] {
			return false
		}
		minRet := int64(1<<63 - 1)
		for i := range ops {
			if done&(1<<uint(i)) == 0 && ops[i].ret < minRet {
				minRet = ops[i].ret
			}
		}
		for i := range ops {
			if done&(1<<uint(i)) != 0 || ops[i].call > minRet {
				continue
			}
			if s2, ok := step(st, &ops[i]); ok && search(done|1<<uint(i), s2) {
				return true
			}
			if pair == nil {
				continue
			}
			for j := range ops {
				if j == i || done&(1<<uint(j)) != 0 || ops[j].call > minRet {
					continue
				}
				if pair(st, &ops[i], &ops[j]) && search(done|1<<uint(i)|1<<uint(j), st) {
					return true
				}
			}
		}
		dead[k] = true
		return false
	}
	return search(0, init)
}

func showHistory(ops []linOp) string {
	o := append([]linOp{}, ops...)
	sort.Slice(o, func(i, j int) bool { return o[i].call < o[j].call })
	var b strings.Builder
	for _, x := range o {
		fmt.Fprintf(&b, "  [%d..%d] process %d: %s => %s\n", x.call, x.ret, x.proc, x.text, x.out)
	}
	return b.String()
}

// overlapping counts pairs of operations of different processes that overlap.
func overlapping(ops []linOp) int {
	n := 0
	for i := range ops {
		for j := range ops[:i] {
			if ops[i].proc != ops[j].proc && ops[i].call < ops[j].ret && ops[j].call < ops[i].ret {
				n++
			}
		}
	}
	return n
}
