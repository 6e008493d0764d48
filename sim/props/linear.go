package props

import "strings"

// call is one completed call in a concurrent history.  inv and ret are drawn
// from one counter, so inv < ret and real-time order is exact.
type call struct {
	task     int
	kind     byte
	inv, ret uint64
	arg      int
	n        int
	data     []byte
	err      error
	mark     int
}

// history collects calls per task.
type history struct {
	clk   uint64
	tasks [][]*call
}

func newHistory(n int) *history { return &history{tasks: make([][]*call, n)} }

func (h *history) begin(task int, kind byte) *call {
	h.clk++
	c := &call{task: task, kind: kind, inv: h.clk, ret: ^uint64(0)}
	h.tasks[task] = append(h.tasks[task], c)
	return c
}

func (h *history) end(c *call) { h.clk++; c.ret = h.clk }

// linearize searches for a total order of the calls that is consistent with
// real time and with the sequential model.  Each task's calls are sequential,
// so a position is a vector of per-task progress; visited positions are
// memoised with the model state.  step returns the possible successor states.
// The third result is false when the search was cut off.
func linearize[S comparable](tasks [][]*call, init S, step func(S, *call) []S, final func(S) bool, budget int) (ok bool, deepest int, complete bool) {
	type key struct {
		vec string
		s   S
	}
	pos := make([]int, len(tasks))
	total := 0
	for _, t := range tasks {
		total += len(t)
	}
	seen := map[key]struct{}{}
	complete = true
	var rec func(done int, s S) bool
	rec = func(done int, s S) bool {
		if done > deepest {
			deepest = done
		}
		if done == total {
			return final == nil || final(s)
		}
		var sb strings.Builder
		for _, p := range pos {
			sb.WriteByte(byte(p))
			sb.WriteByte(byte(p >> 8))
		}
		k := key{sb.String(), s}
		if _, dup := seen[k]; dup {
			return false
		}
		if len(seen) >= budget {
			complete = false
			return false
		}
		seen[k] = struct{}{}
		first := ^uint64(0)
		for i, p := range pos {
			if p < len(tasks[i]) && tasks[i][p].ret < first {
				first = tasks[i][p].ret
			}
		}
		for i, p := range pos {
			if p >= len(tasks[i]) {
				continue
			}
			c := tasks[i][p]
			if c.inv > first {
				continue
			}
			for _, n := range step(s, c) {
				pos[i]++
				if rec(done+1, n) {
					return true
				}
				pos[i]--
				if !complete {
					return false
				}
			}
		}
		return false
	}
	ok = rec(0, init)
	return ok, deepest, complete
}
