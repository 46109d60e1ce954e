package scen

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"

	"crunchsim/buf"
)

// maxLinStates bounds one search; a history that takes more stays undecided,
// which the evidence counts.
const maxLinStates = 100_000

// linearize searches for an order of one buffer's calls, consistent with real
// time, in which the reference model gives the observed results. It returns ""
// if there is one.
func (r *runner) linearize(b int) string {
	byTask := map[int][]*rec{}
	var ids []int
	total := 0
	for _, h := range r.hist {
		if h.b != b {
			continue
		}
		if byTask[h.task] == nil {
			ids = append(ids, h.task)
		}
		byTask[h.task] = append(byTask[h.task], h)
		total++
	}
	if total == 0 {
		return ""
	}
	sort.Ints(ids)
	var seqs [][]*rec
	for _, id := range ids {
		seqs = append(seqs, byTask[id])
	}
	k := r.inst[b].K
	pos := make([]int, len(seqs))
	seen := map[string]bool{}
	best, bestMsg := -1, ""
	var order []*rec
	var bestOrder []*rec
	key := func(st *buf.State) string {
		var sb strings.Builder
		var n [2]byte
		for _, p := range pos {
			binary.LittleEndian.PutUint16(n[:], uint16(p))
			sb.Write(n[:])
		}
		sb.WriteString(st.Key())
		return sb.String()
	}
	var search func(st *buf.State, done int) bool
	search = func(st *buf.State, done int) bool {
		if done == total {
			return true
		}
		minRet := 1 << 60
		for i, s := range seqs {
			if pos[i] < len(s) && s[pos[i]].ret < minRet {
				minRet = s[pos[i]].ret
			}
		}
		// calls mostly take effect in the order in which they return
		var cand []int
		for i, s := range seqs {
			if pos[i] >= len(s) || s[pos[i]].call > minRet {
				continue
			}
			at := len(cand)
			for at > 0 && seqs[cand[at-1]][pos[cand[at-1]]].ret > s[pos[i]].ret {
				at--
			}
			cand = append(cand, 0)
			copy(cand[at+1:], cand[at:])
			cand[at] = i
		}
		for _, i := range cand {
			if len(seen) > maxLinStates {
				return true
			}
			h := seqs[i][pos[i]]
			ns := st.Clone()
			msg := r.applyRec(k, ns, h)
			if msg != "" {
				if done >= best {
					best, bestMsg = done, fmt.Sprintf("task %d: %s", h.task, msg)
					bestOrder = append(bestOrder[:0], order...)
				}
				continue
			}
			pos[i]++
			kk := key(ns)
			if !seen[kk] {
				seen[kk] = true
				order = append(order, h)
				if search(ns, done+1) {
					return true
				}
				order = order[:len(order)-1]
			}
			pos[i]--
		}
		return false
	}
	ok := search(r.init[b].Clone(), 0)
	r.out.LinStates += len(seen)
	if len(seen) > maxLinStates {
		r.out.LinUndecided++
	}
	if ok {
		return ""
	}
	var hs []string
	for _, h := range r.hist {
		if h.b != b || h.final && h.op.F != "bytes" && h.op.F != "off" && h.op.F != "boff" && h.op.F != "cap" {
			continue
		}
		hs = append(hs, fmt.Sprintf("[%d,%d] task %d %s", h.call, h.ret, h.task, r.showRec(h)))
	}
	return fmt.Sprintf("no order of the calls explains the results; closest attempt stops at %s. History: %s", bestMsg, strings.Join(hs, "; "))
}

func (r *runner) showRec(h *rec) string {
	if h.op == nil {
		return fmt.Sprintf("holder section %+v", h.hold)
	}
	return fmt.Sprintf("%s -> %v", r.inst[h.b].K.Show(h.op), h.res)
}

func (r *runner) applyRec(k *buf.Kind, st *buf.State, h *rec) string {
	if h.op != nil {
		if m := st.Apply(k, h.op, &h.res, r.opt.Strict); m != "" {
			return k.Show(h.op) + " " + m
		}
		return ""
	}
	for _, a := range h.hold {
		if !st.RawRead(int64(a.i), a.read) {
			return fmt.Sprintf("the lock holder read %#x at byte %d, want %#x", a.read, a.i, st.Data[a.i])
		}
		if a.write {
			st.RawWrite(int64(a.i), a.written)
		}
	}
	return ""
}
