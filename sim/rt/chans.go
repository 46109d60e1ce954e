package rt

import (
	"reflect"
	"unsafe"
)

// Channels under the simulator. A channel value of the code under test stays a
// real channel; what is in it lives here. Values put into the real channel by
// code that is not instrumented are taken over as they show up.

type chanState struct {
	keep   any // the channel: while it is here, its address is not used again
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	hb     HB
	poll   func(*chanState)
}

// waiter is one case of a blocked operation.
type waiter struct {
	op  *chanOp
	idx int
	val any // what a sender sends
}

// chanOp is one operation: a send, a receive or a select.
type chanOp struct {
	fired bool
	idx   int
	val   any
	ok    bool
	panic bool // a send met a closed channel
}

var chans = map[unsafe.Pointer]*chanState{}

// ResetChans forgets all channels.
func ResetChans() {
	if len(chans) > 0 {
		chans = map[unsafe.Pointer]*chanState{}
	}
}

func stateOf[T any](p unsafe.Pointer, c <-chan T, sendOnly chan<- T) *chanState {
	if p == nil {
		return nil
	}
	st := chans[p]
	if st == nil {
		st = &chanState{}
		if c != nil {
			st.keep, st.cap = c, cap(c)
		} else {
			st.keep, st.cap = sendOnly, cap(sendOnly)
		}
		chans[p] = st
	}
	if c != nil && st.poll == nil {
		st.poll = func(st *chanState) {
			for !st.closed {
				select {
				case v, ok := <-c:
					if !ok {
						st.closed = true
						return
					}
					st.buf = append(st.buf, v)
				default:
					return
				}
			}
		}
	}
	return st
}

// Case is one case of a select statement.
type Case interface{ base() *caseBase }

type caseBase struct {
	st   *chanState
	send bool
	val  any
	set  func(v any, ok bool)
}

// RCase is a receiving case.
type RCase[T any] struct {
	b   caseBase
	Val T
	Ok  bool
}

func (c *RCase[T]) base() *caseBase { return &c.b }

// SCase is a sending case.
type SCase struct{ b caseBase }

func (c *SCase) base() *caseBase { return &c.b }

// CaseRecv makes a receiving case.
func CaseRecv[C ~chan T | ~<-chan T, T any](ch C) *RCase[T] {
	c := &RCase[T]{}
	c.b.st = stateOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), (<-chan T)(ch), nil)
	c.b.set = func(v any, ok bool) {
		c.Ok = ok
		if ok && v != nil {
			c.Val = v.(T)
		}
	}
	return c
}

// CaseSend makes a sending case.
func CaseSend[C ~chan T | ~chan<- T, T any](ch C) func(T) *SCase {
	st := stateOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), nil, (chan<- T)(ch))
	return func(v T) *SCase { return &SCase{caseBase{st: st, send: true, val: v}} }
}

// Select performs one of the cases; with def it returns -1 rather than wait.
func Select(def bool, cases ...Case) int {
	Point("channel")
	if Aborting() {
		if def {
			return -1
		}
		panic(Abort{})
	}
	var ready []int
	for i, c := range cases {
		if c.base().ready() {
			ready = append(ready, i)
		}
	}
	op := &chanOp{}
	switch {
	case len(ready) > 0:
		// which of several is as good as random, but a function of the run
		i := ready[0]
		if len(ready) > 1 && cur != nil {
			i = ready[int((uint32(cur.sim.Step)*2654435761)>>16)%len(ready)]
		}
		cases[i].base().perform(op)
		op.idx = i
	case def:
		return -1
	default:
		for i, c := range cases {
			b := c.base()
			if b.st == nil {
				continue
			}
			w := &waiter{op: op, idx: i, val: b.val}
			if b.send {
				b.st.sendq = append(b.st.sendq, w)
			} else {
				b.st.recvq = append(b.st.recvq, w)
			}
		}
		if cur == nil {
			panic("rt: blocking outside of a task on a channel")
		}
		Wait("a channel", func() bool {
			if !op.fired {
				for i, c := range cases {
					b := c.base()
					if b.st == nil || b.send || b.st.poll == nil {
						continue
					}
					b.st.poll(b.st)
					if len(b.st.buf) > 0 || b.st.closed {
						op.fired, op.idx = true, i
						op.val, op.ok = b.st.take()
						break
					}
				}
			}
			return op.fired
		})
		if Aborting() {
			panic(Abort{})
		}
		for _, c := range cases {
			if b := c.base(); b.st != nil {
				b.st.recvq = drop(b.st.recvq, op)
				b.st.sendq = drop(b.st.sendq, op)
			}
		}
	}
	b := cases[op.idx].base()
	b.st.hb.Acquire()
	b.st.hb.Release()
	if op.panic {
		panic(runtimeError("send on closed channel"))
	}
	if !b.send {
		b.set(op.val, op.ok)
	}
	return op.idx
}

type runtimeError string

func (e runtimeError) Error() string { return string(e) }
func (e runtimeError) RuntimeError() {}

func drop(q []*waiter, op *chanOp) []*waiter {
	out := q[:0]
	for _, w := range q {
		if w.op != op {
			out = append(out, w)
		}
	}
	return out
}

// first takes the first waiter that has not been served.
func first(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.op.fired {
			return w
		}
	}
	return nil
}

func waiting(q []*waiter) bool {
	for _, w := range q {
		if !w.op.fired {
			return true
		}
	}
	return false
}

func (c *caseBase) ready() bool {
	st := c.st
	if st == nil {
		return false
	}
	if st.poll != nil {
		st.poll(st)
	}
	if c.send {
		return st.closed || len(st.buf) < st.cap || waiting(st.recvq)
	}
	return len(st.buf) > 0 || st.closed || waiting(st.sendq)
}

// take receives from a channel that has something to receive.
func (st *chanState) take() (any, bool) {
	if len(st.buf) > 0 {
		v := st.buf[0]
		st.buf = st.buf[1:]
		if w := first(&st.sendq); w != nil {
			st.buf = append(st.buf, w.val)
			w.op.fired, w.op.idx = true, w.idx
		}
		return v, true
	}
	if w := first(&st.sendq); w != nil {
		w.op.fired, w.op.idx = true, w.idx
		return w.val, true
	}
	return nil, false // closed
}

func (c *caseBase) perform(op *chanOp) {
	st := c.st
	op.fired = true
	if !c.send {
		st.hb.Release()
		op.val, op.ok = st.take()
		return
	}
	if st.closed {
		op.panic = true
		return
	}
	st.hb.Release()
	if len(st.buf) == 0 {
		if w := first(&st.recvq); w != nil {
			w.op.fired, w.op.idx, w.op.val, w.op.ok = true, w.idx, c.val, true
			return
		}
	}
	st.buf = append(st.buf, c.val)
}

// Recv receives a value.
func Recv[C ~chan T | ~<-chan T, T any](ch C) T {
	c := CaseRecv[C, T](ch)
	Select(false, c)
	return c.Val
}

// Recv2 receives a value and whether there was one.
func Recv2[C ~chan T | ~<-chan T, T any](ch C) (T, bool) {
	c := CaseRecv[C, T](ch)
	Select(false, c)
	return c.Val, c.Ok
}

// SendTo returns the function that sends to ch.
func SendTo[C ~chan T | ~chan<- T, T any](ch C) func(T) {
	c := CaseSend[C, T](ch)
	return func(v T) { Select(false, c(v)) }
}

// Close closes ch.
func Close[C ~chan T | ~chan<- T, T any](ch C) {
	Point("close channel")
	if Aborting() {
		return
	}
	st := stateOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), nil, (chan<- T)(ch))
	switch {
	case st == nil:
		panic(runtimeError("close of nil channel"))
	case st.closed:
		panic(runtimeError("close of closed channel"))
	}
	st.closed = true
	st.hb.Acquire()
	st.hb.Release()
	for w := first(&st.recvq); w != nil; w = first(&st.recvq) {
		w.op.fired, w.op.idx, w.op.ok = true, w.idx, false
	}
	for w := first(&st.sendq); w != nil; w = first(&st.sendq) {
		w.op.fired, w.op.idx, w.op.panic = true, w.idx, true
	}
}

// ChanLen is len of a channel.
func ChanLen[C any](ch C) int {
	Point("channel")
	if st := chans[*(*unsafe.Pointer)(unsafe.Pointer(&ch))]; st != nil {
		if st.poll != nil {
			st.poll(st)
		}
		return min(len(st.buf), st.cap)
	}
	return reflect.ValueOf(ch).Len()
}

// ChanZero is the zero value of what a channel carries.
func ChanZero[C ~chan T | ~<-chan T, T any](C) (z T) { return }

// ElemZero is the zero value of a slice's elements.
func ElemZero[S ~[]T, T any](S) (z T) { return }
