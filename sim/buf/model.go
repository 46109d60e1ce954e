package buf

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
)

// State is the reference model: a byte array with one byte and one bit cursor.
// A set bit in Unk marks a bit whose value is not known (a faulted write left
// its old or its new value).
type State struct {
	Data, Unk []byte
	Off, Boff int64
	anyUnk    bool
}

// NewState wraps initial contents.
func NewState(data []byte) *State {
	return &State{Data: append([]byte{}, data...), Unk: make([]byte, len(data))}
}

// Clone copies.
func (s *State) Clone() *State {
	c := *s
	c.Data = append([]byte{}, s.Data...)
	c.Unk = append([]byte{}, s.Unk...)
	return &c
}

// Key identifies the state.
func (s *State) Key() string {
	var b strings.Builder
	b.Grow(len(s.Data)*2 + 16)
	var n [8]byte
	binary.LittleEndian.PutUint64(n[:], uint64(s.Off))
	b.Write(n[:])
	binary.LittleEndian.PutUint64(n[:], uint64(s.Boff))
	b.Write(n[:])
	b.Write(s.Data)
	if s.anyUnk {
		b.Write(s.Unk)
	}
	return b.String()
}

func (s *State) String() string {
	u := ""
	for i, x := range s.Unk {
		if x != 0 {
			u += fmt.Sprintf(" byte %d unknown mask %02x", i, x)
		}
	}
	return fmt.Sprintf("contents %s, byte cursor %d, bit cursor %d, capacity %d%s", short(s.Data), s.Off, s.Boff, len(s.Data), u)
}

func (s *State) cap() int64  { return int64(len(s.Data)) }
func (s *State) bcap() int64 { return int64(len(s.Data)) * 8 }

// matchBytes compares observed bytes at off and pins unknown bits.
func (s *State) matchBytes(off int64, got []byte) bool {
	for i, g := range got {
		j := off + int64(i)
		if (s.Data[j]^g)&^s.Unk[j] != 0 {
			return false
		}
	}
	for i, g := range got {
		j := off + int64(i)
		if s.Unk[j] != 0 {
			s.Data[j], s.Unk[j] = g, 0
		}
	}
	return true
}

func (s *State) putBytes(off int64, b []byte) {
	copy(s.Data[off:], b)
	for i := range b {
		s.Unk[off+int64(i)] = 0
	}
}

// blurBytes lets each bit be old or new.
func (s *State) blurBytes(off int64, b []byte) {
	for i, n := range b {
		j := off + int64(i)
		d := s.Data[j] ^ n
		if d != 0 {
			s.Unk[j] |= d
			s.anyUnk = true
		}
	}
}

func (s *State) setBit(off int64, v byte) {
	m := byte(1) << uint(7-off%8)
	s.Data[off/8] &^= m
	if v != 0 {
		s.Data[off/8] |= m
	}
	s.Unk[off/8] &^= m
}

func (s *State) blurBit(off int64, v byte) {
	m := byte(1) << uint(7-off%8)
	if s.Data[off/8]&m != 0 != (v != 0) {
		s.Unk[off/8] |= m
		s.anyUnk = true
	}
}

// matchBit compares an observed bit and pins it.
func (s *State) matchBit(off int64, v byte) bool {
	m := byte(1) << uint(7-off%8)
	if s.Unk[off/8]&m != 0 {
		s.setBit(off, v)
		return true
	}
	return (s.Data[off/8]&m != 0) == (v != 0)
}

// Encode gives the bytes a write stores.
func (op *Op) Encode() []byte {
	switch op.F {
	case "writebyte":
		return []byte{op.Bit}
	case "writebytes":
		return op.Data
	}
	out := make([]byte, 0, len(op.Vals)*op.Size)
	for _, v := range op.Vals {
		for i := 0; i < op.Size; i++ {
			sh := uint(8 * i)
			if op.Big {
				sh = uint(8 * (op.Size - 1 - i))
			}
			out = append(out, byte(v>>sh))
		}
	}
	return out
}

func (op *Op) elem(b []byte) uint64 {
	var v uint64
	for i := 0; i < op.Size; i++ {
		sh := uint(8 * i)
		if op.Big {
			sh = uint(8 * (op.Size - 1 - i))
		}
		v |= uint64(b[i]) << sh
	}
	return v
}

func (op *Op) unelem(v uint64) []byte {
	o := Op{F: "write", Size: op.Size, Big: op.Big, Vals: []uint64{v}}
	return o.Encode()
}

const big = int64(1) << 40

// verdicts of Expect
const (
	okCall   = iota // must succeed
	mustFail        // must panic, with the named crunch error where the kind is strict
	anyFail         // must panic, with any value
	either          // may panic with any value or succeed without effect (empty requests)
	undef           // the library does not define this call
)

type expect struct {
	verdict int
	errs    []string // acceptable crunch errors for mustFail
	off     int64    // resolved target
	n       int64    // target length in bytes (or bits for bit calls)
}

// Expect says what a call must do in this state.
func (s *State) expect(k *Kind, op *Op) expect {
	bitop, read := false, false
	var n int64
	switch op.F {
	case "grow":
		switch {
		case op.N < 0 && k.Mini:
			return expect{verdict: undef}
		case op.N < 0 && k.V == 3:
			return expect{verdict: mustFail, errs: []string{"invalidcount"}}
		case op.N < 0 || op.N > 1<<32:
			return expect{verdict: anyFail}
		}
		return expect{}
	case "truncl", "truncr":
		switch {
		case op.N < 0 && k.Mini, op.N > s.cap() && k.Mini:
			return expect{verdict: undef}
		case op.N < 0:
			return expect{verdict: mustFail, errs: []string{"invalidcount"}}
		case op.N > s.cap():
			return expect{verdict: anyFail}
		}
		return expect{}
	case "clearall", "setall", "flipall":
		if s.cap() == 0 {
			if k.Mini {
				return expect{verdict: undef}
			}
			return expect{verdict: either}
		}
		return expect{off: 0, n: s.cap()}
	case "readbyte":
		n, read = 1, true
	case "readbytes":
		n, read = op.N, true
	case "read":
		n, read = op.N*int64(op.Size), true
		if op.N > big {
			n = big
		}
	case "writebyte", "writebytes", "write":
		n = int64(len(op.Encode()))
	case "readbit":
		n, read, bitop = 1, true, true
	case "readbits":
		n, read, bitop = op.N, true, true
	case "setbit", "clearbit", "flipbit":
		n, bitop = 1, true
	case "setbits":
		n, bitop = op.N, true
	default:
		return expect{}
	}
	off, limit := op.Off, s.cap()
	if bitop {
		limit = s.bcap()
	}
	if op.Next {
		off = s.Off
		if bitop {
			off = s.Boff
		}
	}
	e := expect{off: off, n: n}
	over, under := "overwrite", "underwrite"
	if read {
		over, under = "overread", "underread"
	}
	switch {
	case n < 0:
		if k.Mini || bitop {
			e.verdict = undef
			return e
		}
		e.verdict = anyFail
		return e
	case n == 0:
		if k.Mini || bitop {
			e.verdict = undef
			return e
		}
		e.verdict = either
		return e
	case off > big || off < -big || n > big:
		if k.Mini {
			e.verdict = undef
			return e
		}
		e.verdict = anyFail
		return e
	}
	if off < 0 {
		e.errs = append(e.errs, under)
	}
	if off+n > limit {
		e.errs = append(e.errs, over)
	}
	if len(e.errs) > 0 {
		e.verdict = mustFail
		if k.Mini {
			e.verdict = undef
		}
		return e
	}
	if op.F == "setbit" && k.V != 3 && op.Bit > 1 {
		if k.Mini {
			e.verdict = undef
		} else {
			e.verdict = anyFail
		}
	}
	return e
}

// Defined reports whether the library defines what op does in this state.
func (s *State) Defined(k *Kind, op *Op) bool { return s.expect(k, op).verdict != undef }

// Succeeds reports whether op must succeed in this state.
func (s *State) Succeeds(k *Kind, op *Op) bool { return s.expect(k, op).verdict == okCall }

// Fails tells whether the call has to fail, and nothing happens then.
func (s *State) Fails(k *Kind, op *Op) bool {
	v := s.expect(k, op).verdict
	return !k.Mini && (v == mustFail || v == anyFail)
}

func has(l []string, x string) bool {
	for _, e := range l {
		if e == x {
			return true
		}
	}
	return false
}

// Apply checks an observed result against the model and moves the model on.
// strict demands the matching crunch error of rejected calls. On a mismatch it
// returns a description; the state is then meaningless.
func (s *State) Apply(k *Kind, op *Op, res *Res, strict bool) string {
	e := s.expect(k, op)
	if res.Panic == "fault" {
		s.blur(k, op, e)
		return ""
	}
	switch e.verdict {
	case undef:
		return "harness: undefined call generated"
	case mustFail:
		if res.Panic == "" {
			return fmt.Sprintf("returned %v although its arguments are out of range (want %v)", res, e.errs)
		}
		if strict && !has(e.errs, res.Panic) {
			return fmt.Sprintf("panicked with %q, want one of %v", res.Panic, e.errs)
		}
		return ""
	case anyFail:
		if res.Panic == "" {
			return fmt.Sprintf("returned %v although its arguments are out of range", res)
		}
		return ""
	case either:
		if res.Panic == "" && (len(res.Bytes) > 0 || len(res.Vals) > 0 || res.Int != 0) {
			return fmt.Sprintf("returned %v for an empty request", res)
		}
		return ""
	}
	if res.Panic != "" {
		return fmt.Sprintf("panicked with %q although its arguments are in range", res.Panic)
	}
	wantInt := func(v int64) string {
		if res.Int != v || res.Bytes != nil || res.Vals != nil {
			return fmt.Sprintf("returned %v, want %d", res, v)
		}
		return ""
	}
	adv := func(n int64) string {
		if op.Next {
			s.Off += n
		}
		return ""
	}
	advb := func(n int64) string {
		if op.Next {
			s.Boff += n
		}
		return ""
	}
	bytesAt := func(off, n int64) string {
		if int64(len(res.Bytes)) != n {
			return fmt.Sprintf("returned %d bytes (%v), want %d", len(res.Bytes), res, n)
		}
		if !res.NoContent && !s.matchBytes(off, res.Bytes) {
			return fmt.Sprintf("returned %s, want %s", short(res.Bytes), short(s.Data[off:off+n]))
		}
		return ""
	}
	switch op.F {
	case "bytes":
		return bytesAt(0, s.cap())
	case "cap":
		return wantInt(s.cap())
	case "bcap":
		return wantInt(s.bcap())
	case "off":
		return wantInt(s.Off)
	case "boff":
		return wantInt(s.Boff)
	case "refresh":
	case "reset":
		s.Data, s.Unk, s.Off, s.Boff, s.anyUnk = s.Data[:0], s.Unk[:0], 0, 0, false
	case "grow":
		s.Data = append(s.Data, make([]byte, op.N)...)
		s.Unk = append(s.Unk, make([]byte, op.N)...)
	case "truncl":
		s.Data, s.Unk = s.Data[op.N:], s.Unk[op.N:]
	case "truncr":
		s.Data, s.Unk = s.Data[:s.cap()-op.N], s.Unk[:s.cap()-op.N]
	case "seek":
		if op.Rel {
			s.Off += op.Off
		} else {
			s.Off = op.Off
		}
	case "seekbit":
		if op.Rel {
			s.Boff += op.Off
		} else {
			s.Boff = op.Off
		}
	case "alignbit":
		s.Boff = s.Off * 8
	case "alignbyte":
		s.Off = s.Boff / 8
	case "after":
		if op.Has {
			return wantInt(s.cap() - op.Off - 1)
		}
		return wantInt(s.cap() - s.Off - 1)
	case "afterbit":
		if op.Has {
			return wantInt(s.bcap() - op.Off - 1)
		}
		return wantInt(s.bcap() - s.Boff - 1)
	case "readbyte":
		if res.Int < 0 || res.Int > 255 || !s.matchBytes(e.off, []byte{byte(res.Int)}) {
			return fmt.Sprintf("returned %#x, want %#x", res.Int, s.Data[e.off])
		}
		return adv(1)
	case "readbytes":
		if m := bytesAt(e.off, e.n); m != "" {
			return m
		}
		return adv(e.n)
	case "read":
		if op.Size == 1 { // v1 ReadComplex of single bytes returns bytes
			if m := bytesAt(e.off, e.n); m != "" {
				return m
			}
			return adv(e.n)
		}
		if int64(len(res.Vals)) != op.N {
			return fmt.Sprintf("returned %d values (%v), want %d", len(res.Vals), res, op.N)
		}
		for i, v := range res.Vals {
			p := e.off + int64(i*op.Size)
			if !s.matchBytes(p, op.unelem(v)) {
				return fmt.Sprintf("returned %#x as element %d, want %#x", v, i, op.elem(s.Data[p:]))
			}
		}
		return adv(e.n)
	case "writebyte", "writebytes", "write":
		s.putBytes(e.off, op.Encode())
		return adv(e.n)
	case "readbit":
		if res.Int != 0 && res.Int != 1 || !s.matchBit(e.off, byte(res.Int)) {
			return fmt.Sprintf("returned %d for bit %d", res.Int, e.off)
		}
		return advb(1)
	case "readbits":
		v := uint64(res.Int)
		for i := int64(0); i < e.n; i++ {
			sh := e.n - 1 - i
			if sh >= 64 {
				continue
			}
			if !s.matchBit(e.off+i, byte(v>>uint(sh)&1)) {
				return fmt.Sprintf("returned %#x for %d bits at %d, want %#x", v, e.n, e.off, s.bits(e.off, e.n))
			}
		}
		if e.n < 64 && v>>uint(e.n) != 0 {
			return fmt.Sprintf("returned %#x for %d bits at %d, want %#x", v, e.n, e.off, s.bits(e.off, e.n))
		}
		return advb(e.n)
	case "setbit", "clearbit", "flipbit", "setbits":
		s.bitWrite(k, op, e)
		return advb(e.n)
	case "clearall", "setall", "flipall":
		for i := range s.Data {
			switch op.F {
			case "clearall":
				s.Data[i], s.Unk[i] = 0, 0
			case "setall":
				s.Data[i], s.Unk[i] = 0xff, 0
			default:
				s.Data[i] = ^s.Data[i]
			}
		}
	default:
		return "harness: unknown op " + op.F
	}
	return ""
}

func (s *State) bits(off, n int64) (v uint64) {
	for i := int64(0); i < n; i++ {
		v = v<<1 | uint64(s.Data[(off+i)/8]>>uint(7-(off+i)%8)&1)
	}
	return
}

func (s *State) newBit(k *Kind, op *Op, e expect, i int64) (byte, bool) {
	switch op.F {
	case "setbit":
		if k != nil && k.V != 3 {
			return op.Bit & 1, true
		}
		return 1, true
	case "clearbit":
		return 0, true
	case "setbits":
		sh := e.n - 1 - i
		if sh >= 64 {
			return 0, true
		}
		return byte(op.Val >> uint(sh) & 1), true
	}
	return 0, false
}

func (s *State) bitWrite(k *Kind, op *Op, e expect) {
	for i := int64(0); i < e.n; i++ {
		o := e.off + i
		if v, ok := s.newBit(k, op, e, i); ok {
			s.setBit(o, v)
		} else { // flip; an unknown bit stays unknown
			s.Data[o/8] ^= 1 << uint(7-o%8)
		}
	}
}

// blur is the effect of a call that a memory fault interrupted: nothing but
// the target region may have changed, each bit of it old or new.
func (s *State) blur(k *Kind, op *Op, e expect) {
	if e.verdict != okCall {
		return
	}
	switch op.F {
	case "writebyte", "writebytes", "write":
		s.blurBytes(e.off, op.Encode())
	case "setbit", "clearbit", "setbits", "flipbit":
		for i := int64(0); i < e.n; i++ {
			o := e.off + i
			m := byte(1) << uint(7-o%8)
			if op.F == "setbit" || op.F == "clearbit" || op.F == "setbits" {
				v, _ := s.newBit(k, op, e, i)
				s.blurBit(o, v)
			} else {
				s.Unk[o/8] |= m
				s.anyUnk = true
			}
		}
	case "clearall", "setall", "flipall":
		for i := range s.Data {
			switch op.F {
			case "clearall":
				s.blurBytes(int64(i), []byte{0})
			case "setall":
				s.blurBytes(int64(i), []byte{0xff})
			default:
				s.Unk[i] = 0xff
				s.anyUnk = true
			}
		}
	}
}

// RawRead compares one byte seen by a lock holder.
func (s *State) RawRead(i int64, v byte) bool { return s.matchBytes(i, []byte{v}) }

// RawWrite is a lock holder's store.
func (s *State) RawWrite(i int64, v byte) { s.putBytes(i, []byte{v}) }

// Holds reports whether mem is the contents, but for bits that are not known.
// mem may end earlier than the contents.
func (s *State) Holds(mem []byte) bool {
	if !s.anyUnk {
		return bytes.Equal(mem, s.Data[:len(mem)])
	}
	for i, x := range mem {
		if (x^s.Data[i])&^s.Unk[i] != 0 {
			return false
		}
	}
	return true
}
