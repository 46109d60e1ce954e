// Package buf drives the real (instrumented) crunch buffers and holds the
// executable reference model they are compared with.
package buf

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"

	"crunchsim/gen/v1"
	"crunchsim/gen/v2"
	"crunchsim/gen/v3"
	"crunchsim/rt"
)

// Op is one call of a public buffer method, independent of the buffer's version.
type Op struct {
	F    string   `json:"f"`
	Next bool     `json:"next,omitempty"`
	Off  int64    `json:"off,omitempty"`
	N    int64    `json:"n,omitempty"`
	Rel  bool     `json:"rel,omitempty"`
	Has  bool     `json:"has,omitempty"`
	K    string   `json:"k,omitempty"` // element kind U, I, F
	Size int      `json:"size,omitempty"`
	Big  bool     `json:"big,omitempty"`
	Data []byte   `json:"data,omitempty"`
	Vals []uint64 `json:"vals,omitempty"`
	Bit  byte     `json:"bit,omitempty"`
	Val  uint64   `json:"val,omitempty"`
	Pre  uint64   `json:"pre,omitempty"` // what output variables hold beforehand (MiniBuffer)
	// Share: the payload is a prefix of a slice that all calls with this number pass.
	Share int `json:"share,omitempty"`
	// Rep: the call is made this many times in a row (0: once).
	Rep int `json:"rep,omitempty"`

	shared any
}

// Res is what a call produced.
type Res struct {
	Panic string   `json:"panic,omitempty"`
	Int   int64    `json:"int,omitempty"`
	Bytes []byte   `json:"bytes,omitempty"`
	Vals  []uint64 `json:"vals,omitempty"`
	// NoContent: the call returned memory of the buffer itself and other tasks
	// ran between its critical section and the look at that memory.
	NoContent bool   `json:"nocontent,omitempty"`
	Alias     []byte `json:"-"`
	// Own is the typed slice the call returned or filled: the caller's from now on.
	Own any `json:"-"`
	// Bad says what the call did to memory that is none of its business.
	Bad string `json:"-"`
}

func (r Res) String() string {
	if r.Panic != "" {
		return "panic(" + r.Panic + ")"
	}
	switch {
	case r.Bytes != nil:
		if r.NoContent {
			return fmt.Sprintf("%d bytes", len(r.Bytes))
		}
		return short(r.Bytes)
	case r.Vals != nil:
		return fmt.Sprintf("%#x", r.Vals)
	}
	return fmt.Sprintf("%d (%#x)", r.Int, uint64(r.Int))
}

func short(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%x..(%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// Kind is one of the six buffer types.
type Kind struct {
	Name    string
	V       int
	Mini    bool
	typ     reflect.Type
	methods map[string]int
	newf    func(s [][]byte) any
}

// Kinds by name.
var (
	V1B = mk("v1.Buffer", 1, false, func(s [][]byte) any { return v1.NewBuffer(s...) })
	V1M = mk("v1.MiniBuffer", 1, true, func(s [][]byte) any {
		// the output variable may hold a used buffer already
		var b *v1.MiniBuffer
		if used(s) {
			v1.NewMiniBuffer(&b, []byte{1, 2, 3}, []byte{4, 5, 6})
			b.SeekBit(5, false)
			b.Seek(2, false)
		}
		v1.NewMiniBuffer(&b, s...)
		return b
	})
	V2B = mk("v2.Buffer", 2, false, func(s [][]byte) any { return v2.NewBuffer(s...) })
	V2M = mk("v2.MiniBuffer", 2, true, func(s [][]byte) any {
		// the output variable may hold a used buffer already
		var b *v2.MiniBuffer
		if used(s) {
			v2.NewMiniBuffer(&b, []byte{1, 2, 3}, []byte{4, 5, 6})
			b.SeekBit(5, false)
			b.Seek(2, false)
		}
		v2.NewMiniBuffer(&b, s...)
		return b
	})
	V3B = mk("v3.Buffer", 3, false, func(s [][]byte) any { return v3.NewBuffer(s...) })
	V3M = mk("v3.MiniBuffer", 3, true, func(s [][]byte) any {
		// the output variable may hold a used buffer already
		var b *v3.MiniBuffer
		if used(s) {
			v3.NewMiniBuffer(&b, []byte{1, 2, 3}, []byte{4, 5, 6})
			b.SeekBit(5, false)
			b.SeekByte(2, false)
		}
		v3.NewMiniBuffer(&b, s...)
		return b
	})

	All    = []*Kind{V1B, V1M, V2B, V2M, V3B, V3M}
	ByName = map[string]*Kind{}
)

func used(s [][]byte) bool {
	n := len(s)
	for _, b := range s {
		n += len(b)
	}
	return n%2 == 1
}

// TwinName is the name of a v3 kind's regenerated counterpart.
func TwinName(name string) string { return "v3r" + strings.TrimPrefix(name, "v3") }

func mk(name string, v int, mini bool, f func([][]byte) any) *Kind {
	k := &Kind{Name: name, V: v, Mini: mini, newf: f}
	k.typ = reflect.TypeOf(f(nil))
	k.methods = map[string]int{}
	for i := 0; i < k.typ.NumMethod(); i++ {
		k.methods[k.typ.Method(i).Name] = i
	}
	return k
}

func init() {
	for _, k := range All {
		ByName[k.Name] = k
	}
}

// Method is the name of the method op calls on this kind ("" if it has none).
func (k *Kind) Method(op *Op) string {
	n := ""
	if op.Next {
		n = "Next"
	}
	three := func(a, b string) string {
		if k.V == 3 {
			return b
		}
		return a
	}
	m := ""
	switch op.F {
	case "bytes":
		m = "Bytes"
	case "cap":
		m = three("Capacity", "ByteCapacity")
	case "bcap":
		m = "BitCapacity"
	case "off":
		m = three("Offset", "ByteOffset")
	case "boff":
		m = "BitOffset"
	case "refresh":
		m = "Refresh"
	case "reset":
		m = "Reset"
	case "grow":
		m = "Grow"
	case "seek":
		m = three("Seek", "SeekByte")
	case "seekbit":
		m = "SeekBit"
	case "alignbit":
		m = "AlignBit"
	case "alignbyte":
		m = "AlignByte"
	case "after":
		m = three("After", "AfterByte")
	case "afterbit":
		m = "AfterBit"
	case "truncl":
		m = "TruncateLeft"
	case "truncr":
		m = "TruncateRight"
	case "readbyte":
		m = "ReadByte" + n
	case "readbytes":
		m = "ReadBytes" + n
	case "writebyte":
		m = "WriteByte" + n
	case "writebytes":
		m = "WriteBytes" + n
	case "read", "write":
		m = "Read"
		if op.F == "write" {
			m = "Write"
		}
		if k.V == 1 {
			m += "Complex"
		} else {
			m += fmt.Sprintf("%s%d", op.K, op.Size*8)
			if op.Big {
				m += "BE"
			} else {
				m += "LE"
			}
		}
		m += n
	case "readbit":
		m = "ReadBit" + n
	case "readbits":
		m = "ReadBits" + n
	case "setbit":
		m = "SetBit" + n
	case "clearbit":
		m = "ClearBit" + n
	case "setbits":
		m = "SetBits" + n
	case "flipbit":
		m = "FlipBit" + n
	case "clearall":
		m = "ClearAllBits"
	case "setall":
		m = "SetAllBits"
	case "flipall":
		m = "FlipAllBits"
	}
	if _, ok := k.methods[m]; !ok {
		return ""
	}
	return m
}

// Has reports whether the kind offers op.
func (k *Kind) Has(op *Op) bool { return k.Method(op) != "" }

// Show renders the call.
func (k *Kind) Show(op *Op) string {
	var a []string
	off := func() {
		if !op.Next {
			a = append(a, fmt.Sprint(op.Off))
		}
	}
	switch op.F {
	case "grow", "truncl", "truncr":
		a = append(a, fmt.Sprint(op.N))
	case "seek", "seekbit":
		a = append(a, fmt.Sprint(op.Off), fmt.Sprint(op.Rel))
	case "after", "afterbit":
		if op.Has {
			a = append(a, fmt.Sprint(op.Off))
		}
	case "readbyte", "readbit", "flipbit", "clearbit":
		off()
	case "setbit":
		off()
		if k.V != 3 {
			a = append(a, fmt.Sprint(op.Bit))
		}
	case "readbytes", "readbits":
		off()
		a = append(a, fmt.Sprint(op.N))
	case "read":
		off()
		a = append(a, fmt.Sprint(op.N))
		if k.V == 1 {
			a = append(a, fmt.Sprint("size ", op.Size), endian(op.Big))
		}
	case "writebyte":
		off()
		a = append(a, fmt.Sprintf("%#x", op.Bit))
	case "writebytes":
		off()
		a = append(a, "["+short(op.Data)+"]")
	case "write":
		off()
		a = append(a, fmt.Sprintf("%#x", op.Vals))
		if k.V == 1 {
			a = append(a, fmt.Sprint("size ", op.Size), endian(op.Big))
		}
	case "setbits":
		off()
		a = append(a, fmt.Sprintf("%#x", op.Val), fmt.Sprint(op.N))
	}
	s := k.Method(op) + "(" + strings.Join(a, ", ") + ")"
	if op.Rep > 1 {
		s += fmt.Sprintf(" %d times", op.Rep)
	}
	return s
}

func endian(big bool) string {
	if big {
		return "BE"
	}
	return "LE"
}

// Inst is one buffer.
type Inst struct {
	K *Kind
	B any
	v reflect.Value

	view []byte // of the contents, by the last call that gave one
}

// New builds a buffer over the given slices.
func (k *Kind) New(slices ...[]byte) *Inst {
	b := k.newf(slices)
	return &Inst{K: k, B: b, v: reflect.ValueOf(b)}
}

type locker interface {
	Lock()
	Unlock()
	TryLock() bool
}

// Lock takes the buffer's exported lock.
func (x *Inst) Lock() { x.B.(locker).Lock() }

// Unlock releases the buffer's exported lock.
func (x *Inst) Unlock() { x.B.(locker).Unlock() }

// TryLock tries the buffer's exported lock.
func (x *Inst) TryLock() bool { return x.B.(locker).TryLock() }

// elements builds the payload slice of a typed write.
func elements(kind string, size int, vals []uint64) any {
	n := len(vals)
	switch kind {
	case "I":
		switch size {
		case 2:
			s := make([]int16, n)
			for i, v := range vals {
				s[i] = int16(v)
			}
			return s
		case 4:
			s := make([]int32, n)
			for i, v := range vals {
				s[i] = int32(v)
			}
			return s
		case 8:
			s := make([]int64, n)
			for i, v := range vals {
				s[i] = int64(v)
			}
			return s
		}
	case "F":
		switch size {
		case 4:
			s := make([]float32, n)
			for i, v := range vals {
				s[i] = math.Float32frombits(uint32(v))
			}
			return s
		case 8:
			s := make([]float64, n)
			for i, v := range vals {
				s[i] = math.Float64frombits(v)
			}
			return s
		}
	}
	switch size {
	case 1:
		s := make([]byte, n)
		for i, v := range vals {
			s[i] = byte(v)
		}
		return s
	case 2:
		s := make([]uint16, n)
		for i, v := range vals {
			s[i] = uint16(v)
		}
		return s
	case 4:
		s := make([]uint32, n)
		for i, v := range vals {
			s[i] = uint32(v)
		}
		return s
	}
	s := make([]uint64, n)
	copy(s, vals)
	return s
}

func garbage(pre uint64, n int64) []uint64 {
	if n < 0 || n > 1<<21 {
		n = 0
	}
	s := make([]uint64, n)
	for i := range s {
		pre = pre*6364136223846793005 + 1442695040888963407
		s[i] = pre
	}
	return s
}

func toRes(v any, r *Res) {
	switch v := v.(type) {
	case nil:
	case byte:
		r.Int = int64(v)
	case uint64:
		r.Int = int64(v)
	case int64:
		r.Int = v
	case []byte:
		r.Alias = v
		r.Bytes = append(make([]byte, 0, len(v)), v...)
	case []uint16:
		r.Vals, r.Own = conv(v), v
	case []uint32:
		r.Vals, r.Own = conv(v), v
	case []uint64:
		r.Vals, r.Own = conv(v), v
	case []int16:
		r.Own = v
		r.Vals = make([]uint64, len(v))
		for i, x := range v {
			r.Vals[i] = uint64(uint16(x))
		}
	case []int32:
		r.Own = v
		r.Vals = make([]uint64, len(v))
		for i, x := range v {
			r.Vals[i] = uint64(uint32(x))
		}
	case []int64:
		r.Own = v
		r.Vals = make([]uint64, len(v))
		for i, x := range v {
			r.Vals[i] = uint64(x)
		}
	case []float32:
		r.Own = v
		r.Vals = make([]uint64, len(v))
		for i, x := range v {
			r.Vals[i] = uint64(math.Float32bits(x))
		}
	case []float64:
		r.Own = v
		r.Vals = make([]uint64, len(v))
		for i, x := range v {
			r.Vals[i] = math.Float64bits(x)
		}
	default:
		r.Panic = fmt.Sprintf("harness: unexpected result type %T", v)
	}
}

func conv[T uint16 | uint32 | uint64](v []T) []uint64 {
	r := make([]uint64, len(v))
	for i, x := range v {
		r[i] = uint64(x)
	}
	return r
}

var crunchErrors = map[any]string{}

func init() {
	type e struct {
		n string
		v any
	}
	for _, x := range []e{
		{"overread", v1.BufferOverreadError}, {"overread", v2.BufferOverreadError}, {"overread", v3.BufferOverreadError},
		{"underread", v1.BufferUnderreadError}, {"underread", v2.BufferUnderreadError}, {"underread", v3.BufferUnderreadError},
		{"overwrite", v1.BufferOverwriteError}, {"overwrite", v2.BufferOverwriteError}, {"overwrite", v3.BufferOverwriteError},
		{"underwrite", v1.BufferUnderwriteError}, {"underwrite", v2.BufferUnderwriteError}, {"underwrite", v3.BufferUnderwriteError},
		{"invalidcount", v3.BufferInvalidByteCountError},
	} {
		crunchErrors[x.v] = x.n
	}
}

func classify(r any) string {
	switch e := r.(type) {
	case rt.MemFault:
		return "fault"
	case v1.Error, v2.Error, v3.Error:
		if n, ok := crunchErrors[r]; ok {
			return n
		}
		return "crunch: " + e.(error).Error()
	case interface {
		error
		RuntimeError()
	}:
		return "runtime: " + e.Error()
	case error:
		if n, ok := twinError(r); ok {
			return n
		}
		return "error: " + e.Error()
	}
	return fmt.Sprintf("other: %v", r)
}

// Call runs op on the real buffer and reports what it did. The simulator's own
// unwinding passes through. The caller's payload has to be as it was
// afterwards, and is overwritten then: the buffer must not have kept it.
func (x *Inst) Call(op *Op) (res Res) {
	var pay any
	res = x.call(op, &pay)
	if pay != nil && res.Panic != "fault" {
		if op.shared == nil && !Polite {
			res.Bad = op.payloadChanged(pay)
			scribble(pay)
		}
	}
	if len(res.Vals) > 0 && res.Own != nil {
		announce(res.Own)
	}
	return res
}

// Polite callers never touch again what they have passed to a call, pass no slice
// twice and leave what they get alone.
var Polite bool

// SharePayloads makes the slices that calls with the same Share number pass.
// It returns a function that says what became of them.
func SharePayloads(ops []*Op) func() string {
	longest := map[int]*Op{}
	for _, op := range ops {
		op.shared = nil
		if l := longest[op.Share]; op.Share > 0 && (l == nil || len(op.Data) > len(l.Data) || len(op.Vals) > len(l.Vals)) {
			longest[op.Share] = op
		}
	}
	if len(longest) == 0 || Polite {
		return func() string { return "" }
	}
	made := map[int]any{}
	for id, l := range longest {
		made[id] = l.payload()
	}
	for _, op := range ops {
		l := longest[op.Share]
		if l == nil || op.F != l.F || op.K != l.K || op.Size != l.Size || !slices.Equal(op.Data, l.Data[:min(len(op.Data), len(l.Data))]) || !slices.Equal(op.Vals, l.Vals[:min(len(op.Vals), len(l.Vals))]) {
			continue
		}
		v := reflect.ValueOf(made[op.Share])
		n := len(op.Data) + len(op.Vals)
		op.shared = v.Slice(0, n).Interface()
	}
	return func() string {
		for id := range longest {
			if msg := longest[id].payloadChanged(made[id]); msg != "" {
				return msg
			}
		}
		return ""
	}
}

func (op *Op) payload() any {
	var s any
	switch op.F {
	case "writebytes":
		s = op.Data
	case "after", "afterbit":
		return []int64{op.Off} // nothing behind it
	default:
		s = elements(op.K, op.Size, op.Vals)
	}
	// what lies behind it is the caller's as well
	v := reflect.ValueOf(s)
	c := reflect.MakeSlice(v.Type(), v.Len()+beyond, v.Len()+beyond)
	reflect.Copy(c, v)
	scribble(c.Slice(v.Len(), c.Len()).Interface())
	return c.Slice(0, v.Len()).Interface()
}

const beyond = 9

func (op *Op) payloadChanged(now any) string {
	whole := func(s any) (r Res) {
		v := reflect.ValueOf(s)
		v = v.Slice(0, v.Cap())
		if b, ok := v.Interface().([]byte); ok {
			r.Bytes = b
			return
		}
		toRes(v.Interface(), &r)
		return
	}
	a, b := whole(now), whole(op.payload())
	switch n := len(op.Data) + len(op.Vals); {
	case slices.Equal(a.Bytes, b.Bytes) && slices.Equal(a.Vals, b.Vals):
		return ""
	case len(a.Bytes) > 0 && slices.Equal(a.Bytes[:n], b.Bytes[:n]), len(a.Vals) > 0 && n > 0 && slices.Equal(a.Vals[:n], b.Vals[:n]):
		return "wrote behind the end of the slice that the caller passed as its argument"
	}
	return "changed the slice that the caller passed as its argument"
}

// scribble overwrites a slice.
func scribble(s any) {
	switch s := s.(type) {
	case []byte:
		over(s, 0xa5)
	case []uint16:
		over(s, 0xa5a5)
	case []uint32:
		over(s, 0xa5a5a5a5)
	case []uint64:
		over(s, 0xa5a5a5a5a5a5a5a5)
	case []int16:
		over(s, 0x5a5a)
	case []int32:
		over(s, 0x5a5a5a5a)
	case []int64:
		over(s, 0x5a5a5a5a5a5a5a5a)
	case []float32:
		over(s, 12345)
	case []float64:
		over(s, 12345)
	}
}

func over[T any](s []T, v T) {
	for i := range s[:min(len(s), 4096)] {
		s[i] = v
	}
}

// announce tells the race detector that the caller looks at its result.
func announce(s any) {
	switch s := s.(type) {
	case []uint16:
		rt.Look(-4, s)
	case []uint32:
		rt.Look(-4, s)
	case []uint64:
		rt.Look(-4, s)
	case []int16:
		rt.Look(-4, s)
	case []int32:
		rt.Look(-4, s)
	case []int64:
		rt.Look(-4, s)
	case []float32:
		rt.Look(-4, s)
	case []float64:
		rt.Look(-4, s)
	}
}

// Kept is a result that a caller holds on to.
type Kept struct {
	What string
	own  any
	want []uint64
}

// Keep remembers a typed result; every other one is overwritten by the caller.
func (r *Res) Keep(what string, use bool) *Kept {
	if use {
		scribble(r.Own)
	}
	k := &Kept{What: what, own: r.Own}
	var now Res
	toRes(r.Own, &now)
	k.want = now.Vals
	return k
}

// Changed reports whether somebody else has written to a kept result.
func (k *Kept) Changed() bool {
	var now Res
	toRes(k.own, &now)
	return !slices.Equal(now.Vals, k.want)
}

func (x *Inst) call(op *Op, pay *any) (res Res) {
	m, ok := x.K.methods[x.K.Method(op)]
	if !ok {
		panic("harness: " + x.K.Name + " has no method for " + op.F)
	}
	fn := x.v.Method(m)
	ft := fn.Type()
	var args []reflect.Value
	add := func(v any) { args = append(args, reflect.ValueOf(v)) }
	var outp reflect.Value
	np, filled := 0, false
	if ft.NumIn() > 0 && ft.In(0).Kind() == reflect.Pointer {
		outp = reflect.New(ft.In(0).Elem())
		np = 1
		switch p := outp.Interface().(type) {
		case *byte:
			*p = byte(op.Pre)
		case *uint64:
			*p = op.Pre
		case *int64:
			*p = int64(op.Pre)
		case *[]byte:
			n := [8]int64{0, 1, 2, 3, 4, op.N, op.N + 1, 40}[op.Pre%8]
			if *p = elements("U", 1, garbage(op.Pre, n)).([]byte); op.Pre%16 < 4 {
				*p = (*p)[:len(*p)/2]
			}
			if op.Pre%16 > 11 && len(x.view) > 0 { // the caller uses its variable again
				*p = x.view[:1+op.Pre/16%uint64(len(x.view))]
			}
		case *interface{}:
			// nothing, something else, or what an earlier read has left there
			switch op.Pre % 4 {
			case 1:
				*p = op.Pre
			case 2:
				*p = elements("U", op.Size, garbage(op.Pre, op.N+int64(op.Pre/4%3)-1))
				if op.Size == 1 && op.Pre/4%3 == 1 && len(x.view) > 0 {
					*p = x.view
				}
			case 3:
				*p = elements("U", 1<<(op.Pre/4%4), garbage(op.Pre, int64(op.Pre/16%40)))
			}
		default:
			// typed reads fill a slice the caller provides
			outp.Elem().Set(reflect.ValueOf(elements(op.K, op.Size, garbage(op.Pre, op.N+int64(op.Pre%3)))))
			filled = true
		}
		args = append(args, outp)
	}
	off := func() {
		if !op.Next {
			add(op.Off)
		}
	}
	switch op.F {
	case "grow", "truncl", "truncr":
		add(op.N)
	case "seek", "seekbit":
		add(op.Off)
		add(op.Rel)
	case "after", "afterbit":
		if op.Has {
			*pay = op.payload()
			add(*pay)
		}
	case "readbyte", "readbit", "flipbit", "clearbit":
		off()
	case "setbit":
		off()
		if x.K.V != 3 {
			add(op.Bit)
		}
	case "readbytes", "readbits":
		off()
		add(op.N)
	case "read":
		off()
		add(op.N)
	case "writebyte":
		off()
		add(op.Bit)
	case "writebytes":
		off()
		if *pay = op.shared; op.shared == nil {
			*pay = op.payload()
		}
		add(*pay)
	case "write":
		off()
		if *pay = op.shared; op.shared == nil {
			*pay = op.payload()
		}
		add(*pay)
	case "setbits":
		off()
		add(op.Val)
		add(op.N)
	}
	if x.K.V == 1 && (op.F == "read" || op.F == "write") {
		add(v1.IntegerSize(op.Size))
		if op.Big {
			add(v1.BigEndian)
		} else {
			add(v1.LittleEndian)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case rt.Abort, rt.Killed:
				panic(r)
			}
			res = Res{Panic: classify(r)}
		}
	}()
	t := rt.Cur()
	acq := 0
	if t != nil {
		acq = t.Released + t.AtomicOps
		if np == 1 {
			t.OutLo = outp.Pointer()
			t.OutHi = t.OutLo + outp.Type().Elem().Size()
			defer func() { t.OutLo, t.OutHi = 0, 0 }()
		}
	}
	call := fn.Call
	if op.Has && ft.IsVariadic() {
		call = fn.CallSlice
	}
	out := call(args)
	if np == 1 {
		toRes(outp.Elem().Interface(), &res)
		if n := op.N; filled && n >= 0 && int64(len(res.Vals)) > n {
			// the caller's slice was longer: what is behind the result is untouched
			var was Res
			toRes(elements(op.K, op.Size, garbage(op.Pre, op.N+int64(op.Pre%3))), &was)
			if slices.Equal(res.Vals[n:], was.Vals[n:]) {
				res.Vals = res.Vals[:n]
			}
		}
	} else if len(out) > 0 {
		toRes(out[0].Interface(), &res)
	}
	if res.Alias != nil && op.F != "read" {
		x.view = res.Alias
	}
	if t != nil && res.Alias != nil && !x.K.Mini && x.K.V != 3 {
		// memory of the shared buffer: its contents belong to the call only if
		// nobody else ran since the call's critical section ended
		res.NoContent = t.Released+t.AtomicOps == acq || t.UnlockSwitches != t.SwitchedOut
	}
	return res
}
