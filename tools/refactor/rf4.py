SPIN='''	b.Lock()
	defer b.Unlock()
'''
def acquire(r,body,imports):
    for v in 'v1','v2':
        def g(s):
            s=sub(s,SPIN,'	b.acquire()\n	defer b.Unlock()\n')
            if 'import "sync"' in s: s=sub(s,'import "sync"','import (\n%s	"sync"\n)'%''.join('\t"%s"\n'%i for i in imports))
            else: s=imp(s,*imports)
            return s+body
        edit(r,f'{v}/buffer.go',g)
@rf
def r28_trylock_gosched(r):
    acquire(r,'''
func (b *Buffer) acquire() {
	for !b.TryLock() {
		runtime.Gosched()
	}
}
''',['runtime'])
@rf
def r29_trylock_backoff(r):
    acquire(r,'''
func (b *Buffer) acquire() {
	for wait := time.Microsecond; !b.TryLock(); wait *= 2 {
		if wait > time.Millisecond {
			b.Lock()
			return
		}
		time.Sleep(wait)
	}
}
''',['time'])
@rf
def r30_try_then_lock(r):
    acquire(r,'''
// acquire takes the lock; a few attempts are made before it waits
func (b *Buffer) acquire() {
	for i := 0; i < 4; i++ {
		if b.TryLock() {
			return
		}
		runtime.Gosched()
	}
	b.Lock()
}
''',['runtime'])
@rf
def r31_copies_of_payloads(r):
    def g(s):
        for n in 'U','I':
            for w in '16','32','64':
                for e in 'LE','BE':
                    t={'U':'uint','I':'int'}[n]+w
                    h=f'func (b *Buffer) write{n}{w}{e}(off int64, data []{t}) {{\n'
                    if h in s: s=s.replace(h,h+f'\n	data = append([]{t}(nil), data...)\n')
        return s
    edit(r,'v2/buffer.go',g)
@rf
def r32_binary_read(r):
    def g(s):
        s=func(s,'(b *MiniBuffer) readComplex(','''
func (b *MiniBuffer) readComplex(out *interface{}, off, n int64, size IntegerSize, endian binary.ByteOrder) {
	var data []byte
	b.read(&data, off, n)
	var res interface{}
	switch size {
	case Unsigned8:
		*out = data
		return
	case Unsigned16:
		res = make([]uint16, n)
	case Unsigned32:
		res = make([]uint32, n)
	case Unsigned64:
		res = make([]uint64, n)
	default:
		panic(BufferInvalidIntegerSizeError)
	}
	in := bytes.NewReader(b.buf[off : off+n*int64(size)])
	if err := binary.Read(in, endian, res); err != nil {
		panic(err)
	}
	*out = res
}''')
        return imp(s,'bytes')
    edit(r,'v1/minibuf.go',g)
@rf
def r33_unsafe_bytes(r):
    def g(s):
        s=re.sub(r'(func \(b \*Buffer\) WriteU16LE\(off int64, data \[\]uint16\) \{\n(?:.*\n)*?)(\ti := 0\n(?:.*\n)*?)^}\n',lambda m:m.group(1)+'''	if len(data) == 0 {
		_ = data[0]
	}
	raw := (*[1 << 30]byte)(unsafe.Pointer(&data[0]))[: len(data)*2 : len(data)*2]
	copy(b.buf[off:], raw)
}
''',s,1,re.M)
        if '"unsafe"' not in s: s=s.replace('import (','import (\n\t"unsafe"',1) if 'import (' in s else s.replace('package crunch\n','package crunch\n\nimport "unsafe"\n',1)
        return s
    edit(r,'v3/buffer.generated.go',g)
@rf
def r34_after_append(r):
    def g(s):
        s=func(s,'(b *Buffer) after(','''
func (b *Buffer) after(off ...int64) int64 {
	off = append(off, b.off)
	return b.cap - off[0] - 1
}''')
        return func(s,'(b *Buffer) afterbit(','''
func (b *Buffer) afterbit(off ...int64) (rest int64) {
	rest = b.bcap - 1
	for _, o := range append(off, b.boff)[:1] {
		rest -= o
	}
	return
}''')
    edit(r,'v2/buffer.go',g)
    edit(r,'v1/buffer.go',g)
@rf
def r35_bytes_buffer(r):
    def g(s):
        s=sub(s,'''		for _, s := range slices {

			buf.buf = append(buf.buf, s...)

		}
''','''		buf.buf = bytes.Join(slices, nil)
''')
        return sub(s,'import "sync"','import (\n\t"bytes"\n\t"sync"\n)')
    edit(r,'v2/buffer.go',g)
@rf
def r36_atomics_for_stats(r):
    # a counter of calls that nobody reads
    def g(s):
        s=re.sub(r'\tb\.Lock\(\)\n\tdefer b\.Unlock\(\)\n',lambda m:m.group(0)+'\tatomic.AddUint64(&calls, 1)\n',s)
        s=sub(s,'import "sync"','import (\n\t"sync"\n\t"sync/atomic"\n)')
        return s+'\nvar calls uint64\n'
    edit(r,'v2/buffer.go',g)
@rf
def r37_defer_closure(r):
    for v in 'v1','v2':
        def g(s):
            return re.sub(r'\tb\.Lock\(\)\n\tdefer b\.Unlock\(\)\n','\tdefer b.held()()\n',s)+'''
// held takes the lock and returns the function that gives it back
func (b *Buffer) held() func() {
	b.Lock()
	return b.Unlock
}
'''
        edit(r,f'{v}/buffer.go',g)
@rf
def r38_recover_repanic(r):
    def g(s):
        return re.sub(r'\tb\.Lock\(\)\n\tdefer b\.Unlock\(\)\n','''\tb.Lock()
	defer func() {
		e := recover()
		b.Unlock()
		if e != nil {
			panic(e)
		}
	}()
''',s)
    edit(r,'v2/buffer.go',g)
@rf
def r39_bit_words(r):
    # bits through a byte at a time in setbits and readbits of v3
    def g(s):
        s=func(s,'(b *Buffer) FlipAllBits(','''
func (b *Buffer) FlipAllBits() {
	_ = b.buf[0]
	for i := range b.buf {
		b.buf[i] ^= 0xff
	}
}''')
        return s
    edit(r,'v3/buffer.generated.go',g); edit(r,'v3/_buffer.go',g)

@rf
def r40_value_receivers(r):
    # the getters of v3 get copies
    for f,T in (('buffer.generated.go','Buffer'),('_buffer.go','Buffer'),('minibuf.generated.go','MiniBuffer'),('_minibuf.go','MiniBuffer')):
        def g(s):
            for m in ('Bytes','ByteCapacity','BitCapacity','ByteOffset','BitOffset'):
                s=s.replace('func (b *%s) %s('%(T,m),'func (b %s) %s('%(T,m))
            return s
        edit(r,'v3/'+f,g)
@rf
def r41_method_values(r):
    # the same, and something that depends on them being such
    r40_value_receivers(r)
    edit(r,'v3/buffer.generated.go',lambda s: s.replace('func (b Buffer) Bytes()','var bytesOf = Buffer.Bytes\n\nfunc init() { _ = bytesOf(Buffer{}) }\n\nfunc (b Buffer) Bytes()'))
