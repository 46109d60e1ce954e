@rf
def r01_rwmutex(r):
    for v in 'v1','v2':
        def g(s):
            s=sub(s,'	sync.Mutex\n','	sync.RWMutex\n')
            for n in ['Bytes','Capacity','BitCapacity','Offset','BitOffset','After','AfterBit','ReadByte','ReadBytes','ReadBit','ReadBits']:
                s=re.sub(r'(func \(b \*Buffer\) '+n+r'\([^{]*\{\n\n)\tb.Lock\(\)\n\tdefer b.Unlock\(\)',r'\1\tb.RLock()\n\tdefer b.RUnlock()',s)
            return s
        edit(r,f'{v}/buffer.go',g)
@rf
def r02_locked_helper(r):
    def g(s):
        s=sub(s,'/* public methods */','''/* public methods */

// locked runs f while it holds the lock
func (b *Buffer) locked(f func()) {
	b.Lock()
	defer b.Unlock()
	f()
}
''')
        s=re.sub(r'\tb.Lock\(\)\n\tdefer b.Unlock\(\)\n\n\t(b\.write\(b\.off, .*\))\n\t(b\.seek\(.*\))\n',r'\tb.locked(func() {\n\t\t\1\n\t\t\2\n\t})\n',s)
        s=re.sub(r'\tb.Lock\(\)\n\tdefer b.Unlock\(\)\n\n\treturn (b\.read\w*\(off, n\))\n',lambda m:'\tvar o = func() (x interface{}) {\n\t\tb.locked(func() { x = '+m.group(1)+' })\n\t\treturn\n\t}()\n\treturn o.(RET)\n',s)
        out=[];ret=None
        for l in s.split('\n'):
            m=re.match(r'func \(b \*Buffer\) \w+\(.*?\) (\(out (.*)\)|(\S+)) \{$',l)
            if m: ret=m.group(2) or m.group(3)
            out.append(l.replace('RET',ret or ''))
        return '\n'.join(out)
    edit(r,'v2/buffer.go',g)
@rf
def r03_copy(r):
    for v in 'v1','v2':
        def g(s):
            s=func(s,'(b *Buffer) write(','''
func (b *Buffer) write(off int64, data []byte) {
	n := int64(len(data))
	switch {
	case off+n > b.cap:
		panic(BufferOverwriteError)
	case off < 0:
		panic(BufferUnderwriteError)
	}
	if n == 0 {
		_ = data[0]
	}
	copy(b.buf[off:off+n], data)
}''')
            s=func(s,'(b *Buffer) grow(','''
func (b *Buffer) grow(n int64) {
	tmp := make([]byte, n)
	b.buf = append(b.buf, tmp...)
	b.refresh()
}''')
            s=func(s,'(b *Buffer) readbit(','''
func (b *Buffer) readbit(off int64) byte {
	if off >= b.bcap {
		panic(BufferOverreadError)
	} else if off < 0 {
		panic(BufferUnderreadError)
	}
	octet, shift := b.buf[off>>3], uint(7-off&7)
	return (octet >> shift) & 1
}''')
            s=func(s,'(b *Buffer) setbit(','''
func (b *Buffer) setbit(off int64, data byte) {
	if off >= b.bcap {
		panic(BufferOverwriteError)
	}
	if off < 0 {
		panic(BufferUnderwriteError)
	}
	p, mask := &b.buf[off/8], byte(1)<<uint(7-(off%8))
	if data == 0 {
		*p &^= mask
	} else if data == 1 {
		*p |= mask
	} else {
		panic(BufferInvalidBitError)
	}
}''')
            return s
        edit(r,f'{v}/buffer.go',g)
@rf
def r04_binary(r):
    def g(s):
        for sz in 16,32,64:
            for en,E in (('LE','Little'),('BE','Big')):
                k=sz//8
                s=func(s,f'(b *Buffer) writeU{sz}{en}(',f'''
func (b *Buffer) writeU{sz}{en}(off int64, data []uint{sz}) {{
	if (off + int64(len(data))*{k}) > b.cap {{
		panic(BufferOverwriteError)
	}}
	if off < 0x00 {{
		panic(BufferUnderwriteError)
	}}
	_ = data[0]
	for _, v := range data {{
		binary.{E}Endian.PutUint{sz}(b.buf[off:], v)
		off += {k}
	}}
}}''')
                s=func(s,f'(b *Buffer) readU{sz}{en}(',f'''
func (b *Buffer) readU{sz}{en}(off, n int64) (out []uint{sz}) {{
	if (off + n*{k}) > b.cap {{
		panic(BufferOverreadError)
	}}
	if off < 0x00 {{
		panic(BufferUnderreadError)
	}}
	out = make([]uint{sz}, n)
	for i := range out {{
		out[i] = binary.{E}Endian.Uint{sz}(b.buf[off+int64(i)*{k} : off+int64(i+1)*{k}])
	}}
	if n == 0 {{
		_ = out[0]
	}}
	return out
}}''')
        return sub(s,'import "sync"','import (\n\t"encoding/binary"\n\t"sync"\n)')
    edit(r,'v2/buffer.go',g)
@rf
def r06_masks_table(r):
    for v in 'v1','v2':
        def g(s):
            s=sub(s,'// NewBuffer init','''// masks holds the mask of every bit of a byte
var masks [8]byte

func init() {
	for i := range masks {
		masks[i] = 0x80 >> uint(i)
	}
}

// NewBuffer init''')
            s=sub(s,'b.buf[off/8] ^= (1 << uint(7-(off%8)))','b.buf[off/8] ^= masks[off%8]')
            s=sub(s,'b.buf[off/8] |= (1 << uint(7-(off%8)))','b.buf[off/8] |= masks[off&7]')
            s=sub(s,'b.buf[off/8] &= ^(1 << uint(7-(off%8)))','b.buf[off/8] = b.buf[off/8] &^ masks[off%8]')
            return s
        edit(r,f'{v}/buffer.go',g)
@rf
def r07_bytewise_bits(r):
    def g(s):
        s=func(s,'(b *Buffer) readbits(','''
func (b *Buffer) readbits(off, n int64) (out uint64) {
	if n < 1 {
		n = 1
	}
	for n > 0 {
		if off >= b.bcap {
			panic(BufferOverreadError)
		}
		if off < 0 {
			panic(BufferUnderreadError)
		}
		in, take := off%8, 8-off%8
		if take > n {
			take = n
		}
		cur := b.buf[off/8] << uint(in) >> uint(8-take)
		out = out<<uint(take) | uint64(cur)
		off, n = off+take, n-take
	}
	return
}''')
        s=func(s,'(b *Buffer) setbits(','''
func (b *Buffer) setbits(off int64, data uint64, n int64) {
	if (off + n) > b.bcap {
		panic(BufferOverwriteError)
	}
	if off < 0x00 {
		panic(BufferUnderwriteError)
	}
	if n < 1 {
		b.setbit(off, byte((data>>uint64(n-1))&1))
		return
	}
	for n > 0 {
		in, take := off%8, 8-off%8
		if take > n {
			take = n
		}
		mask := byte(0xff) << uint(8-take) >> uint(in)
		bits := byte(data>>uint(n-take)) << uint(8-take) >> uint(in)
		b.buf[off/8] = b.buf[off/8]&^mask | bits
		off, n = off+take, n-take
	}
}''')
        return s
    edit(r,'v2/buffer.go',g); edit(r,'v1/buffer.go',g)
@rf
def r08_v3_loops(r):
    for f,T in (('buffer.generated.go','Buffer'),('_buffer.go','Buffer'),('minibuf.generated.go','MiniBuffer'),('_minibuf.go','MiniBuffer')):
        def g(s):
            for n,e in (('Clear','b.buf[i] = 0'),('Set','b.buf[i] = 255'),('Flip','b.buf[i] ^= 0xff')):
                s=func(s,f'(b *{T}) {n}AllBits(',f'''
func (b *{T}) {n}AllBits() {{
	_ = b.buf[0]
	for i := range b.buf {{
		{e}
	}}
}}''')
            if T=='Buffer':
                s=func(s,'(b *Buffer) ReadBits(','''
func (b *Buffer) ReadBits(off, n int64) (out uint64) {
	for i := int64(0); ; i++ {
		out = out*2 + uint64(b.ReadBit(off+i))
		if i+1 >= n {
			break
		}
	}
	return out
}''')
                s=func(s,'(b *Buffer) Grow(','''
func (b *Buffer) Grow(n int64) {
	if n < 0 {
		panic(BufferInvalidByteCountError)
	}
	old, want := b.cap, b.cap+n
	if want <= int64(cap(b.buf)) {
		tmp := b.buf[:want]
		for rest := tmp[old:]; len(rest) > 0; rest = rest[1:] {
			rest[0] = 0
		}
		b.buf = tmp
	} else {
		tmp := make([]byte, want, (int64(cap(b.buf))+n)*2)
		copy(tmp, b.buf)
		b.buf = tmp
	}
	b.Refresh()
}''')
                s=func(s,'(b *Buffer) WriteBytesNext(','''
func (b *Buffer) WriteBytesNext(data []byte) {
	at := b.off
	b.WriteBytes(at, data)
	b.SeekByte(at+int64(len(data)), false)
}''')
            return s
        edit(r,'v3/'+f,g)
@rf
def r09_v3_unsafe(r):
    def g(s):
        s=re.sub(r'\(b \*Buffer\) ReadU32LE\(off, n int64\) \(out \[\]uint32\) \{.*?\n\}\n','''(b *Buffer) ReadU32LE(off, n int64) (out []uint32) {
	if (off + n*4) > b.cap {
		panic(BufferOverreadError)
	}
	if off < 0 {
		panic(BufferUnderreadError)
	}
	out = make([]uint32, n)
	_ = out[0]
	for i := range out {
		p := (*[4]byte)(unsafe.Pointer(&b.buf[off+int64(i)*4]))
		out[i] = uint32(p[0]) | uint32(p[1])<<8 | uint32(p[2])<<16 | uint32(p[3])<<24
	}
	return
}
''',s,1,re.S)
        s=re.sub(r'\(b \*Buffer\) ReadI16BE\(off, n int64\) \(out \[\]int16\) \{.*?\n\}\n','''(b *Buffer) ReadI16BE(off, n int64) (out []int16) {
	if (off + n*2) > b.cap {
		panic(BufferOverreadError)
	}
	if off < 0 {
		panic(BufferUnderreadError)
	}
	out = make([]int16, n)
	copyI16BE(out, b.buf[off:off+n*2])
	return
}

// copyI16BE decodes big-endian int16s
func copyI16BE(to []int16, from []byte) {
	_ = to[0]
	for i := 0; i < len(to); i++ {
		to[i] = int16(from[2*i])<<8 | int16(from[2*i+1])
	}
}
''',s,1,re.S)
        return s
    edit(r,'v3/buffer.generated.go',g)
@rf
def r10_v1_complex(r):
    def g(s):
        s=func(s,'(b *Buffer) writeComplex(','''
func (b *Buffer) writeComplex(off int64, idata interface{}, size IntegerSize, endian binary.ByteOrder) {
	b.write(off, encode(idata, size, endian))
}

// encode returns the bytes of integers
func encode(idata interface{}, size IntegerSize, endian binary.ByteOrder) (data []byte) {
	switch size {
	case Unsigned8:
		return idata.([]byte)
	case Unsigned16:
		in := idata.([]uint16)
		data = make([]byte, 2*len(in))
		for i, x := range in {
			endian.PutUint16(data[2*i:], x)
		}
	case Unsigned32:
		in := idata.([]uint32)
		data = make([]byte, 4*len(in))
		for i, x := range in {
			endian.PutUint32(data[4*i:4*i+4], x)
		}
	case Unsigned64:
		in := idata.([]uint64)
		data = make([]byte, 8*len(in))
		for rest := data; len(in) > 0; in, rest = in[1:], rest[8:] {
			endian.PutUint64(rest, in[0])
		}
	default:
		panic(BufferInvalidIntegerSizeError)
	}
	return
}''')
        s=func(s,'(b *Buffer) WriteComplexNext(','''
func (b *Buffer) WriteComplexNext(data interface{}, size IntegerSize, endian binary.ByteOrder) {
	b.Lock()
	defer b.Unlock()
	encoded := encode(data, size, endian)
	b.write(b.off, encoded)
	b.off += int64(len(encoded))
}''')
        return s
    edit(r,'v1/buffer.go',g)
@rf
def r11_manual_unlock(r):
    # lock, run, unlock by hand with a recover in between
    def g(s):
        s=func(s,'(b *Buffer) ReadBytesNext(','''
func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
	b.Lock()
	ok := false
	defer func() {
		if !ok {
			b.Unlock()
		}
	}()
	out = b.read(b.off, n)
	b.seek(n, true)
	ok = true
	b.Unlock()
	return out
}''')
        s=func(s,'(b *Buffer) WriteByteNext(','''
func (b *Buffer) WriteByteNext(data byte) {
	b.Lock()
	defer b.Unlock()
	one := [1]byte{data}
	b.write(b.off, one[:])
	b.off++
}''')
        s=func(s,'(b *Buffer) Seek(','''
func (b *Buffer) Seek(off int64, relative bool) {
	b.Lock()
	if relative {
		off += b.off
	}
	b.off = off
	b.Unlock()
}''')
        s=func(s,'(b *Buffer) ReadByte(','''
func (b *Buffer) ReadByte(off int64) (out byte) {
	b.Lock()
	defer func() { b.Unlock() }()
	for _, out = range b.read(off, 1) {
	}
	return
}''')
        return s
    edit(r,'v2/buffer.go',g); edit(r,'v1/buffer.go',g)
@rf
def r12_newbuffer(r):
    for v,f,T in (('v1','buffer.go','Buffer'),('v2','buffer.go','Buffer')):
        def g(s):
            return func(s,'NewBuffer(','''
func NewBuffer(slices ...[]byte) (buf *Buffer) {
	buf = &Buffer{buf: []byte{}}
	defer buf.refresh()
	if len(slices) == 1 {
		buf.buf = slices[0]
		return
	}
	total := 0
	for _, s := range slices {
		total += len(s)
	}
	joined := make([]byte, 0, total)
	for _, s := range slices {
		joined = append(joined, s...)
	}
	buf.buf = joined
	return
}''')
        edit(r,f'{v}/{f}',g)
@rf
def r13_mini(r):
    def g(s):
        s=func(s,'(b *MiniBuffer) readbits(','''
func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
	var acc uint64
	for end := off + n; off < end; off++ {
		var bit byte
		b.readbit(&bit, off)
		acc = acc<<1 + uint64(bit)
	}
	*out = acc
}''') if 'v1' in s[:600] else s
        s=func(s,'(b *MiniBuffer) write(','''
func (b *MiniBuffer) write(off int64, data []byte) {
	_ = data[0]
	for i, c := range data {
		b.buf[int(off)+i] = c
	}
}''')
        return s
    edit(r,'v1/minibuf.go',g); edit(r,'v2/minibuf.go',g)
@rf
def g01_helpers(r):
    def g(s):
        s=sub(s,'''		file, err := os.OpenFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_RDWR|os.O_CREATE, 0644)
		if err != nil {
			fmt.Printf("! unable to open source file. (%v)\\n", err)
			failed = true
			continue
		}

		_, err = file.Write(contents)
		if err == nil {
			// whatever was there before may have been longer
			err = file.Truncate(int64(len(contents)))
		}
		if err != nil {
			fmt.Printf("! unable to update contents of generated file. (%v)\\n", err)
			failed = true
			continue
		}

		err = file.Close()
		if err != nil {
			fmt.Printf("! unable to finish writing generated file. (%v)\\n", err)
			failed = true
		}
''','''		if err := store(outputOf(name), contents); err != nil {
			fmt.Printf("! unable to write generated file. (%v)\\n", err)
			failed = true
		}
''')
        s+='''
// outputOf names the output of a template
func outputOf(name string) string {
	return name[1:len(name)-len(filepath.Ext(name))] + ".generated.go"
}

// store gives a file new contents
func store(name string, contents []byte) (err error) {
	file, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		return
	}
	defer func() {
		if cerr := file.Close(); err == nil {
			err = cerr
		}
	}()
	if _, err = file.WriteAt(contents, 0); err != nil {
		return
	}
	return file.Truncate(int64(len(contents)))
}
'''
        return s
    edit(r,'generation/main.go',g)
@rf
def g02_readdir(r):
    def g(s):
        s=sub(s,'directoryFiles, err := directory.Readdir(0)','directoryFiles, err := ioutil.ReadDir(".")')
        i=s.index("			file, err := os.Open(fileInfo.Name())"); j=s.index("	var generated map")
        s=s[:i]+'''			contents, err := ioutil.ReadFile(fileInfo.Name())
			if err != nil {
				fmt.Printf("! unable to read source file. (%v)\\n", err)
				failed = true
				continue
			}
			files[fileInfo.Name()] = contents
		}
	}

'''+s[j:]
        i=s.index("		file, err := os.OpenFile("); j=s.index("	if failed {")
        s=s[:i]+'''		output := strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go") + ".generated.go"
		if err := ioutil.WriteFile(output, contents, 0644); err != nil {
			fmt.Printf("! unable to write generated file. (%v)\\n", err)
			failed = true
		}
	}

'''+s[j:]
        return s
    edit(r,'generation/main.go',g)
@rf
def g03_sorted_goroutines(r):
    def g(s):
        i=s.index("	for name, contents := range generated {"); j=s.index("	if failed {")
        s=s[:i]+'''	var names []string
	for name := range generated {
		names = append(names, name)
	}
	sort.Strings(names)
	var (
		wg   sync.WaitGroup
		lock sync.Mutex
	)
	for _, name := range names {
		wg.Add(1)
		go func(name string) {
			defer wg.Done()
			err := write(filepath.Join(*directoryName, strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go")+".generated.go"), generated[name])
			if err != nil {
				lock.Lock()
				defer lock.Unlock()
				fmt.Printf("! unable to write generated file. (%v)\\n", err)
				failed = true
			}
		}(name)
	}
	wg.Wait()

'''+s[j:]+'''
func write(name string, contents []byte) error {
	file, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		return err
	}
	w := bufio.NewWriter(file)
	_, err = w.Write(contents)
	if err == nil {
		err = w.Flush()
	}
	if cerr := file.Close(); err == nil {
		err = cerr
	}
	return err
}
'''
        s=sub(s,'	"path/filepath"\n','	"path/filepath"\n	"sort"\n').replace('	"strings"\n','	"strings"\n	"sync"\n').replace('import (\n','import (\n	"bufio"\n')
        return s
    edit(r,'generation/main.go',g)
@rf
def g04_run_func(r):
    def g(s):
        s=sub(s,'func main() {\n	flag.Parse()\n','func main() {\n	flag.Parse()\n	os.Exit(run())\n}\n\nfunc run() int {\n')
        s=sub(s,'		os.Exit(1)\n','		return 1\n')
        i=s.rindex('	if failed {'); s=s[:i]+'''	if failed {
		return 1
	}
	return 0
}
'''
        s=sub(s,'fmt.Printf("!','fmt.Fprintf(os.Stderr, "!').replace('fmt.Println("!','fmt.Fprintln(os.Stderr, "!')
        s=sub(s,'''	directoryName = flag.String("directory", ".", "the directory to run code generation on the files in")
''','''	directoryName = new(string)
	flag.StringVar(directoryName, "directory", ".", "the directory to run code generation on the files in")
''')
        return s
    edit(r,'generation/main.go',g)
@rf
def g05_glob(r):
    def g(s):
        i=s.index("	directoryFiles, err := directory.Readdir(0)"); j=s.index("	var generated map")
        return s[:i]+'''	entries, err := directory.Readdirnames(-1)
	if err != nil {
		fmt.Printf("! unable to read directory information. (%v)\\n", err)
		failed = true
	}

	files := make(map[string][]byte)
	for _, name := range entries {
		if !isTemplate(name) {
			continue
		}
		contents, skip, err := load(name)
		switch {
		case err != nil:
			fmt.Printf("! unable to read %s. (%v)\\n", name, err)
			failed = true
		case !skip:
			files[name] = contents
		}
	}

'''+s[j:]+'''
func isTemplate(name string) bool {
	return strings.HasPrefix(name, "_") && strings.HasSuffix(name, ".go")
}

func load(name string) (contents []byte, dir bool, err error) {
	file, err := os.Open(name)
	if err != nil {
		return nil, false, err
	}
	defer file.Close()
	info, err := file.Stat()
	if err != nil {
		return nil, false, err
	}
	if info.IsDir() {
		return nil, true, nil
	}
	contents, err = ioutil.ReadAll(file)
	return
}
'''
    edit(r,'generation/main.go',g)
only=sys.argv[1:] 
