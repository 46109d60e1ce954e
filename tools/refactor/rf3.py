LOOP=re.compile(r'\t\{\n\t?(\w+_loop):\n(.*?)\n(\n?)\t\ti\+\+\n\t\tif i < n \{\n\n?\t\t\tgoto \1\n\n?\t\t\}\n\n?\t\}\n',re.S)
LIBS=['v1/buffer.go','v1/minibuf.go','v2/buffer.go','v2/minibuf.go','v3/_buffer.go','v3/_minibuf.go','v3/buffer.generated.go','v3/minibuf.generated.go']
@rf
def r17_for_loops(r):
    for f in LIBS:
        def g(s):
            t,n=LOOP.subn(r'\tfor {\n\2\n\t\ti++\n\t\tif i >= n {\n\t\t\tbreak\n\t\t}\n\t}\n',s); assert n,(f,n)
            return t
        edit(r,f,g)
@rf
def r18_guards(r):
    for v in 'v1','v2':
        def g(s):
            for k in ('read','write'):
                s=re.sub(r'\tif \((.*)\) > b\.cap \{\n\n\t\tpanic\(BufferOver'+k+r'Error\)\n\n\t\}\n\n\tif off < 0x00 \{\n\n\t\tpanic\(BufferUnder'+k+r'Error\)\n\n\t\}\n',r'\tb.'+k+r'able(off, \1)\n',s)
            assert 'b.readable(' in s and 'b.writeable(' in s
            return s+'''
// readable panics unless a read from off to end is within the buffer
func (b *Buffer) readable(off, end int64) {
	if off < 0 || end > b.cap {
		fail(end > b.cap, BufferOverreadError, BufferUnderreadError)
	}
}

// writeable panics unless a write from off to end is within the buffer
func (b *Buffer) writeable(off, end int64) {
	if off >= 0 && end <= b.cap {
		return
	}
	fail(end > b.cap, BufferOverwriteError, BufferUnderwriteError)
}

func fail(over bool, overErr, underErr error) {
	err := underErr
	if over {
		err = overErr
	}
	panic(err)
}
'''
        edit(r,f'{v}/buffer.go',g)
@rf
def r19_closures(r):
    # captured locals
    def g(s):
        s,n=LOOP.subn(lambda m:'\teach(&i, n, func() {\n'+m.group(2)+'\n\t})\n' if 'return' not in m.group(2) else m.group(0),s)
        assert n
        return s
    h='''
// each runs f for every value of *i up to n, at least once
func each(i *int64, n int64, f func()) {
	for {
		f()
		*i++
		if *i >= n {
			return
		}
	}
}

func eachInt(i *int, n int, f func()) {
	for {
		f()
		*i++
		if *i >= n {
			return
		}
	}
}
'''
    def fix(s):
        # loops over an int counter
        out=[];kind='each'
        for l in s.split('\n'):
            if re.search(r'\bi\s*(:?=)\s*int64\(0',l): kind='each'
            elif re.search(r'\bi\s*:?=\s*0\b',l): kind='eachInt'
            out.append(l.replace('each(&i',kind+'(&i'))
        return '\n'.join(out)
    for f in 'v1/buffer.go','v2/buffer.go': edit(r,f,lambda s:fix(g(s))+h)
    for f in 'v1/minibuf.go','v2/minibuf.go': edit(r,f,lambda s:fix(g(s)))
    edit(r,'v3/buffer.generated.go',lambda s:fix(g(s))+h)
    edit(r,'v3/_buffer.go',lambda s:fix(g(s))+h)
@rf
def r20_next_inline(r):
    for f in 'v1/buffer.go','v2/buffer.go','v1/minibuf.go','v2/minibuf.go':
        def g(s):
            s=re.sub(r'\tb\.seek\((.*), true\)\n',r'\tb.off += \1\n',s)
            s=re.sub(r'\tb\.seekbit\((.*), true\)\n',r'\tb.boff += \1\n',s)
            assert 'b.off += ' in s
            return s
        edit(r,f,g)
@rf
def r21_mini_local(r):
    for v in 'v1','v2':
        def g(s):
            return func(s,'(b *MiniBuffer) readbits(','''
func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
	var v uint64
	for i := int64(0); i < n; i++ {
		v = v<<1 | uint64(b.buf[(off+i)/8]>>uint(7-(off+i)%8)&1)
	}
	*out = v
}''') if v=='v2' else s.replace('(b *MiniBuffer) readbit(','(b *MiniBuffer) readbit(',1)+'\n'
        edit(r,f'{v}/minibuf.go',g)
@rf
def r22_v3_mutate(r):
    for f in '_buffer.go','buffer.generated.go':
        def g(s):
            for n,e in (('SetBit','*o |= mask'),('ClearBit','*o &^= mask'),('FlipBit','*o ^= mask')):
                s=func(s,f'(b *Buffer) {n}(',f'''
func (b *Buffer) {n}(off int64) {{
	b.bit(off, func(o *byte, mask byte) {{ {e} }})
}}''')
            return s+'''
// bit changes the bit at off with f
func (b *Buffer) bit(off int64, f func(octet *byte, mask byte)) {
	switch {
	case off >= b.bcap:
		panic(BufferOverwriteError)
	case off < 0:
		panic(BufferUnderwriteError)
	}
	f(&b.buf[off>>3], 0x80>>uint(off&7))
}
'''
        edit(r,'v3/'+f,g)
@rf
def r23_mask_map(r):
    # read-only package-level map, and lookup by struct of functions
    for v in 'v1','v2':
        def g(s):
            s=sub(s,'// NewBuffer init','''// masks holds the mask of every bit of a byte
var masks = map[int64]byte{0: 128, 1: 64, 2: 32, 3: 16, 4: 8, 5: 4, 6: 2, 7: 1}

// NewBuffer init''')
            s=sub(s,'b.buf[off/8] ^= (1 << uint(7-(off%8)))','b.buf[off/8] ^= masks[off%8]')
            s=sub(s,'b.buf[off/8] |= (1 << uint(7-(off%8)))','b.buf[off/8] |= masks[off&7]')
            return s
        edit(r,f'{v}/buffer.go',g)
@rf
def r24_grow_into(r):
    def g(s):
        return func(s,'(b *Buffer) grow(','''
func (b *Buffer) grow(n int64) {
	if n < 0 {
		panic("negative count")
	}
	want := int64(len(b.buf)) + n
	bigger := make([]byte, want, want+want/4)
	for i := copy(bigger, b.buf); int64(i) < want; i++ {
		bigger[i] = 0
	}
	b.buf = bigger
	b.cap, b.bcap = want, want<<3
}''')
    for v in 'v1','v2': edit(r,f'{v}/buffer.go',g)
@rf
def r25_after_defaults(r):
    for f in 'v1/buffer.go','v2/buffer.go':
        def g(s):
            m=re.search(r'(?m)^func (\(b \*Buffer\) after\([^{]*)\{.*?^}\n',s,re.S); assert m
            s=s[:m.start()]+'func '+m.group(1)+'''{
	from := append(off, b.off)[0]
	return remaining(b.cap, from)
}

func remaining(size, from int64) int64 { return size - 1 - from }
'''+s[m.end():]
            return s
        edit(r,f,g)
@rf
def r26_lock_order(r):
    # evaluate the length before taking the lock
    for v in 'v1','v2':
        def g(s):
            t,n=re.subn(r'\tb\.Lock\(\)\n\tdefer b\.Unlock\(\)\n\n\tb\.(write\w*)\(b\.off, data\)\n\tb\.seek\((.*), true\)\n',r'\tmoved := \2\n\tb.Lock()\n\tdefer b.Unlock()\n\tat := b.off\n\tb.\1(at, data)\n\tb.off = at + moved\n',s)
            assert n; return t
        edit(r,f'{v}/buffer.go',g)
@rf
def r27_named_generic(r):
    # one closure for every checked method
    def g(s):
        t,n=re.subn(r'\tb\.Lock\(\)\n\tdefer b\.Unlock\(\)\n\n((?:\t.*\n)+)\n?\}',lambda m:m.group(0) if 'return' in m.group(1) else '\tb.with(func() {\n'+m.group(1)+'\t})\n}',s)
        assert n
        return t+'''
func (b *Buffer) with(f func()) {
	b.Lock()
	defer b.Unlock()
	f()
}
'''
    for v in 'v1','v2': edit(r,f'{v}/buffer.go',g)
@rf
def g16_validate(r):
    def g(s):
        a=s.index('			if arguments[0] != "Buffer"'); b=s.index('			/* convenience definitions */')
        s=s[:a]+'''			if refusal := validate(arguments); refusal != nil {
				return refusal
			}

'''+s[b:]
        return s+'''
var positions = [...]struct {
	name    string
	allowed []string
}{
	{"zero", []string{"Buffer", "MiniBuffer"}},
	{"one", []string{"Read", "Write"}},
	{"two", []string{"I", "U", "F"}},
	{"three", []string{"16", "32", "64"}},
	{"four", []string{"BE", "LE"}},
}

// validate returns what to put in place of an invocation with bad arguments
func validate(arguments []string) []byte {
next:
	for i, p := range positions {
		for _, a := range p.allowed {
			if arguments[i] == a {
				continue next
			}
		}
		fmt.Printf("! invalid argument for position %d: %s\\n", i, arguments[i])
		return []byte("// invalid argument provided in position " + p.name + ":" + arguments[i])
	}
	return nil
}
'''
    edit(r,CX,g)
@rf
def g17_no_regex_func(r):
    def g(s):
        s=sub(s,'files[name] = magicCommentRegex.ReplaceAllFunc(files[name], func(comment []byte) []byte {','files[name] = replaceAll(magicCommentRegex, files[name], func(comment []byte) []byte {',1)
        return s+'''
func replaceAll(re *regexp.Regexp, src []byte, f func([]byte) []byte) []byte {
	var out bytes.Buffer
	last := 0
	for _, at := range re.FindAllIndex(src, -1) {
		out.Write(src[last:at[0]])
		out.Write(f(src[at[0]:at[1]]))
		last = at[1]
	}
	out.Write(src[last:])
	return out.Bytes()
}
'''
    edit(r,CX,g)
@rf
def g18_osfiles(r):
    def g(s):
        s=readpart(s,'''	files := map[string][]byte{}
	for i := 0; i < len(directoryFiles); i++ {
		name := directoryFiles[i].Name()
		if directoryFiles[i].IsDir() || !strings.HasPrefix(name, "_") || filepath.Ext(name) != ".go" {
			continue
		}
		contents, err := os.ReadFile(name)
		if err != nil {
			fmt.Printf("! unable to read source file. (%v)\\n", err)
			failed = true
		} else {
			files[name] = contents
		}
	}

''')
        s=writepart(s,'''	for name, contents := range generated {
		if err := os.WriteFile(outputName(name), contents, 0644); err != nil {
			fmt.Printf("! unable to update contents of generated file. (%v)\\n", err)
			failed = true
		}
	}

''')
        s=noimp(s,'io/ioutil')
        return s+'''
func outputName(name string) string {
	return strings.TrimSuffix(name[1:], ".go") + ".generated.go"
}
'''
    edit(r,MAIN,g)
@rf
def g19_flagvars(r):
    def g(s):
        a=s.index('var (\n	directoryName'); b=s.index('//gocyclo:ignore\nfunc main')
        s=s[:a]+'''type options struct {
	directory, generation string
}

func parse() (o options) {
	flags := flag.NewFlagSet(os.Args[0], flag.ExitOnError)
	flags.StringVar(&o.directory, "directory", ".", "the directory to run code generation on the files in")
	flags.StringVar(&o.generation, "generation", "", "what kind of generation to run on the files")
	_ = flags.Parse(os.Args[1:])
	return
}

'''+s[b:]
        s=sub(s,'	flag.Parse()\n','	opts := parse()\n',1).replace('*directoryName','opts.directory').replace('*generationKind','opts.generation')
        return s
    edit(r,MAIN,g)
@rf
def g20_comment_helper(r):
    def g(s):
        s=re.sub(r'map\[string\]string\{\s*"Read":  "reads",\s*"Write": "writes",\s*\}\[arguments\[1\]\]','verb(arguments[1])',s)
        s=re.sub(r'map\[string\]string\{\s*"BE": "big-endian",\s*"LE": "little-endian",\s*\}\[arguments\[4\]\]','endianness[arguments[4]]',s)
        s=re.sub(r'jen\.Id\("b"\)\.Dot\("buf"\)\.Index\(jen\.Id\("off"\)\.Op\("\+"\)\.Parens\(jen\.Id\("i"\)\.Op\("\*"\)\.Lit\(intBytes\)\)\)','octet(0, intBytes)',s)
        s=re.sub(r'jen\.Id\("b"\)\.Dot\("buf"\)\.Index\(jen\.Id\("off"\)\.Op\("\+"\)\.Parens\(jen\.Lit\(i\)\.Op\("\+"\)\.Parens\(jen\.Id\("i"\)\.Op\("\*"\)\.Lit\(intBytes\)\)\)\)','octet(i, intBytes)',s)
        assert 'octet(i,' in s and 'endianness[' in s and 'verb(' in s
        return s+'''
var endianness = map[string]string{
	"BE": "big-endian",
	"LE": "little-endian",
}

func verb(rw string) string {
	if rw == "Read" {
		return "reads"
	}
	return "writes"
}

// octet is byte i of the integer that is being read
func octet(i, intBytes int) *jen.Statement {
	at := jen.Parens(jen.Id("i").Op("*").Lit(intBytes))
	if i > 0 {
		at = jen.Parens(jen.Lit(i).Op("+").Add(at))
	}
	return jen.Id("b").Dot("buf").Index(jen.Id("off").Op("+").Add(at))
}
'''
    edit(r,CX,g)
@rf
def g21_for_emitted(r):
    # the generator writes for loops, and the checked-in files follow
    def g(s):
        s=sub(s,'body.BlockFunc(func(loop *jen.Group) {\n						loop.Id("read_loop:")','body.For().BlockFunc(func(loop *jen.Group) {',1)
        s=sub(s,'body.BlockFunc(func(loop *jen.Group) {\n						loop.Id("write_loop:")','body.For().BlockFunc(func(loop *jen.Group) {',1)
        for w in 'read','write':
            s=sub(s,'loop.If(jen.Id("i").Op("<").Id("n")).\n							Block(jen.Goto().Id("%s_loop"))'%w,'loop.If(jen.Id("i").Op(">=").Id("n")).\n							Block(jen.Break())',1)
        return s
    edit(r,CX,g)
    os.system(f'cd {r}/generation && GOFLAGS=-mod=mod go build -o /tmp/rfgen . && cd {r}/v3 && /tmp/rfgen -generation complex >/dev/null && rm -f /tmp/rfgen && git -C {r} diff --stat | tail -1')
@rf
def g22_tables(r):
    def g(s):
        s=sub(s,'	for name := range files {\n','	for name, source := range oldFiles {\n',1)
        s=sub(s,'ReplaceAllFunc(files[name], func','ReplaceAllFunc(source, func',1)
        s=sub(s,'arguments := magicCommentRegex.FindAllStringSubmatch(string(comment), -1)[0][1:]','arguments := strings.Fields(string(comment))[1:]',1)
        s=sub(s,'outputBuffer := bytes.NewBuffer([]byte{})','outputBuffer := new(bytes.Buffer)',1)
        return s
    edit(r,CX,g)
@rf
def g23_defer_close(r):
    def g(s):
        s=writepart(s,'''	for name, contents := range generated {
		if !update(name, contents) {
			failed = true
		}
	}

''')
        return s+'''
func update(name string, contents []byte) (ok bool) {
	target := strings.Replace(strings.TrimPrefix(name, "_"), ".go", "", 1)
	if i := strings.LastIndex(name, ".go"); i > 0 {
		target = strings.TrimPrefix(name[:i], "_")
	}
	file, err := os.OpenFile(fmt.Sprintf("%s.generated.go", target), os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		fmt.Printf("! unable to open source file. (%v)\\n", err)
		return false
	}
	ok = true
	check := func(err error) {
		if err != nil && ok {
			fmt.Printf("! unable to update contents of generated file. (%v)\\n", err)
			ok = false
		}
	}
	defer func() { check(file.Close()) }()
	_, err = file.WriteAt(contents, 0)
	check(err)
	if ok {
		check(file.Truncate(int64(len(contents))))
	}
	return
}
'''
    edit(r,MAIN,g)
@rf
def g24_seek_and_stat(r):
    def g(s):
        s=sub(s,'ioutil.ReadAll(file)','slurp(file)',1); s=noimp(s,'io/ioutil'); s=imp(s,'io')
        return s+'''
// slurp reads a file of known size
func slurp(file *os.File) ([]byte, error) {
	info, err := file.Stat()
	if err != nil {
		return nil, err
	}
	data := make([]byte, 0, info.Size()+1)
	for {
		if len(data) == cap(data) {
			data = append(data, 0)[:len(data)]
		}
		n, err := file.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err == io.EOF {
			return data, nil
		}
		if err != nil {
			return data, err
		}
	}
}
'''
    edit(r,MAIN,g)
