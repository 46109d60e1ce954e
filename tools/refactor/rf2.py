@rf
def g06_channels(r):
    def g(s):
        s=readpart(s,'''	type loaded struct {
		name string
		data []byte
		err  error
	}
	jobs := make(chan string)
	results := make(chan loaded, 2)
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for name := range jobs {
				data, err := ioutil.ReadFile(name)
				results <- loaded{name, data, err}
			}
		}()
	}
	go func() {
		for _, fileInfo := range directoryFiles {
			if filepath.Ext(fileInfo.Name()) == ".go" && !fileInfo.IsDir() && strings.HasPrefix(fileInfo.Name(), "_") {
				jobs <- fileInfo.Name()
			}
		}
		close(jobs)
		wg.Wait()
		close(results)
	}()
	files := map[string][]byte{}
	for l := range results {
		if l.err != nil {
			fmt.Printf("! unable to read source file. (%v)\\n", l.err)
			failed = true
			continue
		}
		files[l.name] = l.data
	}

''')
        return imp(s,'sync')
    edit(r,MAIN,g)
@rf
def g07_parallel_write(r):
    def g(s):
        s=writepart(s,'''	errs := make(chan error, len(generated))
	for name, contents := range generated {
		go func(name string, contents []byte) {
			errs <- writeOutput(name, contents)
		}(name, contents)
	}
	for range generated {
		select {
		case err := <-errs:
			if err != nil {
				fmt.Printf("! %v\\n", err)
				failed = true
			}
		}
	}

''')
        return imp(s,)+'''
func writeOutput(name string, contents []byte) (err error) {
	target := strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go") + ".generated.go"
	file, err := os.OpenFile(target, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return fmt.Errorf("unable to open %s: %w", target, err)
	}
	defer func() {
		if cerr := file.Close(); err == nil && cerr != nil {
			err = fmt.Errorf("unable to finish %s: %w", target, cerr)
		}
	}()
	if _, err = file.Write(contents); err != nil {
		return err
	}
	return file.Truncate(int64(len(contents)))
}
'''
    edit(r,MAIN,g)
@rf
def g08_bufio(r):
    def g(s):
        s=writepart(s,'''	for name, contents := range generated {
		file, err := os.OpenFile("./"+strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
		if err != nil {
			fmt.Printf("! unable to open source file. (%v)\\n", err)
			failed = true
			continue
		}
		w := bufio.NewWriterSize(file, 512)
		_, err = io.Copy(w, bytes.NewReader(contents))
		if err == nil {
			err = w.Flush()
		}
		if cerr := file.Close(); err == nil {
			err = cerr
		}
		if err != nil {
			fmt.Printf("! unable to update contents of generated file. (%v)\\n", err)
			failed = true
		}
	}

''')
        return imp(s,'bufio','bytes','io')
    edit(r,MAIN,g)
@rf
def g09_index_replace(r):
    def g(s):
        s=sub(s,'''	magicCommentRegex := regexp.MustCompile("(?m)''','''	// see above
	_ = magicCommentRegex
''' if 0 else '''	magicCommentRegex := regexp.MustCompile("(?m)''')
        s=sub(s,'''	files = oldFiles

	for name := range files {''','''	files = make(map[string][]byte, len(oldFiles))
	names := make([]string, 0, len(oldFiles))
	for name, data := range oldFiles {
		names = append(names, name)
		files[name] = append([]byte(nil), data...)
	}
	sort.Sort(sort.Reverse(sort.StringSlice(names)))

	for _, name := range names {''',1)
        return imp(s,'sort')
    edit(r,CX,g)
@rf
def g10_log_run(r):
    def g(s):
        s=sub(s,'fmt.Printf("! ','log.Printf("! ')
        s=sub(s,'fmt.Println("! ','log.Println("! ')
        s=s.replace('os.Exit(1)','return 1')
        s=sub(s,'func main() {\n','func main() {\n	log.SetFlags(0)\n	os.Exit(run())\n}\n\nfunc run() int {\n',1)
        i=s.rindex('}\n'); s=s[:i]+'	return 0\n}\n'
        s=noimp(s,'fmt')
        return imp(s,'log')
    edit(r,MAIN,g)
@rf
def g11_names_lstat(r):
    def g(s):
        s=sub(s,'''	directoryFiles, err := directory.Readdir(0)
''','''	var directoryFiles []os.FileInfo
	entries, err := os.ReadDir(".")
	for _, e := range entries {
		if info, ierr := e.Info(); ierr == nil {
			directoryFiles = append(directoryFiles, info)
		} else {
			fmt.Printf("! unable to examine %s. (%v)\\n", e.Name(), ierr)
			failed = true
		}
	}
''',1)
        s=sub(s,'directory.Chdir()','os.Chdir(*directoryName)',1)
        return s
    edit(r,MAIN,g)
@rf
def g12_no_chdir(r):
    def g(s):
        a=s.index('	// it is a directory, but entering'); b=s.index('	directoryFiles, err :=')
        s=s[:a]+s[b:]
        s=sub(s,'os.Open(fileInfo.Name())','os.Open(filepath.Join(*directoryName, fileInfo.Name()))',1)
        s=sub(s,'os.OpenFile(strings.Join(','os.OpenFile(*directoryName+string(filepath.Separator)+strings.Join(',1)
        return s
    edit(r,MAIN,g)
@rf
def g13_subpackage(r):
    os.makedirs(f'{r}/generation/internal/complex')
    s=open(f'{r}/{CX}').read().replace('package main','package complex').replace('GenerateComplex(','Generate(')
    s=s.replace('	magicCommentRegex := regexp.MustCompile(','	calls++\n	magicCommentRegex := regexp.MustCompile(').replace('import (\n','var calls int\n\nimport (\n') 
    s=s.replace('var calls int\n\nimport (','import (',1)
    s+='\nvar calls int\n'
    open(f'{r}/generation/internal/complex/complex.go','w').write(s)
    os.remove(f'{r}/{CX}')
    def g(s):
        s=sub(s,'GenerateComplex(files)','complex.Generate(files)',1)
        m=open(f'{r}/generation/go.mod').read().split('\n')[0].split()[1]
        return s.replace('import (\n','import (\n\t"%s/internal/complex"\n'%m,1)
    edit(r,MAIN,g)
@rf
def g14_bytes_buffer(r):
    def g(s):
        s=sub(s,'''ioutil.ReadAll(file)''','''readAll(file)''',1)
        s=noimp(s,'io/ioutil')
        s=imp(s,'io','bytes','errors')
        return s+'''
func readAll(r io.Reader) ([]byte, error) {
	var all bytes.Buffer
	chunk := make([]byte, 777)
	for {
		n, err := r.Read(chunk)
		all.Write(chunk[:n])
		switch {
		case errors.Is(err, io.EOF):
			return all.Bytes(), nil
		case err != nil:
			return nil, err
		}
	}
}
'''
    edit(r,MAIN,g)
@rf
def g15_walk(r):
    def g(s):
        s=sub(s,'''	directoryFiles, err := directory.Readdir(0)
''','''	var directoryFiles []os.FileInfo
	err = filepath.Walk(".", func(path string, info os.FileInfo, err error) error {
		switch {
		case err != nil && path == ".":
			return err
		case err != nil:
			fmt.Printf("! unable to examine %s. (%v)\\n", path, err)
			failed = true
			return nil
		case path == ".":
			return nil
		}
		directoryFiles = append(directoryFiles, info)
		if info.IsDir() {
			return filepath.SkipDir
		}
		return nil
	})
''',1)
        return s
    edit(r,MAIN,g)
@rf
def r14_unlocker(r):
    def g(s):
        s=re.sub(r'\tb\.Lock\(\)\n\tdefer b\.Unlock\(\)\n','\tdefer b.lock()()\n',s)
        return s+'''
func (b *Buffer) lock() (unlock func()) {
	b.Lock()
	return b.Unlock
}
'''
    for v in 'v1','v2': edit(r,f'{v}/buffer.go',g)
@rf
def r15_subpackage(r):
    for v in 'v2',:
        os.makedirs(f'{r}/{v}/internal/bytesx')
        open(f'{r}/{v}/internal/bytesx/b.go','w').write('''package bytesx

var moved int64

// Move copies src over dst
func Move(dst, src []byte) {
	for i := range src {
		dst[i] = src[i]
	}
}
''')
        m=open(f'{r}/{v}/go.mod').read().split('\n')[0].split()[1]
        def g(s):
            x=s.index('func (b *Buffer) write('); y=s.index('	var (\n		i = int64(0)',x); z=s.index('\n}\n',y)
            s=s[:y]+'	bytesx.Move(b.buf[off:off+int64(len(data)):b.cap], data)\n'+s[z:]
            return s.replace('import (\n','import (\n\t"%s/internal/bytesx"\n'%m,1) if 'import (\n' in s else s.replace('import "sync"','import (\n"sync"\n"%s/internal/bytesx"\n)'%m,1)
        edit(r,f'{v}/buffer.go',g)
@rf
def r16_pool(r):
    def g(s):
        return s
    # scratch from a pool in v2's readbits
    def h(s):
        s=re.sub(r'(func \(b \*Buffer\) readbits\(off, n int64\) \(out uint64\) \{\n)',r'\1\tp := pool.Get().(*[]uint64)\n\tdefer pool.Put(p)\n',s)
        assert 'pool.Get' in s
        return s+'\nvar pool = sync.Pool{New: func() interface{} { return new([]uint64) }}\n'
    edit(r,'v2/buffer.go',h)
