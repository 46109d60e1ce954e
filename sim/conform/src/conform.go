// Package conform is a program whose result does not depend on scheduling; it
// must compute the same natively and under the simulator.
package conform

import (
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type rec struct {
	a, b int
	s    []byte
	m    map[string]int
	arr  [4]int
	f    func(int) int
}

var (
	global  = rec{m: map[string]int{"x": 1, "y": 2}, s: []byte("abc")}
	counter int64
	tbl     = [...]int{3, 1, 2}
	sem     = make(chan struct{}, 2)
)

func init() { sem <- struct{}{} }

// Run computes everything.
func Run() string {
	var out []string
	for i, f := range []func() string{
		chanPipeline, unbuffered, selects, workers, closedChans, ranges, labels, closures, assigns, panics, condvars, onces, loopvars, stringsAndMaps, mapEntries, capturedVars, embedded, deferred, gotos, semaphore, chanOfChan, errgroup, selectSendRecv, timers, machine,
	} {
		out = append(out, fmt.Sprintf("%d: %s", i, f()))
	}
	return strings.Join(out, "\n")
}

func chanPipeline() string {
	c, d := make(chan int), make(chan int, 3)
	go func() {
		defer close(c)
		for i := 0; i < 10; i++ {
			c <- i
		}
	}()
	go func() {
		for v := range c {
			d <- v * v
		}
		close(d)
	}()
	sum := 0
	for v := range d {
		sum += v
	}
	_, ok := <-d
	return fmt.Sprint(sum, ok, len(d), cap(d))
}

func unbuffered() string {
	ping, pong := make(chan string), make(chan string)
	go func() {
		for s := range ping {
			pong <- s + "!"
		}
		close(pong)
	}()
	r := ""
	for _, s := range []string{"a", "b", "c"} {
		ping <- s
		r += <-pong
	}
	close(ping)
	v, ok := <-pong
	return fmt.Sprintf("%s %q %v", r, v, ok)
}

func selects() string {
	a, quit := make(chan int), make(chan struct{})
	done := make(chan int)
	go func() {
		n := 0
	loop:
		for {
			select {
			case v, ok := <-a:
				if !ok {
					break loop
				}
				n += v
			case <-quit:
				break loop
			}
		}
		done <- n
	}()
	for i := 1; i <= 5; i++ {
		a <- i
	}
	close(quit)
	r := <-done
	var nilc chan int
	select {
	case <-nilc:
		r = -1
	default:
		r++
	}
	b := make(chan int, 1)
	select {
	case b <- 7:
	default:
		r = -2
	}
	select {
	case b <- 8:
		r = -3
	default:
	}
	var x struct{ v int }
	select {
	case x.v = <-b:
	}
	return fmt.Sprint(r, x.v)
}

func workers() string {
	jobs, res := make(chan int, 4), make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < 3; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for j := range jobs {
				atomic.AddInt64(&counter, 1)
				res <- j * 2
			}
		}(w)
	}
	go func() {
		for i := 0; i < 20; i++ {
			jobs <- i
		}
		close(jobs)
		wg.Wait()
		close(res)
	}()
	var l []int
	for v := range res {
		l = append(l, v)
	}
	sort.Ints(l)
	return fmt.Sprint(l, atomic.LoadInt64(&counter))
}

func try(f func()) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("panic: ", r)
		}
	}()
	f()
	return "fine"
}

func closedChans() string {
	c := make(chan int, 2)
	c <- 1
	close(c)
	a, ok1 := <-c
	b, ok2 := <-c
	var n chan int
	return fmt.Sprint(a, ok1, b, ok2, try(func() { c <- 1 }), try(func() { close(c) }), try(func() { close(n) }), len(n), cap(n))
}

func ranges() string {
	var b strings.Builder
	for i, v := range global.s {
		fmt.Fprint(&b, i, v, ";")
	}
	arr := [3]int{1, 2, 3}
	for i, v := range arr {
		arr[2] = 10
		fmt.Fprint(&b, i, v, ";")
	}
	for i := range arr {
		fmt.Fprint(&b, i)
	}
	for range arr {
		fmt.Fprint(&b, ".")
	}
	for i, r := range "héy" {
		fmt.Fprint(&b, i, string(r))
	}
	p := &arr
	for i, v := range p {
		p[2] = 20
		fmt.Fprint(&b, i, v)
	}
	s := []int{1, 2, 3}
	for i, v := range s {
		if i == 0 {
			s = append(s, 4)
			s[1] = 9
		}
		fmt.Fprint(&b, v, ",")
	}
	var i, v int
	for i, v = range s {
	}
	fmt.Fprint(&b, i, v)
	for global.a, global.arr[1] = range s {
	}
	fmt.Fprint(&b, global.a, global.arr)
	sum := 0
	for _, v := range global.m {
		sum += v
	}
	for k := range global.m {
		delete(global.m, k)
	}
	return fmt.Sprint(b.String(), sum, len(global.m))
}

func labels() string {
	n := 0
outer:
	for _, a := range []int{1, 2, 3} {
		for _, b := range []int{1, 2, 3} {
			if b == 2 {
				continue outer
			}
			if a == 3 {
				break outer
			}
			n += a * b
		}
	}
sw:
	switch {
	case n > 0:
		if n == 3 {
			break sw
		}
		n = -1
	}
	c := make(chan int, 1)
	c <- 1
sel:
	select {
	case v := <-c:
		if v == 1 {
			break sel
		}
		n = -2
	}
	m := map[int]int{1: 1}
mp:
	for k := range m {
		for {
			n += k
			continue mp
		}
	}
	return fmt.Sprint(n)
}

func closures() string {
	fs := []func() int{}
	for i := 0; i < 3; i++ {
		i := i
		fs = append(fs, func() int { i++; return i })
	}
	t := 0
	for _, f := range fs {
		t += f() + f()
	}
	r := rec{f: func(x int) int { return x + 1 }}
	p := &r
	m := p.get
	r.a = 5
	g := (*rec).set
	g(p, 6)
	return fmt.Sprint(t, r.f(1), p.f(2), m(), p.a, rec.val(r))
}

func (r *rec) get() int  { return r.a }
func (r *rec) set(n int) { r.a = n }
func (r rec) val() int   { return r.a * 2 }
func two() (int, error)  { return 4, errors.New("e") }
func idx(p *int) int     { *p++; return *p - 1 }
func ptr(r *rec) *rec    { r.b++; return r }
func vari(x ...int) int  { return len(x) }
func multi() (a, b int)  { a, b = 1, 2; a, b = b, a; return }

func assigns() string {
	r := &rec{s: []byte{1, 2, 3, 4}, m: map[string]int{}}
	r.s[0], r.s[1] = r.s[1], r.s[0]
	r.a, r.b = 3, r.a
	var err error
	r.a, err = twentyTwo()
	r.m["k"], err = twentyTwo()
	n := 0
	r.s[idx(&n)] += 5
	r.s[idx(&n)]++
	ptr(r).arr[2] -= 7
	ptr(r).arr[1] <<= 1 + 1
	r.m["k"] += 2
	r.m["z"]++
	v, ok := r.m["k"]
	_, ok2 := r.m["none"]
	var q interface{} = r
	t, ok3 := q.(*rec)
	_, ok4 := q.(fmt.Stringer)
	a, b := multi()
	x := []int{1, 2, 3}
	i := 0
	i, x[i] = 2, 9
	r.s = append(r.s[:1], r.s[2:]...)
	copy(r.s, "zz")
	y := append([]int(nil), x...)
	y[0] ^= 3
	y[1] &^= 2
	z := x[1:2:3]
	return fmt.Sprint(r.s, r.a, r.b, err, r.m, n, r.arr, v, ok, ok2, t == r, ok3, ok4, a, b, i, x, y, len(z), cap(z), vari(), vari(x...), vari(1, 2))
}

func panics() string {
	var r *rec
	var s []int
	var m map[string]int
	k := 3
	return strings.Join([]string{
		try(func() { _ = s[k] }), try(func() { s[k] = 1 }), try(func() { m["a"] = 1 }), try(func() { r.a = 1 }), try(func() { _ = r.a }),
		try(func() { panic("own") }), try(func() { var e interface{} = 1; _ = e.(string) }), try(func() { _ = tbl[k%4] }), try(func() { _ = 1 / (k - 3) }),
		try(func() { _ = s[:k] }), try(func() { _ = make([]int, k-4) }),
	}, "|")
}

func condvars() string {
	var mu sync.Mutex
	c := sync.NewCond(&mu)
	q := []int{}
	done := make(chan int)
	go func() {
		t := 0
		for i := 0; i < 5; i++ {
			mu.Lock()
			for len(q) == 0 {
				c.Wait()
			}
			t += q[0]
			q = q[1:]
			mu.Unlock()
		}
		done <- t
	}()
	for i := 0; i < 5; i++ {
		mu.Lock()
		q = append(q, i)
		mu.Unlock()
		c.Signal()
	}
	return fmt.Sprint(<-done)
}

func onces() string {
	var o sync.Once
	n := 0
	for i := 0; i < 3; i++ {
		o.Do(func() { n++ })
	}
	var rw sync.RWMutex
	var wg sync.WaitGroup
	t := 0
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rw.RLock()
			_ = t
			rw.RUnlock()
			rw.Lock()
			t++
			rw.Unlock()
		}()
	}
	wg.Wait()
	var m sync.Map
	m.Store("a", 1)
	v, ok := m.Load("a")
	p := sync.Pool{New: func() interface{} { return 5 }}
	return fmt.Sprint(n, t, v, ok, p.Get())
}

func loopvars() string {
	var fs []func() int
	for i, v := range []int{1, 2, 3} {
		fs = append(fs, func() int { return i*10 + v })
	}
	for i := 0; i < 2; i++ {
		fs = append(fs, func() int { return i })
	}
	for k := range map[int]bool{4: true} {
		fs = append(fs, func() int { return k })
	}
	s := ""
	for _, f := range fs {
		s += fmt.Sprint(f(), " ")
	}
	return s
}

func stringsAndMaps() string {
	b := []byte("hello")
	s := string(b[1:3])
	b[1] = 'x'
	m := map[[2]int][]string{}
	m[[2]int{1, 2}] = append(m[[2]int{1, 2}], "a", "b")
	type k struct{ a, b int }
	n := map[k]*rec{{1, 2}: {a: 3}}
	n[k{1, 2}].a++
	nested := map[string]map[string]int{"a": {"b": 1}}
	nested["a"]["b"] += 4
	return fmt.Sprint(s, string(b), m, n[k{1, 2}].a, nested, s > "a", s+"!", len(s), s[0], string(rune(65)))
}

type base struct {
	sync.Mutex
	n int
}

func (b *base) inc() { b.Lock(); defer b.Unlock(); b.n++ }

type derived struct {
	*base
	rec
	next *derived
}

func embedded() string {
	d := &derived{base: &base{}}
	d.next = &derived{base: d.base, rec: rec{a: 8}}
	d.inc()
	d.next.inc()
	d.next.set(9)
	d.next.next = d
	d.arr[3]++
	d.next.next.rec.arr[3] += 2
	x := *d.next
	x.a = 1
	f := d.inc
	f()
	return fmt.Sprint(d.n, d.next.a, d.arr, x.a, d.next.get())
}

func deferred() (s string) {
	for i := 0; i < 3; i++ {
		defer func(n int) { s += fmt.Sprint(n) }(i)
	}
	defer func() {
		recover()
		s += "r"
	}()
	var mu sync.Mutex
	mu.Lock()
	defer mu.Unlock()
	panic("x")
}

func gotos() string {
	i := 0
again:
	i++
	if i < 4 {
		goto again
	}
	switch x := interface{}(i).(type) {
	case int:
		i += x
	case string, nil:
		i = 0
	}
	switch i {
	case 7, 8:
		i = 100
		fallthrough
	case 9:
		i++
	default:
		i = 0
	}
	if v, err := two(); err != nil && v == 4 {
		i++
	} else if v == 3 {
		i = 0
	}
	return fmt.Sprint(i)
}

func semaphore() string {
	<-sem
	sem <- struct{}{}
	sem <- struct{}{}
	select {
	case sem <- struct{}{}:
		return "overflow"
	default:
	}
	<-sem
	return fmt.Sprint(len(sem))
}

func chanOfChan() string {
	reqs := make(chan chan<- int)
	go func() {
		n := 0
		for r := range reqs {
			n++
			r <- n
		}
	}()
	t := 0
	for i := 0; i < 3; i++ {
		c := make(chan int)
		reqs <- c
		t += <-c
	}
	close(reqs)
	e := make(chan error, 1)
	e <- nil
	f := make(chan interface{}, 1)
	f <- 3
	return fmt.Sprint(t, <-e, <-f)
}

func errgroup() string {
	errs := make(chan error, 8)
	for i := 0; i < 8; i++ {
		go func(i int) {
			var err error
			if i == 5 {
				err = fmt.Errorf("job %d", i)
			}
			errs <- err
		}(i)
	}
	var got error
	for i := 0; i < cap(errs); i++ {
		if err := <-errs; err != nil {
			got = err
		}
	}
	return fmt.Sprint(got)
}

func selectSendRecv() string {
	a, b := make(chan int), make(chan int)
	res := make(chan int, 2)
	swap := func(out chan<- int, in <-chan int, v int) {
		o := out
		t := 0
		for i := 0; i < 2; i++ {
			select {
			case o <- v:
				o = nil
			case x := <-in:
				t += x
				in = nil
			}
		}
		res <- t
	}
	go swap(a, b, 1)
	go swap(b, a, 2)
	x := <-res + <-res
	return fmt.Sprint(x)
}

func timers() string {
	var out []string
	t0 := time.Now()
	slow, fast := time.After(60*time.Millisecond), time.After(10*time.Millisecond)
	for i := 0; i < 2; i++ {
		select {
		case <-slow:
			out = append(out, "slow")
		case <-fast:
			out = append(out, "fast")
		}
	}
	out = append(out, fmt.Sprint(time.Since(t0) >= 60*time.Millisecond))
	t := time.NewTimer(time.Hour)
	out = append(out, fmt.Sprint(t.Stop(), t.Stop(), t.Reset(5*time.Millisecond)))
	<-t.C
	done := make(chan int)
	time.AfterFunc(time.Millisecond, func() { close(done) })
	<-done
	k := time.NewTicker(3 * time.Millisecond)
	for i := 0; i < 3; i++ {
		<-k.C
	}
	k.Stop()
	var mu sync.Mutex
	mu.Lock()
	go func() {
		time.Sleep(20 * time.Millisecond)
		mu.Unlock()
	}()
	for !mu.TryLock() {
		time.Sleep(time.Millisecond)
	}
	idle := make(chan int)
	go func() { <-idle }()
	select {
	case <-idle:
	case <-time.After(30 * time.Millisecond):
		out = append(out, "timeout")
	}
	return strings.Join(out, " ")
}

func mapEntries() string {
	var tr []string
	key := func(k string) string { tr = append(tr, "key "+k); return k }
	val := func(v int) int { tr = append(tr, fmt.Sprint("val ", v)); return v }
	m := map[string]int{}
	get := func() map[string]int { tr = append(tr, "map"); return m }
	get()[key("a")] = val(1)
	get()[key("b")] += val(2)
	get()[key("b")]++
	m["a"], m["b"] = m["b"], m["a"]
	v, ok := get()[key("a")]
	_, no := m["none"]
	x, err := m["a"], error(nil)
	m["c"], err = twentyTwo()
	delete(get(), key("b"))
	any1 := map[interface{}]interface{}{}
	any1[1] = "one"
	any1["two"] = 2
	one, _ := any1[1].(string)
	delete(any1, "two")
	if w, ok := m["c"]; ok {
		v += w
	}
	func() {
		defer func() { tr = append(tr, fmt.Sprint(recover())) }()
		var z map[string]int
		z[key("z")] = val(9)
	}()
	for k := range m {
		if k == "a" {
			m["a"] = 7
			delete(m, "c")
		}
		break
	}
	for k := range m {
		delete(m, k)
	}
	return fmt.Sprint(tr, v, ok, no, x, err, one, len(any1), len(m))
}

func twentyTwo() (int, error) { return 22, nil }

func capturedVars() string {
	var mu sync.Mutex
	var wg sync.WaitGroup
	total, name, m := 0, "", map[int]int{}
	arr := [4]int{}
	st := struct{ a, b int }{}
	for i := 0; i < 4; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			total += i
			total++
			m[i] = total - total + i
			arr[i] = i * i
			st.a, st.b = st.a+i, st.b-i
			if len(name) < 4 {
				name += "x"
			}
		}()
	}
	wg.Wait()
	f := func() int { return 1 }
	g := func() int { return f() + 1 }
	h := func() (n int) { defer func() { n++ }(); n = 4; return n + 1 }
	n := 0
	for j := 0; j < 3; j++ {
		func() { n += j; j += 0 }()
	}
	var sw string
	switch t := interface{}(n).(type) {
	case int:
		func() { sw = fmt.Sprint("int", t); t++ }()
	}
	return fmt.Sprint(total, name, m, arr, st, g(), h(), n, sw)
}

// machine: what there is to know about the machine, and the rarer maps.
func machine() string {
	n := runtime.NumCPU() > 0 && runtime.GOMAXPROCS(0) > 0 && runtime.NumGoroutine() > 0
	var m sync.Map
	_, had := m.Swap("a", 1)
	x, has := m.Swap("a", 2)
	cas := m.CompareAndSwap("a", 1, 3) || !m.CompareAndSwap("a", 2, 4)
	cad := m.CompareAndDelete("a", 1) || !m.CompareAndDelete("a", 4)
	_, left := m.Load("a")
	m.Store("b", 1)
	m.Clear()
	m.Range(func(k, v interface{}) bool { left = true; return true })
	return fmt.Sprint(n, had, x, has, cas, cad, left)
}
