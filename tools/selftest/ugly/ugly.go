// Package ugly holds every construct of Go the instrumenter has to leave meaning what it means.
package ugly // import comment

import (
	"context"
	crand "crypto/rand"
	"errors"
	"fmt"
	"io"
	. "strings"
	"sync"
	"sync/atomic"
	"time"
)

type number interface{ ~int | ~float64 }

type embedded struct {
	sync.Mutex
	n int
}

type holder struct {
	ch  chan int
	res []int
}

func (h *holder) out() []chan int { return []chan int{h.ch} }

type tree[K comparable, V any] struct {
	m map[K]V
	sync.RWMutex
}

func (t *tree[K, V]) put(k K, v V) {
	t.Lock()
	defer t.Unlock()
	t.m[k] = v
}

func sum[T number](xs ...T) (s T) {
	for _, x := range xs {
		s += x
	}
	return
}

var (
	calls int32
	clock = time.Now
	get   = sync.OnceValue(func() int { return int(atomic.AddInt32(&calls, 1)) })
)

func labels() string {
	var b Builder
outer:
	for i := 0; ; i++ {
	inner:
		for j := range 5 {
			switch {
			case j == 2:
				continue outer
			case i > 2:
				break outer
			case j > 3:
				break inner
			default:
				fmt.Fprint(&b, i, j, ";")
				fallthrough
			case false:
				b.WriteByte('.')
			}
		}
	}
	i := 0
again:
	i++
	if i < 3 {
		goto again
	}
	fmt.Fprint(&b, i)
	return b.String()
}

func naked() (n int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("recovered %v", r)
		}
	}()
	for {
		n++
		if n > 3 {
			panic(n)
		}
	}
}

func forever(c chan int) int {
	for {
		select {
		case v := <-c:
			return v
		}
	}
}

func variadic(wg *sync.WaitGroup, out *int, xs ...int) {
	defer wg.Done()
	*out = sum(xs...)
}

func channels() string {
	c := make(chan int)
	done := make(chan struct{})
	errs := make(chan error, 2)
	h := &holder{ch: make(chan int, 3)}
	go func() {
		for i := 0; i < 3; i++ {
			c <- i
		}
		close(c)
	}()
	total := 0
	for v := range c {
		if v == 1 {
			continue
		}
		total += v
	}
	go func() {
		defer close(done)
		var v int
		for v = range h.ch {
			h.res = append(h.res, v)
			if len(h.res) == 3 {
				break
			}
		}
	}()
	h.ch <- 7
	h.ch <- 8
	h.ch <- 9
	<-done
	errs <- errors.New("one")
	errs <- nil
	close(errs)
	n := 0
	for range errs {
		n++
	}
	var wg sync.WaitGroup
	var r1, r2 int
	wg.Add(2)
	go variadic(&wg, &r1, 1, 2, 3)
	go variadic(&wg, &r2, []int{4, 5}...)
	wg.Wait()
	k := 0
	tick := make(chan int, 1)
	quit := make(chan bool, 1)
	go func() { tick <- 1; for len(tick) > 0 { time.Sleep(1) }; quit <- true }()
loop:
	for i := 0; ; i++ {
		select {
		case v, ok := <-tick:
			if !ok {
				break
			}
			k += v
			continue
		case <-quit:
			break loop
		}
	}
	var nilc chan int
sel:
	select {
	case <-nilc:
	case tick <- 5:
		if k > 0 {
			break sel
		}
		k = 100
	}
	select {
	case v := <-tick:
		k += v
	default:
	}
	late := ""
	select {
	case <-time.After(5 * time.Millisecond):
		late = "late"
	case <-nilc:
	}
	select {
	case m := <-map[int]chan int{}[k]:
		late += fmt.Sprint(m)
	case h.out()[0] <- len(late):
		late += fmt.Sprint(<-h.ch)
	}
	c2 := make(chan int)
	go func() { c2 <- 4 }()
	return late + fmt.Sprint(total, h.res, n, r1, r2, k >= 5, forever(c2))
}

func shadow() string {
	time := struct{ Now func() int }{func() int { return 5 }}
	fmt := func(x int) string { return Repeat("x", x) }
	return fmt(time.Now())
}

func clocks() string {
	a := time.Now()
	time.Sleep(time.Millisecond)
	b := clock()
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	t := <-time.After(time.Millisecond)
	return fmt.Sprint(b.Sub(a) >= time.Millisecond, ctx.Err(), t.After(a), time.Since(a) > 0)
}

func random() string {
	b := make([]byte, 8)
	if _, err := io.ReadFull(crand.Reader, b); err != nil {
		return err.Error()
	}
	n, _ := crand.Read(b[:4])
	return fmt.Sprint(len(b), n)
}

func closures() string {
	var fs []func() int
	for i := range 3 {
		fs = append(fs, func() int { return i * i })
	}
	var once sync.Once
	s := 0
	for _, f := range fs {
		s += f()
	}
	func() {
		defer func(x int) { s += x }(s)
		s = 1
	}()
	once.Do(func() { s += 10 })
	return fmt.Sprint(s, get(), get())
}

func types(x any) string {
	switch v := x.(type) {
	case nil:
		return "nil"
	case int, int64:
		return fmt.Sprintf("%T", v)
	case []byte:
		if len(v) == 0 {
			return "empty"
		}
		return string(v)
	case interface{ Error() string }:
		return v.Error()
	}
	return "?"
}

func iter(yield func(int, string) bool) {
	for i, s := range []string{"a", "b", "c"} {
		if !yield(i, s) {
			return
		}
	}
}

func over() (s string) {
	for i, x := range iter {
		if i == 2 {
			break
		}
		s += x
	}
	for range 2 {
	}
	for ; len(s) < 4; s += "z" {
	}
	if x := len(s); x > 3 {
		s += "!"
	} else if y := x; y > 0 {
		s += "?"
	} else {
		s += "."
	}
	{
		s := s
		_ = s
	}
	;
	return
}

// Run uses them all.
func Run() string {
	e := embedded{}
	e.Lock()
	e.n++
	e.Unlock()
	t := tree[string, int]{m: map[string]int{}}
	t.put("a", 1)
	n, err := naked()
	return Join([]string{labels(), fmt.Sprint(n, err), channels(), shadow(), clocks(), random(), closures(), types(nil), types(3), types([]byte("b")), types(err), over(), fmt.Sprint(e.n, len(t.m), sum(1.5, 2))}, "|")
}
