// Command selftest holds small concurrent programs whose possible outcomes are
// known; the explorer of C01 has to find exactly these.
package main

import (
	"fmt"
	"os"
	"sync"
	"sync/atomic"
)

func spawn(wg *sync.WaitGroup, fs ...func()) {
	for _, f := range fs {
		wg.Add(1)

		go func() {
			defer wg.Done()
			f()
		}()
	}
}

func main() {
	var (
		mu, mu2 sync.Mutex
		rw      sync.RWMutex
		wg      sync.WaitGroup
		x       int
		s       string
	)

	switch os.Args[1] {
	case "update": // lost update between two critical sections
		f := func() {
			mu.Lock()
			t := x
			mu.Unlock()
			mu.Lock()
			x = t + 1
			mu.Unlock()
		}
		spawn(&wg, f, f)
		wg.Wait()
		fmt.Println(x)
	case "locks":
		spawn(&wg, func() { mu.Lock(); mu2.Lock(); mu2.Unlock(); mu.Unlock() }, func() { mu2.Lock(); mu.Lock(); mu.Unlock(); mu2.Unlock() })
		wg.Wait()
		fmt.Println("done")
	case "senders":
		c := make(chan string)
		spawn(&wg, func() { c <- "a"; c <- "b" }, func() { c <- "c" })
		s = <-c + <-c + <-c
		wg.Wait()
		fmt.Println(s)
	case "buffer":
		c := make(chan string, 1)
		spawn(&wg, func() { c <- "a"; c <- "b" }, func() { c <- "c" })

		go func() { wg.Wait(); close(c) }()

		for v := range c {
			s += v
		}

		fmt.Println(s)
	case "receivers":
		c := make(chan string, 2)
		spawn(&wg, func() { v := <-c; mu.Lock(); s += "1" + v; mu.Unlock() }, func() { v := <-c; mu.Lock(); s += "2" + v; mu.Unlock() })
		c <- "a"
		c <- "b"
		wg.Wait()
		fmt.Println(s)
	case "select":
		c, d := make(chan string, 1), make(chan string, 1)
		spawn(&wg, func() { c <- "c" }, func() { d <- "d" })

		for i := 0; i < 2; i++ {
			select {
			case v := <-c:
				s += v
			case v := <-d:
				s += v
			}
		}

		wg.Wait()
		fmt.Println(s)
	case "default":
		c := make(chan int, 1)
		spawn(&wg, func() { c <- 1 })

		select {
		case <-c:
			fmt.Println("got")
		default:
			fmt.Println("none")
		}

		wg.Wait()
	case "late": // added to the group too late
		go func() {
			wg.Add(1)
			mu.Lock()
			x++
			mu.Unlock()
			wg.Done()
		}()
		wg.Wait()
		mu.Lock()
		fmt.Println(x)
		mu.Unlock()
	case "more": // one member of a group adds another
		spawn(&wg, func() {
			spawn(&wg, func() { mu.Lock(); s += "b"; mu.Unlock() })
			mu.Lock()
			s += "a"
			mu.Unlock()
		})
		wg.Wait()
		fmt.Println(s)
	case "again": // the group is empty for a moment
		spawn(&wg, func() { mu.Lock(); s += "a"; mu.Unlock() })

		d := make(chan int)

		go func() {
			wg.Wait()
			mu.Lock()
			s += "w"
			mu.Unlock()
			close(d)
		}()

		spawn(&wg, func() { mu.Lock(); s += "b"; mu.Unlock() })
		wg.Wait()
		<-d
		fmt.Println(s)
	case "exit": // ends without waiting
		go func() { os.Stdout.WriteString("x"); os.Stdout.WriteString("y") }()
		os.Stdout.WriteString("m")
	case "perm":
		f := func(v string) func() { return func() { mu.Lock(); s += v; mu.Unlock() } }
		spawn(&wg, f("a"), f("b"), f("c"))
		wg.Wait()
		fmt.Println(s)
	case "files":
		f := func(v string) func() { return func() { os.Stdout.WriteString(v); os.Stdout.WriteString(v) } }
		spawn(&wg, f("a"), f("b"))
		wg.Wait()
	case "rw":
		c := 0
		spawn(&wg, func() { rw.Lock(); c = 1; rw.Unlock(); rw.Lock(); c = 2; rw.Unlock() }, func() { rw.RLock(); x = c; rw.RUnlock() })
		wg.Wait()
		fmt.Println(x)
	case "once":
		var o sync.Once

		spawn(&wg, func() { o.Do(func() { s = "a" }) }, func() { o.Do(func() { s = "b" }) })
		wg.Wait()
		fmt.Println(s)
	case "atomic":
		var v atomic.Int32

		f := func() {
			if t := v.Load(); t < 1 {
				v.Add(1)
			}
		}
		spawn(&wg, f, f)
		wg.Wait()
		fmt.Println(v.Load())
	case "cond":
		c := sync.NewCond(&mu)
		spawn(&wg, func() {
			mu.Lock()
			for x == 0 {
				s += "w"
				c.Wait()
			}
			mu.Unlock()
		}, func() { mu.Lock(); x = 1; c.Signal(); mu.Unlock() })
		wg.Wait()
		fmt.Println("ok" + s)
	case "missed": // a signal that comes before the wait
		c := sync.NewCond(&mu)
		spawn(&wg, func() { mu.Lock(); c.Wait(); mu.Unlock() }, func() { mu.Lock(); c.Signal(); mu.Unlock() })
		wg.Wait()
		fmt.Println("ok")
	case "try":
		spawn(&wg, func() { mu.Lock(); mu2.Lock(); mu2.Unlock(); mu.Unlock() })

		if mu.TryLock() {
			s = "got"
			mu.Unlock()
		} else {
			s = "busy"
		}

		wg.Wait()
		fmt.Println(s)
	case "race":
		spawn(&wg, func() { x++ }, func() { x++ })
		wg.Wait()
		fmt.Println("ok")
	case "rare": // a race under one of the schedules only
		c := make(chan int, 1)
		spawn(&wg, func() { x++; c <- 1 }, func() {
			select {
			case <-c:
			default:
				x++
			}
		})
		wg.Wait()
		fmt.Println("ok")
	case "clean":
		c, d := make(chan *int), make(chan *int)
		spawn(&wg, func() { p := new(int); *p = 1; c <- p; p = <-d; *p++; c <- p }, func() { p := <-c; *p++; d <- p; p = <-c; fmt.Println(*p) })
		wg.Wait()
	}
}
