// oracle runs the real code of /repo on generated inputs against independent references, one property at a
// time.  It is used only to look for a concrete failing input after a proof obligation has failed: it exits 1
// and prints FAILING INPUT with the first disagreement, 0 when it found none.
package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

type failure struct{ msg string }

func failf(f string, a ...any) { panic(failure{fmt.Sprintf(f, a...)}) }

func clip(s string) string {
	if len(s) > 4000 {
		return s[:4000] + "...<cut>"
	}
	return s
}

var current sync.Map // worker -> description of the case being run

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: oracle PROPERTY [seconds] [seed]")
		os.Exit(3)
	}
	prop := os.Args[1]
	secs, seed := 40, int64(1)
	if len(os.Args) > 2 {
		secs, _ = strconv.Atoi(os.Args[2])
	}
	if len(os.Args) > 3 {
		seed, _ = strconv.ParseInt(os.Args[3], 10, 64)
	}
	run, ok := checks[prop]
	if !ok {
		fmt.Println("no inputs to try for", prop)
		return
	}
	debug.SetMaxStack(48 << 20) // so that unbounded recursion shows on inputs of moderate length
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	var next, cases int64
	var once sync.Once
	report := func(msg string) {
		once.Do(func() {
			fmt.Printf("FAILING INPUT for %s\n%s\n", prop, clip(msg))
			os.Exit(1)
		})
		select {}
	}
	workers := runtime.NumCPU()
	trace := os.Getenv("ORACLE_TRACE")
	if trace != "" {
		workers = 1
	}
	beat := make([]int64, workers)
	desc := make([]atomic.Value, len(beat))
	var wg sync.WaitGroup
	for w := range beat {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for time.Now().Before(deadline) {
				k := atomic.AddInt64(&next, 1) - 1
				atomic.StoreInt64(&beat[w], time.Now().UnixNano())
				func() {
					defer func() {
						if e := recover(); e != nil {
							if f, ok := e.(failure); ok {
								report(f.msg)
							}
							d, _ := desc[w].Load().(string)
							buf := make([]byte, 3000)
							buf = buf[:runtime.Stack(buf, false)]
							report(fmt.Sprintf("panic: %v\non:\n%s\n%s", e, clip(d), buf))
						}
					}()
					run(&ctx{k: k, seed: seed, note: func(s string) {
						desc[w].Store(s)
						if trace != "" {
							os.WriteFile(trace, []byte(clip(s)), 0o644)
						}
					}})
				}()
				atomic.AddInt64(&cases, 1)
			}
			atomic.StoreInt64(&beat[w], 0)
		}(w)
	}
	go func() {
		for {
			time.Sleep(300 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			grown := ms.HeapAlloc > 6<<30
			for w := range beat {
				if b := atomic.LoadInt64(&beat[w]); b != 0 && (time.Since(time.Unix(0, b)) > 15*time.Second || grown && time.Since(time.Unix(0, b)) > time.Second) {
					d, _ := desc[w].Load().(string)
					report("no end (time or memory run out) on:\n" + d)
				}
			}
		}
	}()
	wg.Wait()
	fmt.Printf("%d cases, no disagreement\n", cases)
}

type ctx struct {
	k, seed int64
	note    func(string)
}

func (c *ctx) rnd() *g { return newG(c.seed*1000003 + c.k) }
