// Package self has small concurrent programs used to validate the engine's schedule reduction: the set of
// outcomes under full enumeration must equal the set under DPOR with sleep sets (see engine/selftest.sh).
package self

import (
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/openconfig/gnmi/zzverif/nd"
)

type world struct {
	mu  sync.Mutex
	rw  sync.RWMutex
	x   int // under mu
	y   int // under rw
	a   int64
	ch  chan int // buffered
	un  chan int // unbuffered
	cl  chan struct{}
	clo sync.Once
}

func (w *world) do(kind, id int) int {
	switch kind {
	case 0:
		w.mu.Lock()
		defer w.mu.Unlock()
		w.x = w.x*3 + id
		return w.x
	case 1:
		w.rw.RLock()
		defer w.rw.RUnlock()
		return w.y
	case 2:
		w.rw.Lock()
		defer w.rw.Unlock()
		w.y = w.y*3 + id
		return w.y
	case 3:
		return int(atomic.AddInt64(&w.a, int64(id)))
	case 4:
		return int(atomic.LoadInt64(&w.a))
	case 5:
		select {
		case w.ch <- id:
			return 1
		default:
			return 0
		}
	case 6:
		select {
		case v := <-w.ch:
			return v
		case <-w.cl:
			return -1
		}
	case 7:
		w.clo.Do(func() { close(w.cl) })
		return 9
	case 8:
		select {
		case w.un <- id:
			return 1
		case <-w.cl:
			return 0
		}
	case 9:
		select {
		case v := <-w.un:
			return v
		case v := <-w.ch:
			return 100 + v
		case <-w.cl:
			return -1
		}
	}
	return 0
}

func program(gs, ops, kinds int) {
	var ks []int
	for k := 0; k < kinds; k++ {
		ks = append(ks, k)
	}
	programK(gs, ks, ops)
}

func programK(gs int, ks []int, ops int) {
	prog := make([][]int, gs)
	for g := range prog {
		for o := 0; o < ops; o++ {
			prog[g] = append(prog[g], ks[nd.Choose(fmt.Sprintf("g%d.%d", g, o), len(ks))])
		}
	}
	run(prog)
}

func run(prog [][]int) {
	gs, ops := len(prog), len(prog[0])
	w := &world{ch: make(chan int, 1), un: make(chan int), cl: make(chan struct{})}
	res := make([][]int, gs)
	for g := range prog {
		res[g] = make([]int, ops)
	}
	var wg sync.WaitGroup
	wg.Add(gs)
	nd.Explore(true)
	for g := range prog {
		go func(g int) {
			defer wg.Done()
			for o, k := range prog[g] {
				res[g][o] = w.do(k, g*ops+o+1)
			}
		}(g)
	}
	go func() {
		// whoever waits for ever is released in the end
		w.do(7, 0)
	}()
	wg.Wait()
	nd.Explore(false)
	nd.Observe("r", fmt.Sprint(prog, res, w.x, w.y, w.a, len(w.ch)))
}

//nd:harness prop=SELF mode=dpor native=0 quick:time=600
func HarnessTwo() { program(2, 2, 10) }

//nd:harness prop=SELF mode=dpor native=0 quick:time=600
func HarnessThree() { program(3, 1, 10) }

//nd:harness prop=SELF mode=dpor native=0 quick:time=900
func HarnessLocks() { program(3, 2, 3) }

//nd:harness prop=SELF mode=dpor native=0 quick:time=900
func HarnessRend() { programK(3, []int{3, 6, 7, 8, 9}, 2) }

//nd:harness prop=SELF mode=dpor native=0 quick:time=900
func HarnessMix() { programK(3, []int{0, 1, 2, 5, 9}, 2) }
