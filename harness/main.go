// Command driver runs histories of operations on the real library and records
// what they did, for trace validation against spec/Trace.tla.
//
//	driver -suite NAME -seed N -traces N -out FILE [-pending FILE]
//	driver -replay FILE -out FILE
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

var (
	suiteName = flag.String("suite", "", "suite to run")
	seed      = flag.Int64("seed", 1, "seed")
	nTraces   = flag.Int("traces", 100, "number of histories")
	maxSecs   = flag.Float64("secs", 1e9, "stop after that many seconds")
	outFile   = flag.String("out", "trace.ndjson", "output")
	pending   = flag.String("pending", "", "file that holds the current history while an event is executed")
	replay    = flag.String("replay", "", "file of histories to execute again")
	together  = flag.String("together", "", "file of programs: histories of goroutines that run at the same time")
	nWorkers  = flag.Int("workers", 8, "goroutines of the concurrent suites")
	hangSecs  = flag.Float64("hang", 25, "seconds after which an operation counts as hanging")
	verbose   = flag.Bool("panics", false, "print panics")
)

// tracer executes and records one history.
type tracer struct {
	m     *Machine
	tr    []Event
	start atomic.Int64 // when the current event started, or 0
}

var (
	out     *bufio.Writer
	outMu   sync.Mutex
	tracers sync.Map
)

func newTracer() *tracer {
	t := &tracer{m: newMachine()}
	tracers.Store(t, true)
	return t
}

func (t *tracer) do(e Event) *Event {
	t.tr = append(t.tr, e)
	p := &t.tr[len(t.tr)-1]
	if *pending != "" {
		savePending(t.tr)
	}
	t.start.Store(time.Now().UnixNano())
	t.m.exec(p)
	t.start.Store(0)
	return p
}

// savePending remembers the inputs of a history whose last event may kill the process.
func savePending(tr []Event) {
	var in []Event
	for i := range tr {
		in = append(in, tr[i].input())
	}
	b, _ := json.Marshal(in)
	os.WriteFile(*pending, append(b, '\n'), 0o666)
}

func (t *tracer) emit() {
	tracers.Delete(t)
	b, err := json.Marshal(t.tr)
	if err != nil {
		panic(err)
	}
	outMu.Lock()
	out.Write(b)
	out.WriteByte('\n')
	outMu.Unlock()
}

// watch ends the process when an operation doesn't end, or eats up the memory.
func watch() {
	for {
		time.Sleep(200 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		now := time.Now().UnixNano()
		tracers.Range(func(k, _ interface{}) bool {
			t := k.(*tracer)
			s := t.start.Load()
			d := float64(now-s) / 1e9
			if s != 0 && (d > *hangSecs || ms.HeapAlloc > 4<<30 && d > 1) {
				outMu.Lock()
				e := &t.tr[len(t.tr)-1]
				e.D, e.Rt, e.Rb, e.Rs, e.N, e.Ar = nil, nil, nil, nil, nil, 0
				e.Pn = 3
				e.clean()
				b, _ := json.Marshal(t.tr)
				out.Write(b)
				out.WriteByte('\n')
				out.Flush()
				fmt.Fprintln(os.Stderr, "driver: operation doesn't terminate:", e.O)
				os.Exit(0)
			}
			return true
		})
	}
}

func main() {
	flag.Parse()
	debugPanics = *verbose
	f, err := os.Create(*outFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out = bufio.NewWriterSize(f, 1<<20)
	go watch()
	if *together != "" {
		runTogether(*together)
	} else if *replay != "" {
		replayFile(*replay)
	} else {
		s, ok := suites[*suiteName]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown suite", *suiteName)
			os.Exit(2)
		}
		s(*seed, *nTraces, time.Now().Add(time.Duration(*maxSecs*float64(time.Second))))
	}
	outMu.Lock()
	out.Flush()
	f.Close()
	os.Exit(0)
}

func replayFile(name string) {
	f, err := os.Open(name)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	dec := json.NewDecoder(f)
	for dec.More() {
		var tr []Event
		if err := dec.Decode(&tr); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		t := newTracer()
		for i := range tr {
			t.do(tr[i].input())
		}
		t.emit()
	}
}

// runTogether executes programs of spec/Concurrency.tla: registers 1, 2, 3 are made by the base and shared.
func runTogether(name string) {
	f, err := os.Open(name)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	dec := json.NewDecoder(f)
	for dec.More() {
		var p struct {
			Base    []Event
			Threads [][]Event
		}
		if err := dec.Decode(&p); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		base := newTracer()
		for i := range p.Base {
			base.do(p.Base[i].input())
		}
		tracers.Delete(base)
		start := make(chan bool)
		var wg sync.WaitGroup
		var ts []*tracer
		for _, evs := range p.Threads {
			t := newTracer()
			t.tr = append([]Event(nil), base.tr...)
			for j := 1; j <= 3; j++ {
				t.m.r[j] = base.m.r[j]
				t.m.obs[j] = base.m.obs[j]
			}
			ts = append(ts, t)
			wg.Add(1)
			go func(t *tracer, evs []Event) {
				defer wg.Done()
				<-start
				for i := range evs {
					t.do(evs[i].input())
				}
			}(t, evs)
		}
		close(start)
		wg.Wait()
		for _, t := range ts {
			t.emit()
		}
	}
}
