// Command harness drives the real GoSlice code through its exported API only
// and records what it observably does as ndjson traces, which are then checked
// against the TLA+ specifications in /verif/spec.
//
//	harness FAMILY -seed S -n N -tier quick|thorough -out PREFIX -chunks K [-cases FILE] [-only ID]
//
// Every case is run under a panic guard and a watchdog, so that a crash or a
// hang of the code under test becomes an event of the trace.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// J is one trace event.
type J map[string]interface{}

// Case is what a family gets to run one case.
type Case struct {
	ID   int
	Seed int64
	R    *rand.Rand
	In   map[string]interface{} // the case as generated from a specification, or nil
	Tier string
	Tmp  string
	// the next random stack consists of plates with thin bridges between them
	plates bool
	// the next random stack is as big as a print bed
	huge bool
	ev   []J
}

// Emit appends an event to the trace of the case.
func (c *Case) Emit(e J) {
	e["case"] = c.ID
	c.ev = append(c.ev, e)
}

type family func(c *Case)

var families = map[string]family{}

var (
	fSeed   = flag.Int64("seed", 1, "")
	fN      = flag.Int("n", 10, "number of generated cases")
	fTier   = flag.String("tier", "quick", "")
	fOut    = flag.String("out", "", "prefix of the trace files")
	fChunks = flag.Int("chunks", 1, "")
	fCases  = flag.String("cases", "", "ndjson file with cases generated from a specification")
	fOnly   = flag.Int("only", -1, "run only this case")
	fSkip   = flag.String("skip", "", "comma separated case ids to leave out")
	fTmp    = flag.String("tmp", "", "scratch directory")
	fLimit  = flag.Int("limit", 30, "seconds one case may take")
	fJobs   = flag.Int("jobs", 4, "")
)

func main() {
	fam := os.Args[1]
	if fam == "flags-child" {
		flagsChild(os.Args[2:])
	}
	flag.CommandLine.Parse(os.Args[2:])
	f, ok := families[fam]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown family", fam)
		os.Exit(3)
	}
	debug.SetMaxStack(256 << 20)

	var ins []map[string]interface{}
	if *fCases != "" {
		fh, err := os.Open(*fCases)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 64<<20)
		for sc.Scan() {
			m := map[string]interface{}{}
			if err := json.Unmarshal(sc.Bytes(), &m); err != nil {
				fmt.Fprintln(os.Stderr, "bad case:", err)
				os.Exit(3)
			}
			ins = append(ins, m)
		}
		fh.Close()
	}
	total := len(ins) + *fN

	// The journal tells which cases were running if the whole process dies.
	journal, err := os.Create(*fOut + ".journal")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}

	type res struct {
		id int
		ev []J
	}
	results := make([][]J, total)
	ids := make(chan int, total)
	for i := 0; i < total; i++ {
		if *fOnly >= 0 && i != *fOnly {
			continue
		}
		if strings.Contains(","+*fSkip+",", fmt.Sprintf(",%d,", i)) {
			continue
		}
		ids <- i
	}
	close(ids)

	var mu sync.Mutex
	flush := func() {
		files := make([]*bufio.Writer, *fChunks)
		var fhs []*os.File
		for i := range files {
			fh, err := os.Create(fmt.Sprintf("%s.%d.ndjson", *fOut, i))
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			fhs = append(fhs, fh)
			files[i] = bufio.NewWriter(fh)
		}
		k := 0
		for _, evs := range results {
			if evs == nil {
				continue
			}
			for _, e := range evs {
				b, err := json.Marshal(e)
				if err != nil {
					fmt.Fprintln(os.Stderr, "marshal:", err)
					os.Exit(3)
				}
				files[k%*fChunks].Write(b)
				files[k%*fChunks].WriteByte('\n')
			}
			k++
		}
		for i := range files {
			files[i].Flush()
			fhs[i].Close()
		}
	}

	var wg sync.WaitGroup
	for w := 0; w < *fJobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for id := range ids {
				c := &Case{ID: id, Seed: *fSeed*1000003 + int64(id), Tier: *fTier}
				c.R = rand.New(rand.NewSource(c.Seed))
				if id < len(ins) {
					c.In = ins[id]
				}
				c.Tmp = fmt.Sprintf("%s/c%d", *fTmp, id)
				mu.Lock()
				fmt.Fprintf(journal, "B %d\n", id)
				mu.Unlock()

				done := make(chan struct{})
				var crashed J
				go func() {
					defer close(done)
					defer func() {
						if r := recover(); r != nil {
							crashed = J{"ev": "crash", "msg": fmt.Sprint(r), "stack": topFrames(string(debug.Stack()))}
						}
					}()
					f(c)
				}()
				start := time.Now()
				tick := time.NewTicker(50 * time.Millisecond)
				hang := false
			wait:
				for {
					select {
					case <-done:
						break wait
					case <-tick.C:
						var ms runtime.MemStats
						if time.Since(start) > 2*time.Second {
							runtime.ReadMemStats(&ms)
						}
						if time.Since(start) > time.Duration(*fLimit)*time.Second || ms.HeapAlloc > 8<<30 {
							hang = true
							break wait
						}
					}
				}
				tick.Stop()
				mu.Lock()
				if hang {
					// The goroutine cannot be stopped: write everything and end the process.
					results[id] = append(append([]J{}, snapshot(c)...), J{"ev": "crash", "case": id, "msg": "does not terminate", "stack": ""})
					flush()
					fmt.Fprintf(journal, "H %d\n", id)
					journal.Close()
					os.Exit(4)
				}
				if crashed != nil {
					c.Emit(crashed)
				}
				if c.ev == nil {
					c.ev = []J{}
				}
				results[id] = c.ev
				fmt.Fprintf(journal, "E %d\n", id)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	flush()
	journal.Close()
}

func snapshot(c *Case) []J {
	// the slice may still be appended to by the hanging goroutine, only its current prefix is used
	ev := c.ev
	return ev[:len(ev):len(ev)]
}

func topFrames(s string) string {
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}
