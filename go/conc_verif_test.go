package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"
)

type verifJob struct {
	Prog string
	Out  string
}

type verifResult struct {
	Job        int
	Round      int
	Exe        string
	Errs       []string
	Crash      string
	Start, End int64
}

// Compiles the jobs of a specification in rounds: the jobs of a round run at the same time, or one after another.
func TestVerifConcurrent(t *testing.T) {
	b, err := ioutil.ReadFile(os.Getenv("VERIF_SPEC"))
	if err != nil {
		t.Skip("no specification")
	}
	var spec struct {
		Install string
		Jobs    []verifJob
		Rounds  []struct {
			Parallel bool
			Jobs     []int
		}
		Results string
	}
	if err := json.Unmarshal(b, &spec); err != nil {
		t.Fatal(err)
	}
	lib, _ := filepath.Glob(spec.Install + "/lib/*.clara")
	c, _ := filepath.Glob(spec.Install + "/init/*.c")
	var mu sync.Mutex
	var results []verifResult
	one := func(round, i int) {
		r := verifResult{Job: i, Round: round, Start: time.Now().UnixNano()}
		func() {
			defer func() {
				if p := recover(); p != nil {
					r.Crash = fmt.Sprint(p)
				}
			}()
			exe, errs := Compile(options{}, append([]string(nil), lib...), spec.Jobs[i].Prog, append([]string(nil), c...), spec.Jobs[i].Out, ioutil.Discard)
			r.Exe = exe
			for _, e := range errs {
				r.Errs = append(r.Errs, e.Error())
			}
		}()
		r.End = time.Now().UnixNano()
		mu.Lock()
		results = append(results, r)
		mu.Unlock()
	}
	for round, rd := range spec.Rounds {
		if !rd.Parallel {
			for _, i := range rd.Jobs {
				one(round, i)
			}
			continue
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		for _, i := range rd.Jobs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				one(round, i)
			}(i)
		}
		close(start)
		wg.Wait()
	}
	out, _ := json.Marshal(results)
	if err := ioutil.WriteFile(spec.Results, out, 0644); err != nil {
		t.Fatal(err)
	}
}
