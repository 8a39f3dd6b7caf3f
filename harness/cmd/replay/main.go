// Command replay runs harnesses natively on recorded inputs.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"verifharness/h"
	"verifharness/sym"
)

type job struct {
	Harness  string      `json:"harness"`
	Thorough bool        `json:"thorough"`
	Inputs   []sym.Input `json:"inputs"`
}

type result struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Detail string   `json:"detail"`
	Obs    []string `json:"obs"`
}

func run(j *job, c *sym.Case) (r result) {
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case sym.Fail:
				r = result{Status: "fail", Label: x.Label, Detail: x.Detail}
			case sym.Diverged:
				r = result{Status: "diverged", Detail: x.Detail}
			case sym.Killed:
				r = result{Status: "killed"}
			default:
				r = result{Status: "panic", Detail: fmt.Sprint(x)}
			}
		}
		r.Obs = c.Obs
	}()
	f := h.Registry[j.Harness]
	if f == nil {
		return result{Status: "diverged", Detail: "no harness " + j.Harness}
	}
	f()
	return result{Status: "ok"}
}

func main() {
	ms, _ := strconv.Atoi(os.Args[1])
	scratch := os.Args[2]
	out := bufio.NewWriter(os.Stdout)
	emit := func(r result) {
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	for i := 0; ; i++ {
		var j job
		if err := dec.Decode(&j); err != nil {
			return
		}
		c := &sym.Case{In: j.Inputs, Thorough: j.Thorough, Scratch: filepath.Join(scratch, strconv.Itoa(i))}
		done := make(chan result, 1)
		go func() {
			sym.Begin(c)
			done <- run(&j, c)
		}()
		select {
		case r := <-done:
			sym.End(c)
			emit(r)
		case <-time.After(time.Duration(ms) * time.Millisecond):
			emit(result{Status: "timeout"})
			os.Exit(3)
		}
	}
}
