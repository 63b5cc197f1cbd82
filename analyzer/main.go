package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
)

type checkFn func(p *Prog, r *Report)

var checks = map[string]checkFn{}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: analyzer <property id>|list")
		os.Exit(2)
	}
	id := os.Args[1]
	if id == "list" {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			fmt.Println(k)
		}
		return
	}
	if f, ok := debugCmds[id]; ok {
		p, err := loadProg()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		f(p, os.Args[2:])
		return
	}
	f, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
	}
	r := newReport(id)
	p, err := loadProg()
	if err != nil {
		r.fail("load", "program", "-", err.Error())
		os.Exit(r.finish())
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.fail("analysis", "internal", "-", fmt.Sprintf("the analysis could not decide the property: %v\n%s", e, debug.Stack()))
			}
		}()
		f(p, r)
	}()
	os.Exit(r.finish())
}

var debugCmds = map[string]func(p *Prog, args []string){}
