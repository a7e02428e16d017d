package main

import (
	"fmt"
	"os"
	"sort"
)

var checks = map[string]func(*Ctx){}

func register(id string, f func(*Ctx)) { checks[id] = f }

func main() {
	if len(os.Args) < 2 {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println("usage: vh <check>; checks:", ids)
		os.Exit(2)
	}
	f, ok := checks[os.Args[1]]
	if !ok {
		fmt.Println("unknown check", os.Args[1])
		os.Exit(2)
	}
	c := newCtx(os.Args[1])
	defer func() {
		if r := recover(); r != nil {
			c.runCleanup()
			panic(r)
		}
	}()
	f(c)
	c.Finish()
}
