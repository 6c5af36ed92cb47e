package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"rangedbverif/core"
	"rangedbverif/env"
)

var checks = map[string]func(*core.T){}

func init() {
	// libraries under the code under test read these
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "AWS_") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
}

func main() {
	if len(os.Args) < 3 {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Fprintln(os.Stderr, "usage: vh run|worker PROP; props:", ids)
		os.Exit(3)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(core.Supervise(os.Args[2]))
	case "worker":
		f, ok := checks[os.Args[2]]
		if !ok {
			fmt.Fprintln(os.Stderr, "no check for", os.Args[2])
			os.Exit(3)
		}
		t := core.New(os.Args[2])
		core.Unclear = func(name string) string {
			if u := env.UnsupportedSQL(); u != "" && strings.Contains(name, "pg") {
				return "the PostgreSQL stand-in does not understand " + u
			}
			return ""
		}
		f(t)
		t.Finish()
	case "child":
		childMain(os.Args[2:])
	}
}
