package main

import (
	"fmt"
	"io"
	"os"
	"sort"

	"verif/core"
	"verif/drv"
)

type wc = io.WriteCloser

func symlink(a, b string) error { return os.Symlink(a, b) }

// outWays are places for the standard output, the first one is fine, the others refuse the whole or a part of it.
var outWays = []string{"exec \"$0\" \"$@\" > out", "exec \"$0\" \"$@\" > /dev/full", "exec \"$0\" \"$@\" 1< /dev/null", "ulimit -f 1; exec \"$0\" \"$@\" > out", "ulimit -f 8; exec \"$0\" \"$@\" > out"}

// outputCase: the program succeeds exactly if its result is printed.
func outputCase(w *core.Worker, dir string, how int, key string, argv ...string) core.Out {
	d, err := drv.Run{Path: "/bin/sh", Args: append([]string{"-c", outWays[how]}, argv...), Dir: dir}.Do()
	if err != nil {
		return core.Out{Err: err}
	}
	w.C.Distinct(fmt.Sprint("output", key, how))
	if d.Hang || (d.Code == 0) != (how == 0) {
		return core.Bad("output:"+key, "%q run by %s: %s", argv[1:], outWays[how], d)
	}
	return core.Out{}
}

func mkdir(d string) {
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
}

func sortRq(l []rq) {
	sort.SliceStable(l, func(i, j int) bool { return l[i].Name+l[i].Params < l[j].Name+l[j].Params })
}
