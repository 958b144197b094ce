package main

import (
	"fmt"
	"os"
)

// dumpRun shows what a replay file gives and what the model expects.
func dumpRun(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f replayFile
	fromJSON(b, &f)
	x := newExec("/verif/build")
	for _, rs := range append([]RunSpec{f.Case.Base}, f.Case.Fixed...) {
		r := x.run(f.Case, rs)
		o := f.Case.outcome(rs, r)
		fmt.Println("outcome", r.How, r.Exit, o.OK, o.why())
		fmt.Println(o.Doc)
		r.Ops = nil
		r.Journal = nil
		fmt.Println(string(toJSON(r)))
	}
	for _, w := range f.Case.Worlds {
		e := w.expect()
		fmt.Println("expect", e.Fail, e.Msg, mustJSON(e.Final))
	}
	return 0
}

// skips lists cases whose neutral run fails although the model expects success.
func skips(args []string) int {
	p := props[args[0]]
	x := newExec("/verif/build")
	n := 0
	for i := 0; n < 5 && i < 6000; i++ {
		c := genCase(p, 5, i, false)
		if c == nil {
			continue
		}
		if e := c.Worlds[0].expect(); e.Fail != "" {
			continue
		}
		o := c.outcome(c.Base, x.run(c, c.Base))
		if !o.OK {
			n++
			fmt.Println("case", i, o.why())
		}
	}
	return 0
}
