package main

import (
	"fmt"
	"strings"
)

func init() { hidden["dump"] = true; register("dump", dumpFn) }

// dumpFn prints the paths of a function (for development).
func dumpFn(c *Ctx) {
	for _, fn := range c.Funcs {
		if short(fn) != debugFn {
			continue
		}
		x := newE3(c.World)
		show := func(st *St, what string, nl, nt int) {
			fmt.Println("----", what)
			for _, l := range st.lits[nl:] {
				fmt.Println("   if", l)
			}
			for _, e := range st.trace[nt:] {
				switch e.kind {
				case "loop", "exit":
					fmt.Println("     ", e.kind, e.loop.hdr.Index)
				case "leave":
				default:
					var as []string
					for _, a := range e.args {
						as = append(as, a.String())
					}
					fmt.Println("     ", e.kind, e.name, strings.Join(as, ", "))
				}
			}
		}
		ov := x.Run(fn, &Hooks{
			Back: func(st *St, l *LoopI, next []*T) {
				show(st, fmt.Sprintf("back %s %d", short(l.fn), l.hdr.Index), l.nl, l.nt)
				for i, p := range l.phis {
					fmt.Println("   ", p.Comment, p.Name(), ":", l.init[i], "|", l.syms[i], "->", next[i])
				}
			},
			Ret: func(st *St, res []*T) {
				show(st, "return", 0, 0)
				for _, r := range res {
					fmt.Println("   =>", r)
				}
			},
		})
		fmt.Println("paths", x.Paths, "steps", x.steps, "overflow", ov)
	}
}
