// absdbg prints the abstract outcomes of one function (a development aid).
package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
	"verif/internal/load"
)

func main() {
	dir := "/repo"
	if d := os.Getenv("REPO"); d != "" {
		dir = d
	}
	p, err := load.Load(dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	var fn *ssa.Function
	n := strings.Split(os.Args[2], ".")
	if len(n) == 2 {
		fn = p.Method(os.Args[1], n[0], n[1])
	} else {
		fn = p.Func(os.Args[1], n[0])
	}
	x := absint.NewExec(p.Prog, load.Mod)
	x.Debug = len(os.Args) > 3
	var args []*absint.Val
	for _, pa := range fn.Params {
		args = append(args, x.U.Sym(pa.Name(), pa.Type()))
	}
	outs := x.Run(fn, args, absint.NewState())
	for i, o := range outs {
		fmt.Printf("outcome %d panic=%v", i, o.Panic)
		for _, r := range o.Res {
			fmt.Printf("  %s", x.Norm(o.St, x.Reify(o.St, r)))
		}
		fmt.Println()
		fmt.Print(x.Dump(o.St))
	}
	fmt.Println("states", x.States, "undecided", x.Undecided)
}
