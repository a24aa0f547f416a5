package main

import (
	"fmt"
	"io"
	"os"
	"strings"
)

var specDir = "/verif/spec"

func machineCfg(roots []string, budget, focus, frozen string) string {
	set := func(s string) string {
		if s == "" || s == "-" {
			return "{}"
		}
		return `{"` + strings.Join(strings.Split(s, ","), `","`) + `"}`
	}
	return fmt.Sprintf("CONSTANTS\n Roots = %s\n Budget = %s\n Focus = %s\n Frozen = %s\nINIT Init\nNEXT Next\nINVARIANT Emit\n",
		set(strings.Join(roots, ",")), budget, set(focus), set(frozen))
}

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
		specDir = d + "/spec"
	}
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "dev":
			dev(os.Args[2:])
			return
		case "check":
			if len(os.Args) == 4 {
				runCheck(os.Args[2], os.Args[3])
				return
			}
		case "once":
			once()
			return
		case "try": // parse stdin in this process
			b, _ := io.ReadAll(os.Stdin)
			o := parse(string(b))
			fmt.Println(o.Err, o.Panic)
			for _, s := range o.Stmts {
				fmt.Println(exercise(s))
			}
			return
		}
	}
	fmt.Fprintln(os.Stderr, "usage: vdrv check P01..P24 quick|thorough")
	os.Exit(2)
}
