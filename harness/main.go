package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
)

func main() {
	verif := flag.String("verif", "/verif", "directory of the checks")
	replay := flag.String("replay", "", "replay file")
	list := flag.Bool("list", false, "list the properties")
	n := flag.Int("n", 0, "number of cases")
	dump := flag.Int("dump", 0, "print the grammars of the first N cases")
	flag.Parse()
	if *list {
		for _, id := range sortedKeys(props) {
			fmt.Println(id, props[id].N)
		}
		return
	}
	if flag.NArg() != 1 || props[flag.Arg(0)] == nil {
		die("usage: vh [flags] PROPERTY")
	}
	p := props[flag.Arg(0)]
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if *n > 0 {
		p.N = [2]int{*n, *n}
	}
	if *dump > 0 {
		gen := NewRand(seed, p.ID)
		for i := 0; i < *dump; i++ {
			c := p.Gen(gen.Fork(), i)
			fmt.Printf("=== %d %s %v\n%s", i, c.Kind, c.Flags, caseText(c))
			for k, j := range c.Jobs {
				if k < 12 {
					fmt.Printf("   %s %q\n", j.Op, string(j.InputRunes()))
				}
			}
		}
		return
	}
	code := runProp(p, *verif, seed, tier, *replay)
	cleanup()
	os.Exit(code)
}
