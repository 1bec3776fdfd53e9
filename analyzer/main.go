package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
)

func main() {
	dir := flag.String("repo", "/repo", "the repository")
	unit := flag.String("unit", "", "run one specification unit pkg.Func (pkg alone: all its units)")
	verbose := flag.Bool("v", false, "print every obligation")
	prop := flag.String("property", "", "decide one property")
	work := flag.String("worker", "", "run units and print JSON")
	verif := flag.String("verif", "/verif", "where evidence goes")
	list := flag.Bool("list", false, "list the properties")
	flag.Parse()
	switch {
	case *list:
		for _, p := range properties {
			fmt.Println(p.ID)
		}
		return
	case *work != "":
		worker(*dir, *work)
		return
	case *prop != "":
		os.Exit(check(*dir, *verif, *prop))
	}
	if *unit != "" {
		devUnit(*dir, *unit, *verbose)
		return
	}
}

func checkFuncs(l *Loaded, pkg string) []string {
	p := l.specs[pkg]
	if p == nil {
		return nil
	}
	var out []string
	for _, n := range p.Types.Scope().Names() {
		if strings.HasPrefix(n, "Check_") {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func devUnit(dir, unit string, verbose bool) {
	if name, ok := strings.CutPrefix(unit, "rule:"); ok {
		l, err := load(dir, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		r := runRule(l, name)
		bad := failed(r.Obls)
		fmt.Printf("%s: %d analysed, %d obligations, %d failed\n", unit, r.Analysed, len(r.Obls), len(bad))
		for _, o := range bad {
			fmt.Printf("   FAIL %s\n        at %s\n", o.Name, o.Pos)
		}
		return
	}
	pkg, fn, _ := strings.Cut(unit, ".")
	l, err := load(dir, specFiles(map[string]bool{"v": true, "models": true, pkg: true}))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fns := []string{fn}
	if fn == "" {
		fns = checkFuncs(l, pkg)
	}
	for _, fn := range fns {
		r := runUnit(l, pkg, fn, 0, 1)
		bad := failed(r.Obls)
		fmt.Printf("%s: %d cases, %d obligations, %d failed, %d functions, %.2fs\n", r.Unit, r.Cases, len(r.Obls), len(bad), len(r.Funcs), r.Wall)
		for i, o := range bad {
			if i < 12 {
				fmt.Printf("   FAIL [%s] %s: %s\n        at %s\n", o.Case, o.Name, o.Detail, o.Pos)
			}
		}
		if verbose {
			for _, o := range r.Obls {
				fmt.Printf("   %v [%s] %s\n", o.OK, o.Case, o.Name)
			}
		}
	}
}
