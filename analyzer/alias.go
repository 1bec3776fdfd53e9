package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"regexp"
	"strings"
)

// private lists the unexported parts of the curve package that specifications
// mention, by what they are: when the name is gone, the part is looked for by
// its signature or type.
var private = []struct{ name, shape, not string }{
	{"geMixedAdd", "func(*CompletedGroupElement,*ExtendedGroupElement,*PreComputedGroupElement)", "geMixedSub"},
	{"selectPoint", "func(*PreComputedGroupElement,int32,int32)", ""},
	{"base", "[32][8]PreComputedGroupElement", ""},
}

// rename follows renamed private parts in the specification texts.
func rename(dir string, specs map[string]string) {
	const pkg = "crypto/edwards25519"
	files, _ := filepath.Glob(filepath.Join(dir, pkg, "*.go"))
	shapes := map[string]string{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.SkipObjectResolution)
		if err != nil {
			return
		}
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Type.Results == nil {
					var ts []string
					for _, p := range d.Type.Params.List {
						for i := 0; i == 0 || i < len(p.Names); i++ {
							ts = append(ts, types.ExprString(p.Type))
						}
					}
					shapes[d.Name.Name] = "func(" + strings.Join(ts, ",") + ")"
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					vs, ok := s.(*ast.ValueSpec)
					if !ok || d.Tok != token.VAR {
						continue
					}
					for i, n := range vs.Names {
						switch {
						case vs.Type != nil:
							shapes[n.Name] = types.ExprString(vs.Type)
						case i < len(vs.Values):
							if c, ok := vs.Values[i].(*ast.CompositeLit); ok && c.Type != nil {
								shapes[n.Name] = types.ExprString(c.Type)
							}
						}
					}
				}
			}
		}
	}
	for _, p := range private {
		if _, ok := shapes[p.name]; ok {
			continue
		}
		found := ""
		for n, s := range shapes {
			if s == p.shape && n != p.not {
				if found != "" {
					found = ""
					break
				}
				found = n
			}
		}
		if found == "" {
			continue
		}
		word := regexp.MustCompile(`\b` + p.name + `\b`)
		for f, text := range specs {
			if strings.HasPrefix(f, "../../"+pkg+"/") {
				specs[f] = word.ReplaceAllString(text, found)
			} else {
				specs[f] = strings.ReplaceAll(text, "//stub REPO/"+pkg+"."+p.name+"\n", "//stub REPO/"+pkg+"."+found+"\n")
			}
		}
	}
}
