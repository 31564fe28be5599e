package main

// Aids for testing the checks themselves; see tools/mutate.py.

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

// covered holds the blocks that were interpreted, when COVER names a file.
var covered map[*ssa.BasicBlock]bool

// firstOnly ends the process with the first violation.
var firstOnly = os.Getenv("FIRST") != ""

func init() {
	if os.Getenv("COVER") != "" {
		covered = map[*ssa.BasicBlock]bool{}
	}
}

func writeCover(l *Loaded, id string) {
	f, err := os.OpenFile(os.Getenv("COVER"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		return
	}
	defer f.Close()
	seen := map[string]bool{}
	for b := range covered {
		for _, ins := range b.Instrs {
			if !ins.Pos().IsValid() {
				continue
			}
			p := l.Prog.Fset.Position(ins.Pos())
			s := fmt.Sprintf("%s\t%s:%d\n", id, p.Filename, p.Line)
			if !seen[s] {
				seen[s] = true
				f.WriteString(s)
			}
		}
	}
	covered = map[*ssa.BasicBlock]bool{}
}
