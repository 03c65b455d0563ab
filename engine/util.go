package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

func sortedPkgs(p *Program) []string {
	var r []string
	for k := range p.pkgs {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedMembers(sp *ssa.Package) []string {
	var r []string
	for k := range sp.Members {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
