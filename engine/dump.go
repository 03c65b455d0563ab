package main

import (
	"fmt"
	"os"
	"strings"
)

func dump(args []string) {
	p, err := load(args[1:]...)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for _, f := range p.allFuncs() {
		if strings.Contains(funcName(f), args[0]) {
			f.WriteTo(os.Stdout)
		}
	}
}
