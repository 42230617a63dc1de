package main

import "golang.org/x/tools/go/ssa"

type ssaFn = ssa.Function
