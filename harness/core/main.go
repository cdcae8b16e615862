package main

import (
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

func main() {
	vh.Main(map[string]vh.Driver{
		"concat":  concatDriver,
		"schemes": schemeDriver,
	})
}
