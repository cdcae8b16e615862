package main

import (
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

func main() {
	vh.Main(map[string]vh.Driver{
		"diskreads": diskReads,
		"gc":        gcDriver,
		"goal":      goalDriver,
		"fsck":      fsckDriver,
		"fill":      fillDriver,
		"memreads":  memReads,
		"objreads":  objReads,
		"lru":       lruDriver,
		"memsched":  memSched,
		"readahead": readAhead,
		"racache":   raCache,
	})
}
