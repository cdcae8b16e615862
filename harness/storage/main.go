// Command zz_storage replays behaviours of the object store specifications.
package main

import (
	ramdriver "github.com/NVIDIA/vdisc/pkg/storage/ram"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

func main() {
	ramdriver.RegisterDefaultDriver()
	vh.Main(map[string]vh.Driver{
		"tree":     treeDriver,
		"publish":  publishDriver,
		"rivals":   rivalsDriver,
		"datafile": dataDriver,
		"locks":    locksDriver,
		"visit":    visitDriver,
		"dispatch": dispatchDriver,
	})
}
