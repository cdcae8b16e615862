// Command zz_blk replays behaviours of the block device specifications.
package main

import (
	"go.uber.org/zap"

	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

func main() {
	zap.ReplaceGlobals(zap.NewNop())
	vh.Main(map[string]vh.Driver{
		"pool": poolDriver,
		"scsi": scsiDriver,
	})
}
