// Command zz_s3 replays behaviours of the S3 and Swift specifications.
package main

import (
	"go.uber.org/zap"

	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

func main() {
	zap.ReplaceGlobals(zap.NewNop())
	vh.Main(map[string]vh.Driver{
		"upload":  uploadDriver,
		"kept":    keptDriver,
		"listing": listingDriver,
		"request": requestDriver,
		"sign":    signDriver,
	})
}
