//go:build wallskew

package c29

import "time"

// This exists only in the patched standard library of the build with this tag.
var wallSkew = &time.VerifWallSkew
