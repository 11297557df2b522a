//go:build winclock

package c29

import "github.com/spacemonkeygo/monkit/v3/verifsys"

// These exist only in the overlay of the build with this tag, in which the
// library uses the clock of its Windows build.
var winCounter, winFreq = &verifsys.Counter, verifsys.Freq
