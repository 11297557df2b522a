//go:build !winclock

package c29

var (
	winCounter *int64
	winFreq    int64
)
