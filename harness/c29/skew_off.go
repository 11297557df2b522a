//go:build !wallskew

package c29

var wallSkew *int64
