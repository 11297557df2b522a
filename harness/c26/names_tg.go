//go:build tinygo

package c26

// There, the network package has fewer types.
const (
	errnoName      = "Errno"
	unknownNetName = "Network Error"
	invalidName    = "Network Error"
	dnsName        = "Network Error"
	dnsConfigName  = "Network Error"
)
