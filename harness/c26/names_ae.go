//go:build appengine

package c26

// There, an errno is just another error that could be the network's.
const (
	errnoName      = "Network Error"
	unknownNetName = "Unknown Network Error"
	invalidName    = "Invalid Addr Error"
	dnsName        = "DNS Error"
	dnsConfigName  = "DNS Config Error"
)
