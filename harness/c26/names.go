//go:build !appengine && !tinygo

package c26

const (
	errnoName      = "Errno"
	unknownNetName = "Unknown Network Error"
	invalidName    = "Invalid Addr Error"
	dnsName        = "DNS Error"
	dnsConfigName  = "DNS Config Error"
)
