module verifh

go 1.25

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/spacemonkeygo/monkit/v3 v3.0.0
)

replace github.com/spacemonkeygo/monkit/v3 => /repo
