module verif/harness

go 1.26.0

require (
	github.com/alexispb/mygosnmp v0.0.0
	github.com/anishathalye/porcupine v1.3.1
)

replace github.com/alexispb/mygosnmp => /repo
