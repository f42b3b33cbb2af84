module verif.local/harness

go 1.23

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/markbates/pkger v0.0.0
)

require github.com/gobuffalo/here v0.6.0 // indirect

replace github.com/markbates/pkger => /repo
