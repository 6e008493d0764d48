module verif.local/sim

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/chronos-tachyon/flate v0.0.0
)

require (
	github.com/chronos-tachyon/assert v1.2.0 // indirect
	github.com/chronos-tachyon/buffer/v3 v3.2.0 // indirect
	github.com/chronos-tachyon/bufferpool v1.0.0 // indirect
	github.com/chronos-tachyon/bzero v1.0.0 // indirect
	github.com/chronos-tachyon/enumhelper v1.1.0 // indirect
	github.com/chronos-tachyon/huffman v1.2.1 // indirect
	github.com/hashicorp/errwrap v1.0.0 // indirect
	github.com/hashicorp/go-multierror v1.1.1 // indirect
	github.com/rs/zerolog v1.23.0 // indirect
	golang.org/x/sys v0.0.0-20210630005230-0f9fa26af87c // indirect
)

replace github.com/chronos-tachyon/flate => /repo
