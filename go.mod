module verif

go 1.26

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/zeldovich/go-rpcgen v0.0.0
)

replace github.com/zeldovich/go-rpcgen => /repo
