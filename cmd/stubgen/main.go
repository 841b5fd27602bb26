// stubgen regenerates the committed glue for the shipped protocols.
package main

import (
	"go/format"
	"os"

	"verif/ref"
	"verif/stubgen"
)

func main() {
	for _, n := range []string{"rfc1057", "rfc1813", "user"} {
		src, err := os.ReadFile("specs/" + n + ".x")
		if err != nil {
			panic(err)
		}
		path, flags := "github.com/zeldovich/go-rpcgen/"+n, []string{"-unsigned-enum", "-const-type", "uint32"}
		if n == "user" {
			path, flags = "verif/user", nil
		}
		out := stubgen.Emit("harness", n, path, "spec_"+n, ref.Parse(string(src)), flags)
		b, err := format.Source([]byte(out))
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile("harness/zz_"+n+".go", b, 0666); err != nil {
			panic(err)
		}
	}
}
