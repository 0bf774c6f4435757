// Command libweb holds the checks that drive the native messaging library
// through its exported constructors.
package main

import (
	"os"

	"verif/core"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "-fakebackend" {
		fakeBackend(os.Args[2])
		return
	}
	core.Main("libweb", map[string]func(*core.Ctx){
		"C01": c01,
		"C02": c02,
		"C03": c03,
		"C21": c21,
	})
}
