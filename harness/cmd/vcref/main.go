// Command vcref checks the Go interface of the C reference.
package main

import (
	_ "vh/crefgo"
	"vh/runner"
)

func main() { runner.Main() }
