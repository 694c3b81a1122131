// Command vh runs the laws over the Go packages.
package main

import (
	_ "vh/props"
	"vh/runner"
)

func main() { runner.Main() }
