// Command vcrefc checks the C functions of the reference directly.
package main

import (
	_ "vh/crefc"
	"vh/runner"
)

func main() { runner.Main() }
