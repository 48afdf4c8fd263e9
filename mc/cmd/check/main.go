// Command check decides the properties by bounded-exhaustive exploration.
package main

import (
	_ "verif/mc/checks"
	"verif/mc/run"
)

func main() { run.Main() }
