// Concrete search for C19: sequential histories and scheduled interleavings.
package main

import (
	"verif/replay/h"
	"verif/replay/sc"
)

func main() { h.Main("C19", sc.Seq(false), sc.Conc(false)) }
