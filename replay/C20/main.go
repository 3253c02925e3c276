// Concrete search for C20: sequential histories and scheduled interleavings.
package main

import (
	"verif/replay/h"
	"verif/replay/sc"
)

func main() { h.Main("C20", sc.Seq(true), sc.Conc(true)) }
