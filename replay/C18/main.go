// Concrete search for C18.
package main

import (
	"verif/replay/h"
	"verif/replay/rcm"
)

func main() { h.Main("C18", rcm.Conc) }
