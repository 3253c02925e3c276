// Concrete search for C17.
package main

import (
	"verif/replay/h"
	"verif/replay/rcm"
)

func main() { h.Main("C17", rcm.Seq) }
