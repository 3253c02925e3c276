package main

import (
	"verif/replay/dl"
	"verif/replay/h"
)

func main() {
	h.Main("C01", func(hh *h.H) {
		w := dl.New(hh)
		w.Check()
		for i := 0; i < hh.Size; i++ {
			w.Op()
			w.Check()
		}
	})
}
