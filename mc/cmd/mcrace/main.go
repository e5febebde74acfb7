package main

import (
	_ "github.com/lyraproj/dgo/verif/conc"
	"github.com/lyraproj/dgo/verif/fw"
)

func main() { fw.Main() }
