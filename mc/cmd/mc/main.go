package main

import (
	"github.com/lyraproj/dgo/verif/fw"
	_ "github.com/lyraproj/dgo/verif/props"
)

func main() { fw.Main() }
