// Command mc runs the scenarios of the model checker.
package main

import (
	_ "github.com/aperturerobotics/controllerbus/zz_verif/ads"
	_ "github.com/aperturerobotics/controllerbus/zz_verif/aps"
	_ "github.com/aperturerobotics/controllerbus/zz_verif/bss"
	_ "github.com/aperturerobotics/controllerbus/zz_verif/cms"
	_ "github.com/aperturerobotics/controllerbus/zz_verif/cts"
	_ "github.com/aperturerobotics/controllerbus/zz_verif/dcs"
	_ "github.com/aperturerobotics/controllerbus/zz_verif/fcs"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	_ "github.com/aperturerobotics/controllerbus/zz_verif/pcs"
	_ "github.com/aperturerobotics/controllerbus/zz_verif/pls"
	_ "github.com/aperturerobotics/controllerbus/zz_verif/rss"
)

func main() { mcx.Main() }
