// Package dcs holds the scenarios of the directive engine.
package dcs

import (
	"context"
	"time"

	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

type ctxT = context.Context

func must(x *mcx.X, err error) {
	if err != nil {
		x.Failf("unexpected error: %v", err)
	}
}

func sec(n int) time.Duration { return time.Duration(n) * time.Second }
