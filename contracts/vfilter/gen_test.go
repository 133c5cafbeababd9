package vfilter

import (
	"context"
	"math/rand"

	"www.velocidex.com/golang/vfilter/types"
)

func init() {
	vRegister(func(r *rand.Rand) types.Scope { return NewScope() })
	vRegister(func(r *rand.Rand) context.Context { return context.Background() })
}
