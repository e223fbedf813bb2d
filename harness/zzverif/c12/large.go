package c12

import (
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// Large parameters, whose values and gradients are constants but for one element.
func H_Large() {
	wide = true
	defer func() { wide = false }()
	defer hx.All()
	rules := []func(){sgdPlain[float64], momentum[float32], nesterov[float64], adaGrad[float64], rmsProp[float32], adamRule[float64], adamW[float64], rAdam[float32]}
	k := vrt.Choose(len(rules))
	at := []int{0, 16, 17, 32, 33, 35, 50, 65}
	hx.Few(at[vrt.Choose(len(at))], 1)
	rules[k]()
}
