// Code generated by tools/genalias. DO NOT EDIT.

package simmathrand2

import real "math/rand/v2"

type (
	ChaCha8 = real.ChaCha8
	PCG     = real.PCG
	Rand    = real.Rand
	Source  = real.Source
	Zipf    = real.Zipf
)

var (
	New        = real.New
	NewChaCha8 = real.NewChaCha8
	NewPCG     = real.NewPCG
	NewZipf    = real.NewZipf
)
