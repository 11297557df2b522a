package c18

import (
	"verifh/pw"
	"verifh/vh"
)

// big renders worlds with very long texts, very many functions or very many
// spans.
func big(c *vh.C) {
	var w *pw.W
	switch c.Idx % 3 {
	case 0:
		w = pw.NewLong(c, 1+c.Rng.Intn(5))
		w.Play(20)
	case 1:
		w = pw.New(c, vh.Many(c.Rng, 1000))
		w.Play(100)
	default:
		w = pw.New(c, 1+c.Rng.Intn(5))
		w.Play(vh.Many(c.Rng, 1500))
	}
	checkLive(c, w)
	checkFuncs(c, w)
	checkFinished(c, w)
	for len(w.Live) > 5 {
		w.End(w.Live[c.Rng.Intn(len(w.Live))])
	}
	checkLive(c, w)
	checkFinished(c, w)
	c.SigN(uint64(c.Idx))
}
