//go:build !verif_trie

package checks

import "verifmc/core"

func init() {
	core.Register(&core.Prop{ID: "C17", Level: "model_checking",
		Rule:   "the package has no prefix tree any more that the explorer can reach (see DESIGN.md), so nothing was explored",
		Assume: []string{"the prefix tree is reached through a file that the build overlays"}})
}
