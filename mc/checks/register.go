package checks

import "verifmc/core"

func spaces(ss ...[]*core.Space) []*core.Space {
	var all []*core.Space
	for _, s := range ss {
		all = append(all, s...)
	}
	return all
}

const (
	rawRule = "every leaf of the choice tree of each space is one text; the real parser runs on a private copy of it and its whole result is compared with an independent reference. " +
		"A case counts as non-trivial once per distinct observable result (hash of all scopes, kinds, lines and texts)."
	progRule = "every leaf of the choice tree of the program grammar with at most `bound` departures from the default program is formatted with go/format; texts that are no valid program are outside of the quantifier. " +
		"The real parser runs on it and its result is compared with go/ast. A case counts as non-trivial once per distinct observable result."
	toolAssume = "go/format, go/parser and go/scanner of the installed toolchain define what a Go program is and what it declares"
	lexAssume  = "the reference lexer (mc/ref/lex.go) defines tokens of texts that are no valid Go; on every valid program it is compared with go/scanner"
)

func reg(id, rule string, assume []string, ss ...[]*core.Space) {
	core.Register(&core.Prop{ID: id, Level: "model_checking", Rule: rule, Assume: assume, Spaces: spaces(ss...)})
}

func init() {
	both := []string{toolAssume, lexAssume}
	reg("C01", rawRule+" "+progRule, both, rawSpaces(losslessRaw), programSpaces(losslessProgram))
	reg("C02", rawRule+" "+progRule, both, rawSpaces(tokensRaw), programSpaces(tokensProgram))
	reg("C03", rawRule+" "+progRule, both, lineSpaces(), rawSpaces(linesRaw), programSpaces(linesProgram))
	reg("C04", rawRule+" "+progRule, both, rawSpaces(scopesRaw), programSpaces(scopesProgram))
	reg("C05", progRule, both, programSpaces(funcNames))
	reg("C06", progRule, both, programSpaces(typeNames))
	reg("C07", progRule, both, programSpaces(rolesProgram))
}
