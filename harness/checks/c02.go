package checks

import (
	"verif/core"
	"verif/gen"
)

func init() {
	reg(&core.Check{ID: "C02", Rule: "every source of the families that the model accepts, in raw and string-parsing mode; the tree of the implementation is compared with that of the model",
		Assumptions: []string{"characters outside the alphabets behave like a character of their class"},
		Run: func(r *core.Run) {
			n := r.Pick(4, 5)
			var fams []gen.Fam
			fams = append(fams, gen.Docs(r.Pick(2, 3)), gen.ValueDocs(r.Pick(3, 4)), gen.Vocab(), gen.URLDocs(r.Pick(1, 2)))
			fams = append(fams, gen.Sequences(r.Pick(5, 6))...)
			fams = append(fams, gen.Lexical(gen.Contexts, n)...)
			fams = append(fams, gen.Bytes(gen.Contexts), gen.OddWords(gen.Contexts, true), gen.BytePairs(gen.Contexts))
			fams = append(fams, gen.PumpFam(r.Thorough()))
			runFams(r, fams, evalC02)
			runLarge(r, evalC02)
		}})
	reg(&core.Check{ID: "C03", Rule: "every source of the families; the verdict of the implementation, through ParseFile, ParseExpr and a Biber, is compared with that of the model",
		Run: func(r *core.Run) {
			var fams []gen.Fam
			fams = append(fams, gen.Docs(2), gen.ValueDocs(r.Pick(2, 3)), gen.Vocab(), gen.URLDocs(r.Pick(1, 2)), gen.Mutations(r.Pick(1, 2)), gen.Broken(1, r.Pick(1, 2)), gen.Layouts(1, 1))
			fams = append(fams, gen.Lexical(gen.Contexts, r.Pick(4, 5))...)
			fams = append(fams, gen.Sequences(r.Pick(5, 6))...)
			fams = append(fams, gen.Bytes(gen.Contexts), gen.OddWords(gen.Contexts, true))
			fams = append(fams, gen.BytePairs(gen.Contexts))
			fams = append(fams, gen.PumpFam(r.Thorough()))
			runFams(r, fams, evalC03)
			runLarge(r, evalC03)
			runFams(r, gen.Lexical(exprContexts, r.Pick(4, 5)), evalExpr)
		}})
	reg(&core.Check{ID: "C04", Rule: "every source of the families that the model accepts in string-parsing mode; the elements of strings are compared with those of the model",
		Run: func(r *core.Run) {
			var fams []gen.Fam
			fams = append(fams, gen.ValueDocs(r.Pick(2, 3)), gen.Vocab(), gen.URLDocs(r.Pick(1, 2)))
			fams = append(fams, gen.Lexical(gen.StringContexts(), r.Pick(4, 5))...)
			fams = append(fams, gen.Bytes(gen.StringContexts()), gen.BytePairs(gen.StringContexts()), gen.OddWords(gen.StringContexts(), true))
			fams = append(fams, gen.PumpFam(r.Thorough()))
			runFams(r, fams, evalC04)
			runLarge(r, evalC04)
			runFams(r, gen.Lexical(exprContexts, r.Pick(4, 5)), evalExpr)
		}})
}
