package main

func init() {
	register("C02", func(r *Run) {
		r.Assume("oracle: denotational semantics over bitmaps of sibling sub-sequences (refmatch.go), hence also agreement of all strategies with each other")
		longFlat, longDeep := 66, 66
		if r.Thorough {
			longFlat, longDeep = 258, 258
		}
		exploreLong(r, []*Engine{engIntern}, longFlat, longDeep, 1)
		exploreLong(r, []*Engine{engInterp}, longFlat/2, longDeep/2, 1)
		exploreLong(r, []*Engine{engAuto}, longFlat, longDeep, 2)
		exploreHuge(r, []*Engine{engIntern}, 257, 257)
		exploreHuge(r, []*Engine{engInterp}, 256, 256)
		exploreHuge(r, []*Engine{engAuto}, 1025, 257)
		nearHistories(r, []*Engine{engIntern, engInterp, engAuto, engInternRecord})
		exploreStates(r, []*Engine{engIntern}, 7, 300, false)
		exploreStates(r, []*Engine{engInterp}, 5, 20, false)
		exploreStates(r, []*Engine{engAuto}, 8, 1100, false)
		exploreManyOperands(r, []*Engine{engIntern}, 34)
		exploreManyOperands(r, []*Engine{engInterp}, 10)
		exploreManyOperands(r, []*Engine{engAuto}, 4)
		exploreLanguage(r, []*Engine{engIntern, engInterp, engAuto, engMem}, 0)
	})
	register("C03", func(r *Run) {
		r.Assume("the record-optimised automaton is explored at the smallest scale (compilation dominates)")
		r.Assume("oracle: denotational semantics; only record-shaped trees (sibling labels unique at every level) are compared")
		exploreLong(r, []*Engine{engInternRecord}, 66, 66, 1)
		exploreLong(r, []*Engine{engMemRecord}, 130, 130, 3)
		exploreLong(r, []*Engine{engAutoRecord}, 66, 66, 2)
		exploreHuge(r, []*Engine{engMemRecord}, 1025, 257)
		exploreHuge(r, []*Engine{engAutoRecord}, 1025, 257)
		exploreStates(r, []*Engine{engMemRecord}, 12, 0, false)
		exploreStates(r, []*Engine{engInternRecord, engAutoRecord}, 8, 0, false)
		exploreManyOperands(r, []*Engine{engInternRecord}, 34)
		exploreManyOperands(r, []*Engine{engMemRecord}, 66)
		exploreManyOperands(r, []*Engine{engAutoRecord}, 4)
		exploreLanguage(r, []*Engine{engInternRecord, engMemRecord}, 1)
		exploreLanguage(r, []*Engine{engAutoRecord}, 0)
	})
	register("C08", func(r *Run) {
		scale := 1
		nearHistories(r, []*Engine{engSimplify, engSimplifyRecord, engSimplifyTwice, engSimplifyRecordTwice})
		exploreStates(r, []*Engine{engSimplify, engSimplifyRecord, engSimplifyTwice, engSimplifyRecordTwice}, 7, 300, false)
		exploreLong(r, []*Engine{engSimplify, engSimplifyRecord, engSimplifyTwice, engSimplifyRecordTwice}, 66, 66, 1)
		exploreManyOperands(r, []*Engine{engSimplify, engSimplifyRecord, engSimplifyTwice, engSimplifyRecordTwice}, 33)
		if r.Thorough {
			scale = 2
		}
		exploreLanguage(r, []*Engine{engSimplify, engSimplifyRecord, engSimplifyTwice, engSimplifyRecordTwice}, scale)
	})
}
