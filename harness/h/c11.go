package h

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/cons"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
	"github.com/jtcaraball/goexpdt/query/extensions/leh"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
	"verifharness/sym"
)

func flat(dim int) query.Model { return tree{dim: dim} }

func subsumptionVs() []version {
	return []version{
		{"cc", func(a []arg) logop.LogOpQ { return subsumption.ConstConst{I1: a[0].c, I2: a[1].c} }},
		{"cv", func(a []arg) logop.LogOpQ { return subsumption.ConstVar{I1: a[0].c, I2: a[1].v} }},
		{"vc", func(a []arg) logop.LogOpQ { return subsumption.VarConst{I1: a[0].v, I2: a[1].c} }},
		{"vv", func(a []arg) logop.LogOpQ { return subsumption.VarVar{I1: a[0].v, I2: a[1].v} }},
	}
}

func consVs() []version {
	return []version{
		{"cc", func(a []arg) logop.LogOpQ { return cons.ConstConst{I1: a[0].c, I2: a[1].c} }},
		{"cv", func(a []arg) logop.LogOpQ { return cons.ConstVar{I1: a[0].c, I2: a[1].v} }},
		{"vc", func(a []arg) logop.LogOpQ { return cons.VarConst{I1: a[0].v, I2: a[1].c} }},
		{"vv", func(a []arg) logop.LogOpQ { return cons.VarVar{I1: a[0].v, I2: a[1].v} }},
	}
}

func lelVs() []version {
	return []version{
		{"cc", func(a []arg) logop.LogOpQ { return lel.ConstConst{I1: a[0].c, I2: a[1].c} }},
		{"cv", func(a []arg) logop.LogOpQ {
			return lel.ConstVar{I1: a[0].c, I2: a[1].v, CountVarGen: genCount}
		}},
		{"vc", func(a []arg) logop.LogOpQ {
			return lel.VarConst{I1: a[0].v, I2: a[1].c, CountVarGen: genCount}
		}},
		{"vv", func(a []arg) logop.LogOpQ { return lel.VarVar{I1: a[0].v, I2: a[1].v, CountVarGen: genCount} }},
	}
}

func fullVs() []version {
	return []version{
		{"c", func(a []arg) logop.LogOpQ { return full.Const{I: a[0].c} }},
		{"v", func(a []arg) logop.LogOpQ { return full.Var{I: a[0].v} }},
	}
}

func heprVs(pref []int) []version {
	return []version{
		{"cc", func(a []arg) logop.LogOpQ { return hepr.ConstConst{I1: a[0].c, I2: a[1].c, Preference: pref} }},
		{"cv", func(a []arg) logop.LogOpQ {
			return hepr.ConstVar{I1: a[0].c, I2: a[1].v, Preference: pref, FeaturePreferenceRankVarGen: genRank}
		}},
		{"vc", func(a []arg) logop.LogOpQ {
			return hepr.VarConst{I1: a[0].v, I2: a[1].c, Preference: pref, FeaturePreferenceRankVarGen: genRank}
		}},
		{"vv", func(a []arg) logop.LogOpQ {
			return hepr.VarVar{I1: a[0].v, I2: a[1].v, Preference: pref, FeaturePreferenceRankVarGen: genRank}
		}},
	}
}

func lehVs() []version {
	return []version{
		{"ccc", func(a []arg) logop.LogOpQ { return leh.ConstConstConst{I1: a[0].c, I2: a[1].c, I3: a[2].c} }},
		{"ccv", func(a []arg) logop.LogOpQ {
			return leh.ConstConstVar{I1: a[0].c, I2: a[1].c, I3: a[2].v, HammingDistanceVarGen: genHamming}
		}},
		{"cvc", func(a []arg) logop.LogOpQ {
			return leh.ConstVarConst{I1: a[0].c, I2: a[1].v, I3: a[2].c, HammingDistanceVarGen: genHamming}
		}},
		{"cvv", func(a []arg) logop.LogOpQ {
			return leh.ConstVarVar{I1: a[0].c, I2: a[1].v, I3: a[2].v, HammingDistanceVarGen: genHamming}
		}},
		{"vcc", func(a []arg) logop.LogOpQ {
			return leh.VarConstConst{I1: a[0].v, I2: a[1].c, I3: a[2].c, HammingDistanceVarGen: genHamming}
		}},
		{"vcv", func(a []arg) logop.LogOpQ {
			return leh.VarConstVar{I1: a[0].v, I2: a[1].c, I3: a[2].v, HammingDistanceVarGen: genHamming, EqualFeatureVarGen: genEqual}
		}},
		{"vvc", func(a []arg) logop.LogOpQ {
			return leh.VarVarConst{I1: a[0].v, I2: a[1].v, I3: a[2].c, HammingDistanceVarGen: genHamming, EqualFeatureVarGen: genEqual}
		}},
		{"vvv", func(a []arg) logop.LogOpQ {
			return leh.VarVarVar{I1: a[0].v, I2: a[1].v, I3: a[2].v, HammingDistanceVarGen: genHamming, EqualFeatureVarGen: genEqual}
		}},
	}
}

func anyDim(name string, q, t int) int { return 1 + sym.Choose("dim", sym.Bound(name, q, t)) }

// C11_versions: all versions and settings.
func C11_versions() {
	dim := anyDim("dimension", 4, 5)
	sym.Cover("checked")
	checkVersions("subsumption", flat(dim), subsumptionVs(), func(a []arg) bool { return oSubsumed(a[0].val, a[1].val) })
}

// C15_versions: all versions and settings.
func C15_versions() {
	dim := anyDim("dimension", 4, 5)
	sym.Cover("checked")
	checkVersions("cons", flat(dim), consVs(), func(a []arg) bool { return oCons(a[0].val, a[1].val) })
}

// C12_versions: all versions and settings.
func C12_versions() {
	dim := anyDim("dimension", 4, 5)
	sym.Cover("checked")
	checkVersions("lel", flat(dim), lelVs(), func(a []arg) bool { return oLEL(a[0].val, a[1].val) })
}

// C17_versions: all versions and settings.
func C17_versions() {
	dim := anyDim("dimension", 5, 7)
	sym.Cover("checked")
	checkVersions("full", flat(dim), fullVs(), func(a []arg) bool { return oFull(a[0].val) })
}

// anyPref is any duplicate-free sequence of features.
func anyPref(dim int) []int {
	n := sym.Choose("preference length", dim+1)
	left := []int{}
	for i := 0; i < dim; i++ {
		left = append(left, i)
	}
	pref := []int{}
	for k := 0; k < n; k++ {
		j := sym.Choose("pref"+itoa(k), len(left))
		pref = append(pref, left[j])
		left = append(append([]int{}, left[:j]...), left[j+1:]...)
	}
	return pref
}

// C18_versions: all versions and settings, any preference.
func C18_versions() {
	dim := anyDim("dimension", 3, 4)
	pref := anyPref(dim)
	sym.Cover("checked")
	checkVersions("hepr", flat(dim), heprVs(pref), func(a []arg) bool { return oHEPR(pref, a[0].val, a[1].val) })
}

// C19_versions: all versions and settings.
func C19_versions() {
	dim := anyDim("dimension", 2, 3)
	sym.Cover("checked")
	checkVersions("leh", flat(dim), lehVs(), func(a []arg) bool { return oLEH(a[0].val, a[1].val, a[2].val) })
}
