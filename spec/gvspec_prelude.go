package deflect

import "gonum.org/v1/gonum/mat"

// Specification vocabulary. The verifier gives these functions their meaning; the bodies never run.

func gvSym(name string, n int) *mat.SymDense          { panic("") }
func gvVec(name string, n int) *mat.VecDense          { panic("") }
func gvReal(name string) float64                      { panic(name) }
func gvInt(name string) int                           { panic(name) }
func gvNat(name string) int                           { panic(name) }
func gvBool(name string) bool                         { panic(name) }
func gvStr(name string) string                        { panic(name) }
func gvAny[T any](name string) T                      { panic(name) }
func gvAssume(c bool)                                 { panic("") }
func gvFact(why string, c bool)                       { panic("") }
func gvEnsure(name string, c bool)                    { panic("") }
func gvReach(name string)                             { panic("") }
func gvForall(p func(i int) bool) bool                { panic("") }
func gvExists(p func(i int) bool) bool                { panic("") }
func gvSum(lo, hi int, f func(i int) float64) float64 { panic("") }
func gvIte[T any](c bool, a, b T) T                   { panic("") }
func gvImplies(a, b bool) bool                        { panic("") }
func gvNot(a bool) bool                               { panic("") }
func gvAnd(a ...bool) bool                            { panic("") }
func gvOr(a ...bool) bool                             { panic("") }
func gvIff(a, b bool) bool                            { panic("") }
func gvPow(x float64, n int) float64                  { panic("") }
func gvFnReal(name string, a ...any) float64          { panic("") }
func gvFnInt(name string, a ...any) int               { panic("") }

// gvFnPos is a real that is not negative.
func gvFnPos(name string, a ...any) float64 { panic("") }
func gvFnNat(name string, a ...any) int     { panic("") }
func gvFnBool(name string, a ...any) bool   { panic("") }
func gvFnStr(name string, a ...any) string  { panic("") }

// gvFnBelow is a natural number less than n (the same n for one name), which is positive.
func gvFnBelow(name string, n int, a ...any) int { panic("") }

// gvPerm is a permutation of [0,n), gvPermInv its inverse.
func gvPerm(name string, n, i int) int    { panic("") }
func gvPermInv(name string, n, i int) int { panic("") }

// gvNumbering maps n arbitrary, different degrees of freedom to 0...n-1, gvDofAt(name, i) is number i.
func gvNumbering(name string, n int) map[Index]int { panic("") }
func gvDofAt(name string, i int) Index {
	return Index{NodalID: gvFnStr(name+".node", i), Dof: Dof(gvFnNat(name+".dof", i))}
}
func gvFnAny[T any](name string, a ...any) T                      { panic("") }
func gvErr(isErr bool) error                                      { panic("") }
func gvSlice[T any](name string, n int) []T                       { panic("") }
func gvMapOf[K comparable, V any](name string, keys ...K) map[K]V { panic("") }
func gvSame[T any](a, b T) bool                                   { panic("") }
func gvGet[T any](name string) T                                  { panic("") }
func gvPut[T any](name string, v T)                               { panic("") }
func gvIsKind[T any](i any) bool                                  { panic("") }
func gvPanics(f func()) bool                                      { panic("") }

// gvChoose is any of 0..n-1, each of which is a case of its own.
func gvChoose(name string, n int) int { panic("") }
func gvUseFn(name string)             { panic("") }
