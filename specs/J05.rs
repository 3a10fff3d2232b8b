//@sources src/jomlib/preprocessor.cpp:leftTrimmed
//@cfg
{'structs': ['MakefileLine']}
//@endcfg
// ---- how a line is joined to the one before it
pub open spec fn lead(s: Str, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && uc_space(s[i]) { lead(s, i + 1) } else { i } }
pub open spec fn ltrim(s: Str) -> Str { s.skip(lead(s, 0)) }
pub proof fn lead_is(s: Str, i: int, n: int)
    requires 0 <= i <= n <= s.len(), forall|j: int| i <= j < n ==> uc_space(#[trigger] s[j]), n < s.len() ==> !uc_space(s[n])
    ensures lead(s, i) == n
    decreases n - i
{ if i < n { lead_is(s, i + 1, n); } }
pub open spec fn joint(cont: int) -> Str { if cont == 1 { seq![32u16] } else if cont == 2 { seq![10u16] } else { seq![] } }
//@fn leftTrimmed
    ensures res@ == ltrim(str@)
//@attr #[verifier::loop_isolation(false)]
//@loop 1
    invariant 0 <= n <= str@.len(), forall|j: int| 0 <= j < n ==> uc_space(#[trigger] str@[j]),
    decreases str@.len() - n
//@call mid 1
    proof { lead_is(str@, 0, n as int); assert(qmid(str@, n as int, -1) =~= str@.skip(n as int)); }
//@endfn
//@fn Preprocessor::joinLines
    ensures final(line).content@ == old(line).content@ + joint(old(line).continuation as int) + ltrim(next.content@), final(line).continuation == next.continuation,
        old(line).continuation == 1 || old(line).continuation == 2 ==> !qs_null(final(line).content)
//@endfn
//@fn Preprocessor::joinPreprocessingDirectiveLines
    ensures final(line).content@ == old(line).content@ + (if old(line).continuation == 2 { seq![94u16] } else { seq![] }) + next.content@, final(line).continuation == next.continuation, qs_null(final(line).content) ==> qs_null(old(line).content)
//@endfn
