//@sources src/jomlib/helperfunctions.cpp:auto
//@cfg
{'structs': []}
//@endcfg
// The arguments written in s from position i on. inq: inside quotes; esc: directly after a quote character that may be
// the first of a pair; cur: text of the current argument so far.
pub open spec fn args(s: Str, i: int, inq: bool, esc: bool, cur: Str) -> Seq<Str> decreases s.len() - i {
    if i < 0 || i >= s.len() { one(cur) }                                       // the text ends, so does the argument
    else if s[i] == 34 {
        if esc { args(s, i + 1, !inq, false, cur.push(34)) } else { args(s, i + 1, !inq, true, cur) }
    } else if uc_space(s[i]) && !inq { one(cur) + args(s, i + 1, false, false, seq![]) }
    else { args(s, i + 1, inq, false, cur.push(s[i])) }
}
pub open spec fn one(cur: Str) -> Seq<Str> { let t = qtrim(cur); if t.len() == 0 { seq![] } else { seq![t] } }
pub proof fn rtrim_space(s: Str, c: u16)
    requires uc_space(c)
    ensures rtrim(s.push(c)) =~= rtrim(s)
{ assert(s.push(c).subrange(0, s.len() as int) =~= s); }
pub proof fn trim_space(s: Str, c: u16)
    requires uc_space(c)
    ensures qtrim(s.push(c)) =~= qtrim(s)
    decreases s.len()
{
    if s.len() == 0 {
        assert(s.push(c).subrange(1, 1) =~= seq![]);
        assert(s =~= seq![]);
        assert(ltrim(s.push(c)) =~= ltrim(seq![]));
    } else if uc_space(s[0]) {
        assert(s.push(c).subrange(1, s.len() as int + 1) =~= s.subrange(1, s.len() as int).push(c));
        trim_space(s.subrange(1, s.len() as int), c);
    } else { rtrim_space(s, c); }
}
pub proof fn trim_empty(s: Str)
    ensures qtrim(s).len() == 0 ==> one(qtrim(s)) =~= seq![], qtrim(Seq::<u16>::empty()) =~= Seq::<u16>::empty()
{ }
pub open spec fn views(l: Seq<Str>) -> Seq<Str> { l }

//@fn splitCommandLine
    ensures res@ =~= args(commandLine@, 0, false, false, seq![])
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost s0 = commandLine@;
//@loop 1
    invariant
        commandLine@ =~= s0.push(32),
        0 <= i <= s0.len() + 1,
        i <= s0.len() ==> args(s0, 0, false, false, seq![]) =~= arguments@ + args(s0, i as int, insideQuotes, escapedQuote, str@),
        i == s0.len() + 1 ==> args(s0, 0, false, false, seq![]) =~= arguments@ + (if insideQuotes { one(str@) } else { seq![] }),
    decreases s0.len() + 1 - i
//@body 1
    let ghost a0 = arguments@; let ghost str0 = str@;
    proof { if i < s0.len() { assert(commandLine@[i as int] == s0[i as int]); } trim_space(str@, 32); trim_empty(str@);
        if qtrim(str@).len() == 0 { assert(qtrim(str@) =~= seq![]); } }
//@end 1
    proof { trim_space(str0, 32); }
//@endfn
