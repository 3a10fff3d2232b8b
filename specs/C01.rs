//@sources src/jomlib/macrotable.cpp
//@cfg
{'structs': ['MacroTable','MacroTable::MacroData','MacroTable::Substitution'], 'fields': {'MacroTable': ['m_macros']}, 'exceptions': {'Exception': 'QString', 'FileException': ''}}
//@endcfg
pub type Tab = Map<Str, MacroTable_MacroData>;
// ---- what an expansion is
pub open spec fn fnm(c: u16) -> bool { c == 60 || c == 42 || c == 64 || c == 63 }   // < * @ ?
pub open spec fn name_end(s: Str, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { -1 } else if s[i] == 58 || s[i] == 41 { i } else { name_end(s, i + 1) }
}
// the ) that ends a substitution starting at k0: one without a ^ in front
pub open spec fn sub_close(s: Str, k0: int, k: int) -> int decreases s.len() - k {
    if k < 0 || k >= s.len() { -1 } else if s[k] == 41 && !(k > k0 && s[k - 1] == 94) { k } else { sub_close(s, k0, k + 1) }
}
pub open spec fn last_eq(s: Str, k0: int, e: int) -> int decreases e - k0 {
    if e <= k0 || e > s.len() || k0 < 0 { -1 } else if s[e - 1] == 61 { e - 1 } else { last_eq(s, k0, e - 1) }
}
pub open spec fn no_caret(s: Str) -> Str { s.filter(|c: u16| c != 94) }
pub open spec fn cat(a: Str, b: Option<Str>) -> Option<Str> { match b { Some(x) => Some(a + x), None => None } }
pub open spec fn magic(s: Str) -> Str { seq![0xfeffu16] + s }
// exp(table, macros being expanded, text, position, dependents line): expansion of the text from that position on, None: error
#[verifier::opaque]
pub open spec fn exp(t: Tab, u: Set<Str>, s: Str, i: int, dep: bool) -> Option<Str>
    decreases t.dom().difference(u).len(), s.len() - i
    when t.dom().finite() via exp_decreases
{
    if i < 0 || i >= s.len() { Some(seq![]) }
    else if s[i] != 36 || i + 1 == s.len() { cat(seq![s[i]], exp(t, u, s, i + 1, dep)) }
    else if s[i + 1] == 40 {
        let e = find_c(s, 41, i + 2);
        let m = name_end(s, i + 2);
        if e < 0 || m <= i + 2 { None }
        else {
            let name = s.subrange(i + 2, m);
            if fnm(name[0]) { cat(magic(s.subrange(i + 1, e + 1)), exp(t, u, s, e + 1, dep)) }
            else {
                match (if u.contains(name) { None } else if t.dom().contains(name) { exp(t, u.insert(name), t[name].value@, 0, dep) } else { Some(seq![]) }) {
                    None => None,
                    Some(v) => {
                        if s[m] == 41 { cat(v, exp(t, u, s, m + 1, dep)) }
                        else {
                            let c = sub_close(s, m + 1, m + 1);
                            let q = last_eq(s, m + 1, c);
                            if c <= m || q < 0 { None }
                            else { cat(qreplall(v, s.subrange(m + 1, q), no_caret(s.subrange(q + 1, c))), exp(t, u, s, c + 1, dep)) }
                        }
                    }
                }
            }
        }
    }
    else if s[i + 1] == 36 {
        if dep && i + 2 < s.len() && s[i + 2] == 64 { cat(magic(seq![64u16]), exp(t, u, s, i + 3, dep)) }
        else if dep && i + 3 < s.len() && s[i + 2] == 40 && s[i + 3] == 64 { cat(magic(seq![40u16, 64u16]), exp(t, u, s, i + 4, dep)) }
        else { cat(seq![36u16], exp(t, u, s, i + 2, dep)) }
    }
    else if uc_alnum(s[i + 1]) {
        let name = seq![s[i + 1]];
        match (if u.contains(name) { None } else if t.dom().contains(name) { exp(t, u.insert(name), t[name].value@, 0, dep) } else { Some(seq![]) }) {
            None => None,
            Some(v) => cat(v, exp(t, u, s, i + 2, dep)),
        }
    }
    else if fnm(s[i + 1]) { cat(magic(seq![s[i + 1]]), exp(t, u, s, i + 2, dep)) }
    else { None }
}
pub open spec fn exp1(t: Tab, u: Set<Str>, s: Str, i: int, dep: bool) -> Option<Str>
{
    if i < 0 || i >= s.len() { Some(seq![]) }
    else if s[i] != 36 || i + 1 == s.len() { cat(seq![s[i]], exp(t, u, s, i + 1, dep)) }
    else if s[i + 1] == 40 {
        let e = find_c(s, 41, i + 2);
        let m = name_end(s, i + 2);
        if e < 0 || m <= i + 2 { None }
        else {
            let name = s.subrange(i + 2, m);
            if fnm(name[0]) { cat(magic(s.subrange(i + 1, e + 1)), exp(t, u, s, e + 1, dep)) }
            else {
                match (if u.contains(name) { None } else if t.dom().contains(name) { exp(t, u.insert(name), t[name].value@, 0, dep) } else { Some(seq![]) }) {
                    None => None,
                    Some(v) => {
                        if s[m] == 41 { cat(v, exp(t, u, s, m + 1, dep)) }
                        else {
                            let c = sub_close(s, m + 1, m + 1);
                            let q = last_eq(s, m + 1, c);
                            if c <= m || q < 0 { None }
                            else { cat(qreplall(v, s.subrange(m + 1, q), no_caret(s.subrange(q + 1, c))), exp(t, u, s, c + 1, dep)) }
                        }
                    }
                }
            }
        }
    }
    else if s[i + 1] == 36 {
        if dep && i + 2 < s.len() && s[i + 2] == 64 { cat(magic(seq![64u16]), exp(t, u, s, i + 3, dep)) }
        else if dep && i + 3 < s.len() && s[i + 2] == 40 && s[i + 3] == 64 { cat(magic(seq![40u16, 64u16]), exp(t, u, s, i + 4, dep)) }
        else { cat(seq![36u16], exp(t, u, s, i + 2, dep)) }
    }
    else if uc_alnum(s[i + 1]) {
        let name = seq![s[i + 1]];
        match (if u.contains(name) { None } else if t.dom().contains(name) { exp(t, u.insert(name), t[name].value@, 0, dep) } else { Some(seq![]) }) {
            None => None,
            Some(v) => cat(v, exp(t, u, s, i + 2, dep)),
        }
    }
    else if fnm(s[i + 1]) { cat(magic(seq![s[i + 1]]), exp(t, u, s, i + 2, dep)) }
    else { None }
}
pub proof fn exp_step(t: Tab, u: Set<Str>, s: Str, i: int, dep: bool)
    requires t.dom().finite()
    ensures exp(t, u, s, i, dep) == exp1(t, u, s, i, dep)
{ reveal(exp); }
#[via_fn]
proof fn exp_decreases(t: Tab, u: Set<Str>, s: Str, i: int, dep: bool) {
    if 0 <= i < s.len() {
        lemma_find(s, 41, i + 2); lemma_name_end(s, i + 2);
        if i + 1 < s.len() {
            let name = if s[i + 1] == 40 { s.subrange(i + 2, name_end(s, i + 2)) } else { seq![s[i + 1]] };
            if t.dom().contains(name) && !u.contains(name) { lemma_less(t, u, name); }
            lemma_sub_close(s, name_end(s, i + 2) + 1, name_end(s, i + 2) + 1);
        }
    }
}
pub proof fn lemma_less(t: Tab, u: Set<Str>, n: Str)
    requires t.dom().finite(), t.dom().contains(n), !u.contains(n)
    ensures t.dom().difference(u.insert(n)).len() < t.dom().difference(u).len()
{
    assert(t.dom().difference(u.insert(n)) =~= t.dom().difference(u).remove(n));
}
pub proof fn lemma_find(s: Str, c: u16, i: int)
    requires 0 <= i
    ensures find_c(s, c, i) == -1 || i <= find_c(s, c, i) < s.len(),
        find_c(s, c, i) >= 0 ==> s[find_c(s, c, i)] == c && forall|k: int| i <= k < find_c(s, c, i) ==> s[k] != c,
        find_c(s, c, i) < 0 ==> forall|k: int| i <= k < s.len() ==> s[k] != c,
    decreases s.len() - i
{
    if i < s.len() && s[i] != c { lemma_find(s, c, i + 1); }
}
pub proof fn lemma_name_end(s: Str, i: int)
    requires 0 <= i
    ensures name_end(s, i) == -1 || i <= name_end(s, i) < s.len(), name_end(s, i) >= 0 ==> s[name_end(s, i)] == 58 || s[name_end(s, i)] == 41,
    decreases s.len() - i
{
    if i < s.len() && s[i] != 58 && s[i] != 41 { lemma_name_end(s, i + 1); }
}
pub proof fn lemma_sub_close(s: Str, k0: int, k: int)
    requires 0 <= k
    ensures sub_close(s, k0, k) == -1 || k <= sub_close(s, k0, k) < s.len()
    decreases s.len() - k
{
    if k < s.len() && !(s[k] == 41 && !(k > k0 && s[k - 1] == 94)) { lemma_sub_close(s, k0, k + 1); }
}
pub proof fn lemma_cat(a: Str, b: Str, o: Option<Str>) ensures cat(a, cat(b, o)) == cat(a + b, o)
{ if o is Some { assert(a + (b + o->0) =~= a + b + o->0); } }
pub proof fn lemma_cat0(o: Option<Str>) ensures cat(seq![], o) == o
{ if o is Some { assert(Seq::<u16>::empty() + o->0 =~= o->0); } }
// removing the carets one by one from the right
pub open spec fn carets(s: Str, k0: int, e: int) -> Seq<i32> decreases e - k0 {
    if e <= k0 || k0 < 0 || e > s.len() { seq![] } else if s[e - 1] == 94 { carets(s, k0, e - 1).push((e - 1) as i32) } else { carets(s, k0, e - 1) }
}
pub proof fn lemma_carets(s: Str, k0: int, e: int)
    requires 0 <= k0 <= e <= s.len() <= i32::MAX
    ensures ({ let c = carets(s, k0, e);
        if c.len() == 0 { forall|k: int| k0 <= k < e ==> s[k] != 94 }
        else { let p = c.last() as int; k0 <= p < e && s[p] == 94 && (forall|k: int| p < k < e ==> s[k] != 94) && c.drop_last() =~= carets(s, k0, p) } })
    decreases e - k0
{ if e > k0 && s[e - 1] != 94 { lemma_carets(s, k0, e - 1); } }
pub proof fn lemma_nocaret_id(s: Str)
    requires forall|k: int| 0 <= k < s.len() ==> s[k] != 94
    ensures no_caret(s) =~= s
    decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { lemma_nocaret_id(s.drop_last()); assert(s =~= s.drop_last().push(s.last())); } }
// one removal step: the text up to k is as written, behind it the carets are gone already
pub proof fn lemma_caret_step(raw: Str, k: int, p: int)
    requires 0 <= p < k <= raw.len(), raw[p] == 94, forall|j: int| p < j < k ==> raw[j] != 94
    ensures raw.subrange(0, p) + raw.subrange(p + 1, k) + no_caret(raw.subrange(k, raw.len() as int)) =~= raw.subrange(0, p) + no_caret(raw.subrange(p, raw.len() as int))
{
    let n = raw.len() as int;
    Seq::filter_distributes_over_add(seq![94u16], raw.subrange(p + 1, n), |c: u16| c != 94);
    Seq::filter_distributes_over_add(raw.subrange(p + 1, k), raw.subrange(k, n), |c: u16| c != 94);
    assert(raw.subrange(p, n) =~= seq![94u16] + raw.subrange(p + 1, n));
    assert(raw.subrange(p + 1, n) =~= raw.subrange(p + 1, k) + raw.subrange(k, n));
    lemma_nocaret_id(raw.subrange(p + 1, k));
    assert(no_caret(seq![94u16]) =~= Seq::<u16>::empty()) by { reveal(Seq::filter); assert(seq![94u16].drop_last() =~= Seq::<u16>::empty()); reveal_with_fuel(Seq::filter, 2); }
}
//@fn MacroTable::macroValue
    ensures res@ =~= (if this.m_macros@.dom().contains(macroName@) { this.m_macros@[macroName@].value@ } else { Seq::<u16>::empty() })
//@entry
    proof { default_MacroTable_MacroData(); assert(qdefault::<MacroTable_MacroData>().value@ =~= seq![]); }
//@endfn
//@fn MacroTable::cycleCheckedMacroValue
//@flags throws
    ensures
        old(usedMacros)@.contains(macroName@) ==> res is Err,
        !old(usedMacros)@.contains(macroName@) ==> final(usedMacros)@ == old(usedMacros)@.insert(macroName@)
            && (res matches Ok(v) && v@ =~= (if this.m_macros@.dom().contains(macroName@) { this.m_macros@[macroName@].value@ } else { Seq::<u16>::empty() })),
//@endfn
//@fn MacroTable::applySubstitution
    ensures final(value)@ == qreplall(old(value)@, substitution.before@, substitution.after@)
//@endfn
//@fn MacroTable::parseSubstitutionStatement
//@flags throws
    requires 0 <= substitutionStartIdx <= str@.len()
    ensures ({ let c = sub_close(str@, substitutionStartIdx as int, substitutionStartIdx as int); let q = last_eq(str@, substitutionStartIdx as int, c);
        if c < 0 || q < 0 { res is Err }
        else { *final(macroInvokationEndIdx) == c && (res matches Ok(r) && r.before@ =~= str@.subrange(substitutionStartIdx as int, q) && r.after@ =~= no_caret(str@.subrange(q + 1, c))) } })
//@attr #[verifier::spinoff_prover]
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@loop 1
    invariant_except_break *macroInvokationEndIdx == -1, quoted == (i > substitutionStartIdx && str@[i - 1] == 94),
        sub_close(str@, substitutionStartIdx as int, substitutionStartIdx as int) == sub_close(str@, substitutionStartIdx as int, i as int),
    invariant substitutionStartIdx <= i <= str@.len(),
        equalsSignIdx == last_eq(str@, substitutionStartIdx as int, i as int),
        equalsSignIdx == -1 || substitutionStartIdx <= equalsSignIdx < i,
        equalsSignIdx >= 0 ==> quotePositions@ =~= carets(str@, equalsSignIdx + 1, i as int),
    ensures
        *macroInvokationEndIdx == sub_close(str@, substitutionStartIdx as int, substitutionStartIdx as int),
        *macroInvokationEndIdx >= 0 ==> *macroInvokationEndIdx == i,
    decreases str@.len() - i
//@loop 2
    invariant -1 <= i < quotePositions@.len(), 0 <= k <= raw.len(),
        result.before == before0,
        quotePositions@.subrange(0, i + 1) =~= carets(str@, equalsSignIdx + 1, equalsSignIdx + 1 + k),
        result.after@ =~= raw.subrange(0, k) + no_caret(raw.subrange(k, raw.len() as int)),
    decreases i + 1
//@after 2
    proof {
        let c = sub_close(str@, substitutionStartIdx as int, substitutionStartIdx as int); let q = last_eq(str@, substitutionStartIdx as int, c);
        assert(c == *macroInvokationEndIdx); assert(q == equalsSignIdx);
        assert(result.before@ =~= str@.subrange(substitutionStartIdx as int, q));
        assert(raw =~= str@.subrange(q + 1, c));
        lemma_carets(str@, q + 1, q + 1 + k);
        assert(quotePositions@.subrange(0, i + 1).len() == 0); lemma_nocaret_id(raw.subrange(0, k)); Seq::filter_distributes_over_add(raw.subrange(0, k), raw.subrange(k, raw.len() as int), |c: u16| c != 94); assert(raw =~= raw.subrange(0, k) + raw.subrange(k, raw.len() as int)); 
        assert(result.after@ == no_caret(raw));
    }
//@before 2
    let ghost raw = result.after@; let ghost mut k = raw.len() as int; let ghost before0 = result.before;
    proof { assert(raw.subrange(k, k) =~= Seq::<u16>::empty()); lemma_nocaret_id(raw.subrange(k, k)); assert(raw =~= str@.subrange(equalsSignIdx + 1, *macroInvokationEndIdx as int)); assert(quotePositions@.subrange(0, quotePositions@.len() as int) =~= quotePositions@); assert(raw.subrange(0, k) =~= raw); }
//@body 2
    let ghost after0 = result.after@; let ghost i0 = i as int;
    proof {
        let e0 = equalsSignIdx + 1;
        lemma_carets(str@, e0, e0 + k);
        {
            let c = carets(str@, e0, e0 + k);
            assert(c.last() == quotePositions@[i as int]);
            let p = c.last() - e0;
            lemma_caret_step(raw, k, p);
            assert(qremove(after0, p, 1) =~= raw.subrange(0, p) + raw.subrange(p + 1, k) + no_caret(raw.subrange(k, raw.len() as int)));
            assert(quotePositions@.subrange(0, i as int) =~= c.drop_last());
            k = p;
        }
    }
//@endfn
//@fn MacroTable::expandMacros(S,b,T)
//@flags throws
    ensures match res {
        Ok(r) => exp(this.m_macros@, old(usedMacros)@, str@, 0, inDependentsLine) == Some(r@) && final(usedMacros)@ =~= old(usedMacros)@,
        Err(_) => exp(this.m_macros@, old(usedMacros)@, str@, 0, inDependentsLine) is None,
    }
    decreases this.m_macros@.dom().difference(old(usedMacros)@).len(), str@.len()
//@attr #[verifier::rlimit(400)]
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@entry
    let ghost t = this.m_macros@; let ghost u = usedMacros@; let ghost s = str@; let ghost dep = inDependentsLine;
    proof {
        lemma_cat0(exp(t, u, s, 0, dep));
        assert forall|n: Str| !u.contains(n) implies (if t.dom().contains(n) { t.dom().difference(#[trigger] u.insert(n)).len() < t.dom().difference(u).len() }
            else { t.dom().difference(u.insert(n)).len() == t.dom().difference(u).len() }) by {
            if t.dom().contains(n) { lemma_less(t, u, n); } else { assert(t.dom().difference(u.insert(n)) =~= t.dom().difference(u)); }
        }
        assert forall|n: Str| !u.contains(n) implies (#[trigger] u.insert(n)).remove(n) =~= u by { }
    }
//@loop 1
    invariant 0 <= i <= s.len(), max_i == s.len() - 1, usedMacros@ =~= u, t.dom().finite(),
        appendStart == -1 || (0 <= appendStart && appendLength > 0 && appendStart + appendLength == i),
        appendStart == 0 ==> ret@.len() == 0, i == 0 ==> ret@.len() == 0 && appendStart == -1,
        ({ let pend = if appendStart == -1 { ret@ } else { ret@ + s.subrange(appendStart as int, i as int) };
           exp(t, u, s, 0, dep) == cat(pend, exp(t, u, s, i as int, dep)) }),
    decreases s.len() - i
//@after 1
    proof { exp_step(t, u, s, i as int, dep); assert(ret@ + Seq::<u16>::empty() =~= ret@); if appendStart == 0 { assert(s.subrange(0, s.len() as int) =~= s); } }
//@body 1
    let ghost i0 = i as int; let ghost pend0 = if appendStart == -1 { ret@ } else { ret@ + s.subrange(appendStart as int, i as int) };
    proof {
        exp_step(t, u, s, i0, dep);
        assert forall|n: Str| exp(t, #[trigger] u.insert(n), Seq::<u16>::empty(), 0, dep) == Some(Seq::<u16>::empty()) by { exp_step(t, u.insert(n), Seq::<u16>::empty(), 0, dep); }
        lemma_find(s, 41, i0 + 2); lemma_name_end(s, i0 + 2);
        if name_end(s, i0 + 2) >= 0 { lemma_sub_close(s, name_end(s, i0 + 2) + 1, name_end(s, i0 + 2) + 1); }
    }
//@end 1
    proof {
        let pend1 = if appendStart == -1 { ret@ } else { ret@ + s.subrange(appendStart as int, i as int) };
        let x = pend1.subrange(pend0.len() as int, pend1.len() as int);
        assert(pend1 =~= pend0 + x);
        if s[i0] != 36 || i0 + 1 == s.len() { assert(x =~= seq![s[i0]]); }
        assert(exp(t, u, s, i0, dep) == cat(x, exp(t, u, s, i as int, dep)));
        lemma_cat(pend0, x, exp(t, u, s, i as int, dep));
    }
//@post append 4
    proof { assert(ret@ =~= pend0 + magic(s.subrange(i0 + 1, macroInvokationEnd + 1))); }
//@post append 5
    proof { assert(ret@ =~= pend0 + macroValue@); }
//@post append 10
    proof { assert(ret@ =~= pend0 + macroValue@); }
//@loop 2
    invariant i + 1 <= macroInvokationEnd <= max_i + 1,
        !closingParenthesisFound,
        find_c(s, 41, i + 1) == find_c(s, 41, macroInvokationEnd as int),
        macroNameEnd == -1 ==> name_end(s, i + 1) == name_end(s, macroInvokationEnd as int),
        macroNameEnd == -1 || (i < macroNameEnd < macroInvokationEnd && name_end(s, i + 1) == macroNameEnd && s[macroNameEnd as int] == 58),
    decreases s.len() - macroInvokationEnd
//@endfn
//@fn MacroTable::expandMacros(S,b)
//@flags throws
    ensures match res {
        Ok(r) => exp(this.m_macros@, Set::empty(), str@, 0, inDependentsLine) == Some(r@),
        Err(_) => exp(this.m_macros@, Set::empty(), str@, 0, inDependentsLine) is None,
    }
//@endfn
