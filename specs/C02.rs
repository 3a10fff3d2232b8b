//@sources src/jomlib/macrotable.cpp
//@use C01
//@cfg
{'structs': ['MacroTable', 'MacroTable::MacroData', 'MacroTable::Substitution'], 'fields': {'MacroTable': ['m_macros', 'm_environment']}, 'exceptions': {'Exception': 'QString', 'FileException': ''},
 'eptr': {'MacroTable::MacroData': {'key': 'QString', 'container': 'this.m_macros'}, 'MacroData': {'key': 'QString', 'container': 'this.m_macros'}}}
//@endcfg
pub type Env = Map<Str, Str>;
pub uninterp spec fn name_ok(n: Str) -> bool;       // ([A-Z]|_|)(\w|\.)+ without regard to case
pub open spec fn ex(t: Tab, s: Str) -> Option<Str> { exp(t, Set::empty(), s, 0, false) }
pub open spec fn val(t: Tab, n: Str) -> Str { if t.dom().contains(n) { t[n].value@ } else { seq![] } }
pub open spec fn read_only(t: Tab, n: Str) -> bool { t.dom().contains(n) && t[n].isReadOnly }
pub open spec fn invoke(n: Str) -> Str { seq![36u16, 40u16] + n + seq![41u16] }
// the number of dollar signs right before i
pub open spec fn dollars(s: Str, from: int, i: int) -> int decreases i - from { if from < 0 || i <= from || i > s.len() || s[i - 1] != 36 { 0 } else { 1 + dollars(s, from, i - 1) } }
// where the text p occurs next without being part of an escaped dollar sign as in $$(NAME)
pub open spec fn next_inv(s: Str, p: Str, from: int, i: int) -> int decreases s.len() - i {
    let k = find_s(s, p, i);
    if k < i || i < 0 || p.len() == 0 || k + p.len() > s.len() { -1 } else if dollars(s, from, k) % 2 == 0 { k } else { next_inv(s, p, from, k + 1) }
}
// every $(NAME) of the new value stands for the old value
pub open spec fn with_old(v: Str, key: Str, old: Str, i: int) -> Str decreases v.len() - i when i >= 0 && key.len() > 0 {
    let k = next_inv(v, key, i, i);
    if k < i || k + key.len() > v.len() { v } else { with_old(v.subrange(0, k) + old + v.subrange(k + key.len(), v.len() as int), key, old, k + old.len()) }
}
pub proof fn lemma_find_s(s: Str, p: Str, i: int)
    requires i >= 0
    ensures find_s(s, p, i) == -1 || i <= find_s(s, p, i) <= s.len() - p.len()
    decreases s.len() - i
{ if i + p.len() <= s.len() && !(s.subrange(i, i + p.len()) =~= p) { lemma_find_s(s, p, i + 1); } }
pub proof fn lemma_next(s: Str, p: Str, from: int, i: int)
    requires i >= 0, p.len() > 0
    ensures next_inv(s, p, from, i) == -1 || i <= next_inv(s, p, from, i) <= s.len() - p.len()
    decreases s.len() - i
{ lemma_find_s(s, p, i); let k = find_s(s, p, i); if k >= i && dollars(s, from, k) % 2 != 0 { lemma_next(s, p, from, k + 1); } }
// ---- one definition
pub open spec fn new_value(t: Tab, n: Str, v: Str) -> Str { with_old(v, invoke(n), val(t, n), 0) }
// t2 is t where n has got the value v (unless it is read-only), the source src and the mark ro
pub open spec fn put(t: Tab, t2: Tab, n: Str, v: Str, src: int, ro: bool) -> bool {
    t2.dom() =~= t.dom().insert(n) && (forall|m: Str| m != n && t.dom().contains(m) ==> #[trigger] t2[m] == t[m])
    && t2[n].value@ == v && t2[n].source == src && t2[n].isReadOnly == ro
}
pub open spec fn source_of(t: Tab, n: Str) -> int { if t.dom().contains(n) { t[n].source as int } else { 2 } }
// what an assignment in a makefile (2) or a predefinition (4) does
pub open spec fn assigned(t: Tab, t2: Tab, name: Str, v: Str, src: int) -> bool {
    ex(t, name) matches Some(n) && name_ok(n) && put(t, t2, n, if read_only(t, n) { val(t, n) } else { new_value(t, n, v) }, src, read_only(t, n))
}
//@inline replaceStringWithLazyValue
//@endfn
//@fn MacroTable::macroValue
    ensures res@ == val(this.m_macros@, macroName@)
//@entry
    proof { default_MacroTable_MacroData(); assert(qdefault::<MacroTable_MacroData>().value@ =~= seq![]); }
//@endfn
//@fn indexOfMacroInvocation
    requires from >= 0, invocation@.len() > 0
    ensures res == next_inv(str@, invocation@, from as int, from as int), res == -1 || from <= res <= str@.len() - invocation@.len()
//@entry
    proof { lemma_find_s(str@, invocation@, from as int); }
//@loop 1
    invariant from >= 0, invocation@.len() > 0, idx == -1 || from <= idx <= str@.len() - invocation@.len(),
        idx == -1 ==> next_inv(str@, invocation@, from as int, from as int) == -1,
        idx >= 0 ==> next_inv(str@, invocation@, from as int, from as int) == (if dollars(str@, from as int, idx as int) % 2 == 0 { idx as int } else { next_inv(str@, invocation@, from as int, idx + 1) }),
    ensures idx == next_inv(str@, invocation@, from as int, from as int),
    decreases (if idx < 0 { 0 } else { str@.len() - idx })
//@loop 2
    invariant from <= i <= idx <= str@.len(), from >= 0, idx - i + dollars(str@, from as int, i as int) == dollars(str@, from as int, idx as int),
    ensures idx - i == dollars(str@, from as int, idx as int),
    decreases i
//@end 1
    proof { lemma_find_s(str@, invocation@, i0 + 1); lemma_next(str@, invocation@, from as int, i0 + 1); }
//@body 1
    let ghost i0 = idx as int;
//@endfn
//@extern MacroTable::isMacroNameValid
    ensures res == name_ok(name@)
//@endfn
//@fn MacroTable::setEnvironmentVariable
    ensures final(this).m_environment@ == old(this).m_environment@.insert(name@, value@), final(this).m_macros == old(this).m_macros
//@endfn
//@fn MacroTable::internalSetMacroValue
//@flags throws
    ensures final(this).m_environment == old(this).m_environment, ({
        let t = old(this).m_macros@; let t2 = final(this).m_macros@; let n = ex(t, name@);
        (res is Err ==> n is None && *final(this) == *old(this))
        && (res matches Ok(p) ==> n is Some && (p.nn <==> name_ok(n->0))
            && (!p.nn ==> *final(this) == *old(this))
            && (p.nn ==> p.key@ == n->0 && put(t, t2, n->0, if ignoreReadOnly || !read_only(t, n->0) { new_value(t, n->0, value@) } else { val(t, n->0) }, source_of(t, n->0), read_only(t, n->0))))
    })
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@entry
    proof { default_MacroTable_MacroData(); assert(qdefault::<MacroTable_MacroData>().value@ =~= seq![]); }
    let ghost t0 = this.m_macros@;
//@call indexOfMacroInvocation 1
    let ghost n0 = ex(t0, name@)->0;
    proof { reveal(with_old); assert(instantiatedName@ =~= invoke(n0)); lemma_next(newValue@, instantiatedName@, 0, 0); }
//@loop 1
    invariant_except_break 0 <= idx,
    invariant *this == *old(this), idx == -1 || idx + searchString@.len() <= newValue@.len(),
        idx >= 0 ==> new_value(t0, n0, value@) == with_old(newValue@.subrange(0, idx as int) + oldValue@ + newValue@.subrange(idx + searchString@.len(), newValue@.len() as int), searchString@, oldValue@, idx + oldValue@.len()),
        idx == -1 ==> new_value(t0, n0, value@) == newValue@,
    ensures idx < 0, new_value(t0, n0, value@) == newValue@,
    decreases newValue@.len() - idx
//@end 1
    proof { reveal(with_old); }
//@endfn
//@fn MacroTable::setMacroValueImpl
//@flags throws
    requires source != 3
    ensures final(this).m_environment == old(this).m_environment, 
        res is Ok ==> assigned(old(this).m_macros@, final(this).m_macros@, name@, value@, source as int),
        res is Err ==> *final(this) == *old(this) && !(ex(old(this).m_macros@, name@) matches Some(n) && name_ok(n)),
//@endfn
//@fn MacroTable::setMacroValue(S,S)
//@flags throws
    ensures final(this).m_environment == old(this).m_environment, 
        res is Ok ==> assigned(old(this).m_macros@, final(this).m_macros@, name@, value@, 2),
        res is Err ==> *final(this) == *old(this) && !(ex(old(this).m_macros@, name@) matches Some(n) && name_ok(n)),
//@endfn
//@fn MacroTable::predefineValue(S,S)
//@flags throws
    ensures final(this).m_environment == old(this).m_environment, 
        res is Ok ==> assigned(old(this).m_macros@, final(this).m_macros@, name@, value@, 4),
        res is Err ==> *final(this) == *old(this),
//@endfn
//@fn MacroTable::undefineMacro
    ensures final(this).m_environment == old(this).m_environment, final(this).m_macros@ == old(this).m_macros@.remove(name@)
//@endfn
//@fn MacroTable::isMacroDefined
    ensures res == this.m_macros@.dom().contains(name@)
//@endfn

// ---- definitions from the command line and from the environment
//@fn MacroTable::defineCommandLineMacroValueImpl
//@flags throws
    ensures ({
        let t = old(this).m_macros@; let t2 = final(this).m_macros@; let e = old(this).m_environment@; let e2 = final(this).m_environment@;
        let n = ex(t, name@); let v = if n is Some && name_ok(n->0) { new_value(t, n->0, value@) } else { value@ };
        (n matches Some(m) ==> if name_ok(m) { put(t, t2, m, v, source as int, true) } else { t2 == t })
        && (n is None ==> *final(this) == *old(this) && res is Err)
        && (res is Ok ==> ex(t2, v) is Some && e2 == e.insert(name@, ex(t2, v)->0))
        && (res is Err ==> e2 == e && (n is Some ==> ex(t2, v) is None))
    })
//@endfn
pub open spec fn cmd_defined(p: MacroTable, q: MacroTable, name: Str, value: Str, src: int, ok: bool) -> bool {
    let t = p.m_macros@; let t2 = q.m_macros@; let e = p.m_environment@; let e2 = q.m_environment@;
    let n = ex(t, name); let v = if n is Some && name_ok(n->0) { new_value(t, n->0, value) } else { value };
    (n matches Some(m) ==> if name_ok(m) { put(t, t2, m, v, src, true) } else { t2 == t })
    && (n is None ==> q == p && !ok)
    && (ok ==> ex(t2, v) is Some && e2 == e.insert(name, ex(t2, v)->0))
    && (!ok ==> e2 == e && (n is Some ==> ex(t2, v) is None))
}
//@fn MacroTable::defineCommandLineMacroValue
//@flags throws
    ensures cmd_defined(*old(this), *final(this), name@, value@, 0, res is Ok)
//@endfn
//@fn MacroTable::defineImplicitCommandLineMacroValue
//@flags throws
    ensures cmd_defined(*old(this), *final(this), name@, value@, 1, res is Ok)
//@endfn
pub open spec fn env_defined(p: MacroTable, q: MacroTable, name: Str, value: Str, ro: bool, ok: bool) -> bool {
    let t = p.m_macros@; let t2 = q.m_macros@; let e = p.m_environment@; let e2 = q.m_environment@; let u = uc_upper(name);
    if t.dom().contains(u) {
        t2.dom() =~= t.dom() && (forall|m: Str| m != u && t.dom().contains(m) ==> #[trigger] t2[m] == t[m]) && t2[u].value@ == t[u].value@ && t2[u].isReadOnly == t[u].isReadOnly
        && (if t[u].source != 0 { t2[u] == t[u] && e2 == e && ok } else { t2[u].source == 3 && (ok ==> ex(t2, t[u].value@) is Some && e2 == e.insert(u, ex(t2, t[u].value@)->0)) && (!ok ==> e2 == e) })
    } else {
        let n = ex(t, u);
        (ex(t, value) is None ==> q == p && ok)
        && (ex(t, value) is Some && n is None ==> q == p && !ok)
        && (ex(t, value) is Some && n is Some && !name_ok(n->0) ==> q == p && ok)
        && (ex(t, value) is Some && n is Some && name_ok(n->0) ==> ok
            && put(t, t2, n->0, if read_only(t, n->0) { val(t, n->0) } else { new_value(t, n->0, value) }, 3, ro) && e2 == e.insert(u, ex(t, value)->0))
    }
}
//@fn MacroTable::defineEnvironmentMacroValue
//@flags throws
    ensures env_defined(*old(this), *final(this), name@, value@, readOnly, res is Ok)
//@endfn
// ---- histories: what any sequence of definitions does to a macro of the command line
pub enum Op { Set(Str, Str), Predefine(Str, Str), Undef(Str), Command(Str, Str), Implicit(Str, Str), Env(Str, Str, bool) }
pub open spec fn step(p: MacroTable, o: Op, q: MacroTable) -> bool {
    match o {
        Op::Set(n, v) => q.m_environment@ == p.m_environment@ && (assigned(p.m_macros@, q.m_macros@, n, v, 2) || q.m_macros@ == p.m_macros@),
        Op::Predefine(n, v) => q.m_environment@ == p.m_environment@ && (assigned(p.m_macros@, q.m_macros@, n, v, 4) || q.m_macros@ == p.m_macros@),
        Op::Undef(n) => q.m_environment@ == p.m_environment@ && q.m_macros@ == p.m_macros@.remove(n),
        Op::Command(n, v) => exists|ok: bool| cmd_defined(p, q, n, v, 0, ok),
        Op::Implicit(n, v) => exists|ok: bool| cmd_defined(p, q, n, v, 1, ok),
        Op::Env(n, v, ro) => exists|ok: bool| env_defined(p, q, n, v, ro, ok),
    }
}
// the operation is not another definition of n on the command line, nor an !UNDEF of it
pub open spec fn leaves(o: Op, t: Tab, n: Str) -> bool {
    match o { Op::Undef(m) => m != n, Op::Command(m, _) => ex(t, m) != Some(n), Op::Implicit(m, _) => ex(t, m) != Some(n), Op::Env(m, _, _) => ex(t, uc_upper(m)) == Some(uc_upper(m)), _ => true }
}
pub proof fn command_line_wins(s: Seq<MacroTable>, o: Seq<Op>, a: int, b: int, n: Str)
    requires 0 <= a <= b < s.len(), s.len() == o.len() + 1, forall|i: int| 0 <= i < o.len() ==> step(s[i], #[trigger] o[i], s[i + 1]),
        read_only(s[a].m_macros@, n), forall|i: int| a <= i < b ==> leaves(#[trigger] o[i], s[i].m_macros@, n),
    ensures read_only(s[b].m_macros@, n), val(s[b].m_macros@, n) == val(s[a].m_macros@, n),
    decreases b - a
{
    if a < b { command_line_wins(s, o, a, b - 1, n); assert(step(s[b - 1], o[b - 1], s[b - 1 + 1])); assert(leaves(o[b - 1], s[b - 1].m_macros@, n)); }
}
// a later valid assignment replaces what was assigned before
pub proof fn latest_wins(p: MacroTable, q: MacroTable, n: Str, v: Str)
    requires assigned(p.m_macros@, q.m_macros@, n, v, 2), !read_only(p.m_macros@, ex(p.m_macros@, n)->0)
    ensures val(q.m_macros@, ex(p.m_macros@, n)->0) == new_value(p.m_macros@, ex(p.m_macros@, n)->0, v)
{}
// the environment changes through definitions on the command line and environment variables only, and only at the defined name
pub proof fn environment_kept(p: MacroTable, o: Op, q: MacroTable, m: Str)
    requires step(p, o, q)
    ensures q.m_environment@ == p.m_environment@ || match o { Op::Command(n, _) => m == n || q.m_environment@.dom().contains(m) == p.m_environment@.dom().contains(m) && q.m_environment@[m] == p.m_environment@[m],
        Op::Implicit(n, _) => m == n || q.m_environment@.dom().contains(m) == p.m_environment@.dom().contains(m) && q.m_environment@[m] == p.m_environment@[m],
        Op::Env(n, _, _) => m == uc_upper(n) || q.m_environment@.dom().contains(m) == p.m_environment@.dom().contains(m) && q.m_environment@[m] == p.m_environment@[m], _ => false }
{}
