//@sources src/jomlib/makefile.cpp src/jomlib/parser.cpp:fileNameFromFilePath,removeDirSeparatorAtEnd,removeDoubleQuotes
//@use C13
//@cfg
{'structs': ['Command', 'InlineFile', 'Parser', 'MacroTable', 'Options'], 'heap': ['DescriptionBlock', 'Makefile', 'InferenceRule'], 'owned': ['InlineFile', 'MacroTable', 'Options'],
 'fields': {'MacroTable': ['m_environment'], 'Options': ['batchModeEnabled'], 'Parser': ['m_makefile', 'm_ruleIdxByToExtension'], 'DescriptionBlock': ['m_dependents', 'm_bFileExists', 'm_bInferenceRulesPreselected', 'm_inferenceRules', 'm_commands', 'm_targetName', 'm_pMakefile'], 'Makefile': ['m_targets', 'm_inferenceRules', 'm_macroTable', 'm_options', 'm_batchModeRules', 'm_batchModeTargets'], 'InferenceRule': ['m_batchMode', 'm_fromSearchPath', 'm_fromExtension', 'm_toSearchPath', 'm_toExtension', 'm_priority', 'm_commands']},
 'globals': {'fileNameMacroMagicEscape': ('0xfeffu16', 'QChar')}, 'exceptions': {'Exception': 'QString', 'FileException': ''}}
//@endcfg
pub type DB = DescriptionBlock;
pub type IR = InferenceRule;
pub open spec fn rules_ok(h: HeapV, s: Seq<u64>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != 0 && h.InferenceRule.dom().contains(s[i]) }
pub open spec fn prio(h: HeapV, r: u64) -> int { h.InferenceRule[r].m_priority as int }
// ---- macros in the commands of a rule
pub uninterp spec fn expanded(t: MacroTable, s: Str) -> Str;
//@extern MacroTable::expandMacros(S,b)
//@flags throws
    ensures (res matches Ok(v) ==> (!inDependentsLine ==> v@ == expanded(*this, str@)))
//@endfn
//@inline fileNameFromFilePath
//@endfn
//@inline removeDirSeparatorAtEnd
//@endfn
//@inline removeDoubleQuotes
//@endfn

// ---- .SUFFIXES: the priority of a rule is the position of its from-extension
pub open spec fn suffix_idx(sfx: Seq<Str>, e: Str, i: int) -> int decreases sfx.len() - i { if i < 0 || i >= sfx.len() { -1 } else if eq_nocase(e, sfx[i]) { i } else { suffix_idx(sfx, e, i + 1) } }
pub open spec fn with_prio(r: IR, sfx: Seq<Str>) -> IR { let k = suffix_idx(sfx, r.m_fromExtension@, 0); if k < 0 { r } else { InferenceRule { m_priority: k as i32, ..r } } }
//@fn Makefile::calculateInferenceRulePriorities
//@flags heap
    requires this != 0, old(hp)@.Makefile.dom().contains(this), rules_ok(old(hp)@, old(hp)@.Makefile[this].m_inferenceRules@),
    ensures final(hp)@ == (HeapV { InferenceRule: final(hp)@.InferenceRule, ..old(hp)@ }), final(hp)@.InferenceRule.dom() == old(hp)@.InferenceRule.dom(),
        forall|p: u64| #[trigger] final(hp)@.InferenceRule.dom().contains(p) ==> final(hp)@.InferenceRule[p] == (if old(hp)@.Makefile[this].m_inferenceRules@.contains(p) { with_prio(old(hp)@.InferenceRule[p], suffixes@) } else { old(hp)@.InferenceRule[p] }),
//@attr #[verifier::allow_complex_invariants]
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost h0 = hp@; let ghost rs = h0.Makefile[this].m_inferenceRules@; let ghost sfx = suffixes@;
    let ghost mut e: Str = Seq::empty(); let ghost mut h1 = h0;
//@loop 1
    invariant 0 <= it <= rs.len(), suffixes@ == sfx, hp@ == (HeapV { InferenceRule: hp@.InferenceRule, ..h0 }), hp@.InferenceRule.dom() == h0.InferenceRule.dom(),
        forall|p: u64| #[trigger] hp@.InferenceRule.dom().contains(p) ==> hp@.InferenceRule[p] == (if exists|j: int| 0 <= j < it && #[trigger] rs[j] == p { with_prio(h0.InferenceRule[p], sfx) } else { h0.InferenceRule[p] }),
    decreases rs.len() - it
//@body 1
    proof { h1 = hp@; assert(rs[it as int] != 0); }
//@loop 2
    invariant_except_break
        0 <= i <= sfx.len(), hp@ == h1, rule == rs[it as int], suffix_idx(sfx, h1.InferenceRule[rule].m_fromExtension@, 0) == suffix_idx(sfx, h1.InferenceRule[rule].m_fromExtension@, i as int),
    invariant suffixes@ == sfx
    ensures hp@ == (HeapV { InferenceRule: h1.InferenceRule.insert(rule, with_prio(h1.InferenceRule[rule], sfx)), ..h1 })
    decreases sfx.len() - i
//@after 2
    proof { let p = rule; assert(h1.InferenceRule.dom().contains(p));
        assert(with_prio(with_prio(h0.InferenceRule[p], sfx), sfx) == with_prio(h0.InferenceRule[p], sfx)); assert(rs[it as int] == p);
        assert(hp@.InferenceRule.dom() =~= h0.InferenceRule.dom()); }
//@after 1
    proof { assert forall|p: u64| rs.contains(p) implies exists|j: int| 0 <= j < rs.len() && #[trigger] rs[j] == p by { } }
//@endfn

// ---- the rules that fit the name of a target
pub open spec fn file_of(n: Str) -> Str { let a = rfind_c(n, 47, n.len() - 1); let b = rfind_c(n, 92, n.len() - 1); let k = if a < b { b } else { a }; if k == -1 { n } else { n.subrange(k + 1, n.len() as int) } }
pub open spec fn dir_of(n: Str) -> Str { let d = qleft(n, n.len() - file_of(n).len()); let e = if d.len() > 0 && (d.last() == 47 || d.last() == 92) { d.drop_last() } else { d }; if e.len() == 0 { seq![46u16] } else { e } }
pub open spec fn fits(h: HeapV, n: Str, r: u64) -> bool { prio(h, r) >= 0 && dir_of(n) == h.InferenceRule[r].m_toSearchPath@ }
pub open spec fn ext_fits(n: Str, e: Str) -> bool { e.len() <= n.len() && eq_nocase(qright(n, e.len() as int), e) }
pub open spec fn fitting(h: HeapV, n: Str, s: Seq<u64>, k: int) -> Seq<u64> decreases k { if k <= 0 || k > s.len() { Seq::empty() } else if fits(h, n, s[k - 1]) { fitting(h, n, s, k - 1).push(s[k - 1]) } else { fitting(h, n, s, k - 1) } }
pub open spec fn cand_k(h: HeapV, n: Str, x: Map<Str, Seq<u64>>, o: Seq<Str>, k: int) -> Seq<u64> decreases k { if k <= 0 || k > o.len() { Seq::empty() } else { let c = cand_k(h, n, x, o, k - 1); if ext_fits(n, o[k - 1]) { c + fitting(h, n, x[o[k - 1]], x[o[k - 1]].len() as int) } else { c } } }
pub open spec fn cand(h: HeapV, p: Parser, n: Str) -> Seq<u64> { cand_k(h, n, p.m_ruleIdxByToExtension@, p.m_ruleIdxByToExtension.order(), p.m_ruleIdxByToExtension.order().len() as int) }
pub open spec fn idx_ok(h: HeapV, p: Parser) -> bool { forall|e: Str| #[trigger] p.m_ruleIdxByToExtension@.dom().contains(e) ==> rules_ok(h, p.m_ruleIdxByToExtension@[e]) }
pub proof fn fitting_in(h: HeapV, n: Str, s: Seq<u64>, k: int, r: u64)
    requires 0 <= k <= s.len()
    ensures fitting(h, n, s, k).contains(r) <==> fits(h, n, r) && exists|i: int| 0 <= i < k && #[trigger] s[i] == r
    decreases k
{ if k > 0 { fitting_in(h, n, s, k - 1, r); let a = fitting(h, n, s, k - 1); let b = fitting(h, n, s, k);
    if fits(h, n, s[k - 1]) { assert(b == a.push(s[k - 1])); assert(b[a.len() as int] == s[k - 1]); if a.contains(r) { let i = choose|i: int| 0 <= i < a.len() && a[i] == r; assert(b[i] == r); } } } }
pub proof fn cand_in(h: HeapV, n: Str, x: Map<Str, Seq<u64>>, o: Seq<Str>, k: int, r: u64)
    requires 0 <= k <= o.len()
    ensures cand_k(h, n, x, o, k).contains(r) <==> fits(h, n, r) && exists|i: int| 0 <= i < k && ext_fits(n, #[trigger] o[i]) && x[o[i]].contains(r)
    decreases k
{ if k > 0 { cand_in(h, n, x, o, k - 1, r); let c = cand_k(h, n, x, o, k - 1); let e = o[k - 1]; let f = fitting(h, n, x[e], x[e].len() as int); fitting_in(h, n, x[e], x[e].len() as int, r);
    if ext_fits(n, e) { let b = c + f; assert(b == cand_k(h, n, x, o, k)); if c.contains(r) { let i = choose|i: int| 0 <= i < c.len() && c[i] == r; assert(b[i] == r); } if f.contains(r) { let i = choose|i: int| 0 <= i < f.len() && f[i] == r; assert(b[c.len() + i] == r); }
        if b.contains(r) { let i = choose|i: int| 0 <= i < b.len() && b[i] == r; if i < c.len() { assert(c[i] == r); } else { assert(f[i - c.len()] == r); } } } } }
pub proof fn rfind_max(s: Str, c: u16, i: int) ensures -1 <= rfind_c(s, c, i) <= i || rfind_c(s, c, i) == -1 decreases (if i < 0 { 0 } else { i + 1 }) { if 0 <= i < s.len() && s[i] != c { rfind_max(s, c, i - 1); } }
//@fn Parser::findRulesByTargetName
//@flags heap
    requires idx_ok(old(hp)@, *old(this)),
    ensures final(hp)@ == old(hp)@, *final(this) == *old(this), res@ == cand(old(hp)@, *old(this), targetFilePath@),
        // a rule fits if its extension ends the name (without case), it is listed in .SUFFIXES and its directory is the one of the name
        forall|r: u64| #[trigger] res@.contains(r) <==> fits(old(hp)@, targetFilePath@, r) && exists|e: Str| #[trigger] old(this).m_ruleIdxByToExtension@.dom().contains(e) && ext_fits(targetFilePath@, e) && old(this).m_ruleIdxByToExtension@[e].contains(r),
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost h0 = hp@; let ghost p0 = *this; let ghost n = targetFilePath@; let ghost x = p0.m_ruleIdxByToExtension@; let ghost o = p0.m_ruleIdxByToExtension.order();
    let ghost mut c0: Seq<u64> = Seq::empty(); let ghost mut s: Seq<u64> = Seq::empty();
//@loop 1
    invariant hp@ == h0, *this == p0, targetFilePath@ == n, !itEnd.nn, 0 <= it.pos@ <= o.len(), it.nn == (it.pos@ < o.len()), it.nn ==> it.key@ == o[it.pos@], rules@ == cand_k(h0, n, x, o, it.pos@),
        o.no_duplicates(), forall|k: Str| x.dom().contains(k) <==> #[trigger] o.contains(k),
    decreases o.len() - it.pos@
//@body 1
    proof { c0 = rules@; assert(o.contains(it.key@)); s = x[it.key@]; }
//@loop 2
    invariant hp@ == h0, *this == p0, targetFilePath@ == n, 0 <= fe2_i <= s.len(), fe2_c@ == s, rules@ == c0 + fitting(h0, n, s, fe2_i as int),
    decreases s.len() - fe2_i
//@body 2
    proof { assert(s[fe2_i as int] != 0); rfind_max(n, 47, n.len() - 1); rfind_max(n, 92, n.len() - 1); }
//@post append 1
    proof { assert(rules@ =~= c0 + fitting(h0, n, s, fe2_i + 1)); }
//@after 1
    proof {
        assert forall|r: u64| #[trigger] rules@.contains(r) <==> fits(h0, n, r) && exists|e: Str| #[trigger] x.dom().contains(e) && ext_fits(n, e) && x[e].contains(r) by {
            cand_in(h0, n, x, o, o.len() as int, r);
            if exists|i: int| 0 <= i < o.len() && ext_fits(n, #[trigger] o[i]) && x[o[i]].contains(r) { let i = choose|i: int| 0 <= i < o.len() && ext_fits(n, #[trigger] o[i]) && x[o[i]].contains(r); assert(o.contains(o[i])); assert(x.dom().contains(o[i])); }
            if exists|e: Str| #[trigger] x.dom().contains(e) && ext_fits(n, e) && x[e].contains(r) { let e = choose|e: Str| #[trigger] x.dom().contains(e) && ext_fits(n, e) && x[e].contains(r); assert(o.contains(e)); let i = choose|i: int| 0 <= i < o.len() && o[i] == e; assert(ext_fits(n, o[i])); }
        }
    }
//@endfn

// ---- of these, the rules whose source exists
pub open spec fn source_path(r: IR, name: Str) -> Str { let f = qfi_file(name); let n = r.m_toExtension@.len(); r.m_fromSearchPath@ + seq![dir_sep()] + qleft(f, if n > f.len() { 0 } else { f.len() - n }) + r.m_fromExtension@ }
pub open spec fn has_source(h: HeapV, mk: u64, r: u64, name: Str) -> bool {
    let f = source_path(h.InferenceRule[r], name); let m = h.Makefile[mk].m_targets@; let t = if m.dom().contains(f) { m[f] } else { 0 };
    (t != 0 && h.DescriptionBlock[t].m_bFileExists) || qfile_exists(f)
}
pub open spec fn with_source(h: HeapV, mk: u64, s: Seq<u64>, name: Str) -> Seq<u64> decreases s.len() { if s.len() == 0 { s } else { let a = with_source(h, mk, s.drop_last(), name); if has_source(h, mk, s.last(), name) { a.push(s.last()) } else { a } } }
pub open spec fn mk_ok(h: HeapV, mk: u64) -> bool { mk != 0 && h.Makefile.dom().contains(mk) && forall|n: Str| h.Makefile[mk].m_targets@.dom().contains(n) && #[trigger] h.Makefile[mk].m_targets@[n] != 0 ==> h.DescriptionBlock.dom().contains(h.Makefile[mk].m_targets@[n]) }
pub proof fn with_source_ok(h: HeapV, mk: u64, s: Seq<u64>, name: Str)
    ensures forall|r: u64| #[trigger] with_source(h, mk, s, name).contains(r) ==> s.contains(r) && has_source(h, mk, r, name),
        forall|r: u64| s.contains(r) && has_source(h, mk, r, name) ==> #[trigger] with_source(h, mk, s, name).contains(r),
        rules_ok(h, s) ==> rules_ok(h, with_source(h, mk, s, name)),
    decreases s.len()
{ if s.len() > 0 { with_source_ok(h, mk, s.drop_last(), name); let a = with_source(h, mk, s.drop_last(), name); let b = with_source(h, mk, s, name);
    assert(s.contains(s.last()));
    assert forall|r: u64| #[trigger] b.contains(r) implies s.contains(r) && has_source(h, mk, r, name) by { if a.contains(r) { assert(s.drop_last().contains(r)); } else { let i = choose|i: int| 0 <= i < b.len() && b[i] == r; if i < a.len() { assert(a[i] == r); } assert(r == s.last()); } }
    assert forall|r: u64| s.contains(r) && has_source(h, mk, r, name) implies #[trigger] b.contains(r) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == r; if i < s.len() - 1 { assert(s.drop_last()[i] == r); assert(a.contains(r)); let j = choose|j: int| 0 <= j < a.len() && a[j] == r; assert(b[j] == r); } else { assert(b[a.len() as int] == r); } }
    if rules_ok(h, s) { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]) != 0 && h.InferenceRule.dom().contains(b[i]) by { assert(b.contains(b[i])); } }
} }
//@fn Makefile::filterRulesByDependent
//@flags heap
    requires mk_ok(old(hp)@, this), rules_ok(old(hp)@, old(rules)@),
    ensures final(hp)@ == old(hp)@, final(rules)@ == with_source(old(hp)@, this, old(rules)@, targetName@),
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost h0 = hp@; let ghost s = rules@; let ghost nm = targetName@; let ghost mut k: int = 0; proof { axiom_qdefault(); }
//@loop 1
    invariant hp@ == h0, targetFileName@ == qfi_file(nm), 0 <= it <= k <= s.len(), it as int == with_source(h0, this, s.take(k), nm).len(), rules@ == with_source(h0, this, s.take(k), nm) + s.skip(k),
    decreases s.len() - k
//@body 1
    proof { assert(rules@[it as int] == s[k]); assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); assert(rules@.len() == it + s.len() - k); k = k + 1; }
//@end 1
    proof { assert(rules@ =~= with_source(h0, this, s.take(k), nm) + s.skip(k)); }
//@after 1
    proof { assert(k == s.len()); assert(s.take(k) =~= s); assert(rules@ =~= with_source(h0, this, s, nm)); }
//@endfn

// ---- of these, the one first in .SUFFIXES, and the last defined of several
pub open spec fn pick(h: HeapV, s: Seq<u64>) -> u64 decreases s.len() { if s.len() <= 1 { if s.len() == 1 { s[0] } else { 0 } } else { let b = pick(h, s.drop_last()); if prio(h, s.last()) > prio(h, b) { b } else { s.last() } } }
pub open spec fn before(h: HeapV) -> spec_fn(u64, u64) -> bool { |a: u64, b: u64| prio(h, a) > prio(h, b) }
#[verifier::external_body]
pub fn qfn_stable_sort_infRulesPriorityGreaterThan(hp: &Heap, s: QList<u64>) -> (r: QList<u64>) ensures r@ == stable_sorted(s@, before(hp@)) { unimplemented!() }
pub proof fn sort_last(h: HeapV, s: Seq<u64>)
    requires s.len() > 0
    ensures stable_sorted(s, before(h)).len() == s.len(), stable_sorted(s, before(h)).last() == pick(h, s), s.contains(pick(h, s)),
        forall|r: u64| #[trigger] s.contains(r) ==> prio(h, pick(h, s)) <= prio(h, r),
    decreases s.len()
{
    let d = s.drop_last(); let x = s.last(); let t = stable_sorted(d, before(h)); insert_last(h, t, x);
    if d.len() > 0 { sort_last(h, d); assert(d.contains(pick(h, d))); let j = choose|j: int| 0 <= j < d.len() && d[j] == pick(h, d); assert(s[j] == pick(h, d)); }
    assert(s[s.len() - 1] == x);
    assert forall|r: u64| #[trigger] s.contains(r) implies prio(h, pick(h, s)) <= prio(h, r) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == r; if i < d.len() { assert(d[i] == r); assert(d.contains(r)); } }
}
pub proof fn insert_last(h: HeapV, t: Seq<u64>, x: u64)
    ensures ({ let b = sort_insert(t, x, before(h)); b.len() == t.len() + 1 && b.last() == if t.len() > 0 && prio(h, x) > prio(h, t.last()) { t.last() } else { x } })
    decreases t.len()
{ if t.len() > 0 { insert_last(h, t.drop_last(), x); } }
//@fn infRulesPriorityGreaterThan
//@flags heap
    requires lhs != 0, rhs != 0, old(hp)@.InferenceRule.dom().contains(lhs), old(hp)@.InferenceRule.dom().contains(rhs),
    ensures final(hp)@ == old(hp)@, res == before(old(hp)@)(lhs, rhs),
//@endfn

// ---- applying a rule
pub open spec fn inferred(r: IR, name: Str) -> Str {
    let f = qfi_file(name); let n = r.m_toExtension@.len();
    let d = qleft(f, if n > f.len() { 0 } else { f.len() - n }) + r.m_fromExtension@;
    if r.m_fromSearchPath@ == @o"." { d } else { r.m_fromSearchPath@ + seq![dir_sep()] + d }
}
//@fn InferenceRule::inferredDependent
//@flags heap
    requires this != 0, old(hp)@.InferenceRule.dom().contains(this),
    ensures final(hp)@ == old(hp)@, res@ == inferred(old(hp)@.InferenceRule[this], targetName@),
//@exit
    proof { let r = hp@.InferenceRule[this]; let f = qfi_file(targetName@); let n = r.m_toExtension@.len();
        if n == 0 { assert(qleft(f, f.len() as int) == f); } }
//@endfn
pub open spec fn marker() -> Str { seq![0xfeffu16, 60u16] }
pub open spec fn filled(t: MacroTable, s: Str, dep: Str) -> Str { qreplall(expanded(t, s), marker(), dep) }
pub open spec fn file_done(t: MacroTable, dep: Str, a: InlineFile, b: InlineFile) -> bool { b.m_content@ == filled(t, a.m_content@, dep) && b == (InlineFile { m_content: b.m_content, ..a }) }
pub open spec fn cmd_done(t: MacroTable, dep: Str, a: Command, b: Command) -> bool {
    let m = mods(expanded(t, a.m_commandLine@), a.m_silent, a.m_singleExecution, a.m_maxExitCode);
    b.m_commandLine@ == qreplall(m.rest, marker(), dep) && b.m_silent == m.silent && b.m_singleExecution == m.single && b.m_maxExitCode == m.maxexit && files_done(t, dep, a.m_inlineFiles@, b.m_inlineFiles@)
}
pub open spec fn files_done(t: MacroTable, dep: Str, a: Seq<InlineFile>, b: Seq<InlineFile>) -> bool { b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> file_done(t, dep, a[i], #[trigger] b[i]) }
pub open spec fn add_once(d: Seq<Str>, x: Str) -> Seq<Str> { if d.contains(x) { d } else { d.push(x) } }
pub open spec fn only_target(h: HeapV, h2: HeapV, t: u64) -> bool { h2 == (HeapV { DescriptionBlock: h2.DescriptionBlock, ..h }) && h2.DescriptionBlock =~= h.DescriptionBlock.insert(t, h2.DescriptionBlock[t]) }
pub open spec fn blk_but(b: DB, c: DB) -> bool { c.m_targetName == b.m_targetName && c.m_pMakefile == b.m_pMakefile && c.m_bFileExists == b.m_bFileExists && c.m_bInferenceRulesPreselected == b.m_bInferenceRulesPreselected }
pub open spec fn applied(h: HeapV, t: MacroTable, r: IR, b: DB, c: DB) -> bool {
    let dep = inferred(r, b.m_targetName@);
    blk_but(b, c) && c.m_inferenceRules@.len() == 0 && c.m_dependents@ == add_once(b.m_dependents@, dep)
    && c.m_commands@.len() == r.m_commands@.len() && forall|i: int| 0 <= i < r.m_commands@.len() ==> cmd_done(t, dep, r.m_commands@[i], #[trigger] c.m_commands@[i])
}
// a batch rule is only noted
pub open spec fn noted(h: HeapV, h2: HeapV, mk: u64, t: u64, r: u64) -> bool {
    let a = h.Makefile[mk]; let b = h2.Makefile[mk];
    h2 == (HeapV { Makefile: h2.Makefile, ..h }) && h2.Makefile =~= h.Makefile.insert(mk, b) && b == (Makefile { m_batchModeRules: b.m_batchModeRules, m_batchModeTargets: b.m_batchModeTargets, ..a })
    && b.m_batchModeRules@ == a.m_batchModeRules@.insert(r) && b.m_batchModeTargets@ == a.m_batchModeTargets@.insert(r, (if a.m_batchModeTargets@.dom().contains(r) { a.m_batchModeTargets@[r] } else { Seq::empty() }).push(t))
}
pub open spec fn is_batch(h: HeapV, mk: u64, r: u64) -> bool { h.Makefile[mk].m_options.batchModeEnabled && h.InferenceRule[r].m_batchMode }
//@fn Makefile::applyInferenceRule(P,P,b)
//@flags heap throws
    requires this != 0, old(hp)@.Makefile.dom().contains(this), target != 0, old(hp)@.DescriptionBlock.dom().contains(target), rule != 0, old(hp)@.InferenceRule.dom().contains(rule),
    ensures !applyingBatchMode && is_batch(old(hp)@, this, rule) ==> res is Ok && noted(old(hp)@, final(hp)@, this, target, rule),
        !(!applyingBatchMode && is_batch(old(hp)@, this, rule)) ==> only_target(old(hp)@, final(hp)@, target) && (res is Ok ==> applied(old(hp)@, old(hp)@.Makefile[this].m_macroTable, old(hp)@.InferenceRule[rule], old(hp)@.DescriptionBlock[target], final(hp)@.DescriptionBlock[target])),
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost h0 = hp@; let ghost b0 = h0.DescriptionBlock[target]; let ghost mt = h0.Makefile[this].m_macroTable; let ghost r0 = h0.InferenceRule[rule]; let ghost dep = inferred(r0, b0.m_targetName@); let ghost src = r0.m_commands@;
    let ghost mut h1 = h0; let ghost mut done: Seq<Command> = Seq::empty();
//@before 1
    let ghost d1 = hp@.DescriptionBlock[target].m_dependents;
//@loop 1
    invariant 0 <= it <= src.len(), itEnd == src.len(), only_target(h0, hp@, target), fileNameMacroString@ == marker(), inferredDependent@ == dep,
        ({ let c = hp@.DescriptionBlock[target]; blk_but(b0, c) && c.m_inferenceRules@.len() == 0 && c.m_dependents == d1 && c.m_commands@.len() == src.len()
            && (forall|i: int| 0 <= i < it ==> cmd_done(mt, dep, src[i], #[trigger] c.m_commands@[i])) && (forall|i: int| it <= i < src.len() ==> src[i] == #[trigger] c.m_commands@[i]) }),
    decreases src.len() - it
//@loop 2
    invariant 0 <= fe2_i <= fe2_c@.len(), only_target(h0, hp@, target), fe2_c == src[it as int].m_inlineFiles,
        ({ let c = hp@.DescriptionBlock[target]; blk_but(b0, c) && c.m_inferenceRules@.len() == 0 && c.m_dependents == d1 && c.m_commands@.len() == src.len()
            && (forall|i: int| 0 <= i < it ==> cmd_done(mt, dep, src[i], #[trigger] c.m_commands@[i])) && (forall|i: int| it < i < src.len() ==> src[i] == #[trigger] c.m_commands@[i])
            && ({ let a = src[it as int]; let k = c.m_commands@[it as int]; k == (Command { m_inlineFiles: k.m_inlineFiles, ..a }) && k.m_inlineFiles@.len() == a.m_inlineFiles@.len()
              && (forall|i: int| 0 <= i < fe2_i ==> file_done(mt, dep, a.m_inlineFiles@[i], #[trigger] k.m_inlineFiles@[i])) && (forall|i: int| fe2_i <= i < a.m_inlineFiles@.len() ==> a.m_inlineFiles@[i] == #[trigger] k.m_inlineFiles@[i]) }) }),
    decreases fe2_c@.len() - fe2_i
//@endfn

//@fn Makefile::applyInferenceRules(P)
//@flags heap throws
    requires mk_ok(old(hp)@, this), target != 0, old(hp)@.DescriptionBlock.dom().contains(target), rules_ok(old(hp)@, old(hp)@.DescriptionBlock[target].m_inferenceRules@),
    ensures ({ let h = old(hp)@; let b = h.DescriptionBlock[target]; let c = with_source(h, this, b.m_inferenceRules@, b.m_targetName@); let r = pick(h, c);
        // no rule fits: the target stays as it is
        (c.len() == 0 ==> res is Ok && final(hp)@ == h)
        // else the rule first in .SUFFIXES (the last one of several) is applied
        && (c.len() > 0 ==> c.contains(r) && (forall|x: u64| #[trigger] c.contains(x) ==> prio(h, r) <= prio(h, x)) && h.InferenceRule.dom().contains(r)
            && if is_batch(h, this, r) { res is Ok && noted(HeapV { DescriptionBlock: final(hp)@.DescriptionBlock, ..h }, final(hp)@, this, target, r) && final(hp)@.DescriptionBlock =~= h.DescriptionBlock.insert(target, DescriptionBlock { m_inferenceRules: final(hp)@.DescriptionBlock[target].m_inferenceRules, ..b }) && final(hp)@.DescriptionBlock[target].m_inferenceRules@.len() == 0 }
               else { only_target(h, final(hp)@, target) && (res is Ok ==> applied(h, h.Makefile[this].m_macroTable, h.InferenceRule[r], b, final(hp)@.DescriptionBlock[target])) }) }),
//@entry
    let ghost h0 = hp@; let ghost b0 = h0.DescriptionBlock[target]; let ghost c = with_source(h0, this, b0.m_inferenceRules@, b0.m_targetName@); let ghost r = pick(h0, c);
    proof { with_source_ok(h0, this, b0.m_inferenceRules@, b0.m_targetName@); if c.len() > 0 { sort_last(h0, c); assert(c.contains(r)); } else { assert(stable_sorted(c, before(h0)) == c); } }
//@call applyInferenceRule 1
    proof { assert(matchingRule == r); }
//@endfn
