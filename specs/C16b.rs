//@sources src/jomlib/makefile.cpp src/jomlib/parser.cpp:removeDoubleQuotes
//@cfg
{'structs': ['Parser', 'Command'], 'heap': ['DescriptionBlock', 'Makefile', 'InferenceRule'], 'heap_new': {'DescriptionBlock.*': 'fresh_target()'},
 'fields': {'Command': ['m_commandLine'], 'Parser': ['m_makefile'], 'DescriptionBlock': ['m_dependents', 'm_commands', 'm_bInferenceRulesPreselected', 'm_inferenceRules', 'm_targetName'], 'Makefile': ['m_targets', 'm_firstTarget'], 'InferenceRule': ['m_priority']}}
//@endcfg
pub type DB = DescriptionBlock;
#[verifier::external_body]
pub fn fresh_target() -> (r: DescriptionBlock) ensures r.m_dependents@.len() == 0, r.m_commands@.len() == 0, !r.m_bInferenceRulesPreselected, r.m_inferenceRules@.len() == 0 { unimplemented!() }
pub open spec fn lookup(m: Map<Str, u64>, name: Str) -> u64 {
    let l = uc_lower(name); let s = subst_c(l, 47, 92);
    if m.dom().contains(l) && m[l] != 0 { m[l] } else if m.dom().contains(s) { m[s] } else { 0 }
}
// the rules that fit a name (unit C16: cand)
pub uninterp spec fn rules_for(ir: Map<u64, InferenceRule>, n: Str) -> Seq<u64>;
// how deep a target is in the graph of dependents (the cycle check has been passed, C07)
pub uninterp spec fn depth(t: u64) -> nat;
//@fn Makefile::target
//@flags heap
    requires this != 0, old(hp)@.Makefile.dom().contains(this)
    ensures final(hp)@ == old(hp)@, res == lookup(old(hp)@.Makefile[this].m_targets@, name@)
//@endfn
//@extern Parser::findRulesByTargetName
//@flags heap
    ensures *final(this) == *old(this), final(hp)@ == old(hp)@, res@ == rules_for(old(hp)@.InferenceRule, targetFilePath@)
//@endfn
//@inline removeDoubleQuotes
//@endfn
pub open spec fn deep(m: Map<Str, u64>, p: u64, d: Str) -> bool { let c = lookup(m, d); depth(p) > 0 && (c != 0 ==> depth(c) < depth(p)) }
pub open spec fn valid(h: HeapV, mk: u64) -> bool {
    mk != 0 && h.Makefile.dom().contains(mk)
    && (forall|n: Str| h.Makefile[mk].m_targets@.dom().contains(n) && #[trigger] h.Makefile[mk].m_targets@[n] != 0 ==> h.DescriptionBlock.dom().contains(h.Makefile[mk].m_targets@[n]))
    && (forall|p: u64| !h.DescriptionBlock.dom().contains(p) ==> #[trigger] depth(p) == 0)
    && (forall|p: u64, i: int| h.DescriptionBlock.dom().contains(p) && 0 <= i < h.DescriptionBlock[p].m_dependents@.len() ==> deep(h.Makefile[mk].m_targets@, p, #[trigger] h.DescriptionBlock[p].m_dependents@[i]))
}
pub open spec fn present(m: Map<Str, u64>, n: Str) -> bool { m.dom().contains(n) && m[n] != 0 }
pub open spec fn no_quote(d: Str) -> bool { d.len() == 0 || d[0] != 34 }
pub open spec fn plain(h: HeapV) -> bool { forall|p: u64, i: int| h.DescriptionBlock.dom().contains(p) && 0 <= i < h.DescriptionBlock[p].m_dependents@.len() ==> no_quote(#[trigger] h.DescriptionBlock[p].m_dependents@[i]) }
// what a target without commands is given
pub open spec fn sel(ir: Map<u64, InferenceRule>, b: DB) -> Seq<u64> { let r = rules_for(ir, b.m_targetName@); if b.m_commands@.len() == 0 && r.len() > 0 { r } else { b.m_inferenceRules@ } }
pub open spec fn made(ir: Map<u64, InferenceRule>, b: DB) -> bool { b.m_dependents@.len() == 0 && b.m_commands@.len() == 0 && b.m_inferenceRules@ == rules_for(ir, b.m_targetName@) && b.m_inferenceRules@.len() > 0 }
pub open spec fn step(h: HeapV, g: HeapV, mk: u64) -> bool {
    let m = h.Makefile[mk].m_targets@; let n = g.Makefile[mk].m_targets@;
    g.InferenceRule == h.InferenceRule && g.Makefile.dom() == h.Makefile.dom() && h.DescriptionBlock.dom().subset_of(g.DescriptionBlock.dom())
    && (forall|k: Str| #[trigger] present(m, k) ==> present(n, k) && n[k] == m[k])
    && (forall|k: Str| #[trigger] present(n, k) && !present(m, k) ==> !present(m, subst_c(k, 47, 92)) && !h.DescriptionBlock.dom().contains(n[k]))
    && (forall|p: u64| #[trigger] h.DescriptionBlock.dom().contains(p) ==> ({ let a = h.DescriptionBlock[p]; let b = g.DescriptionBlock[p];
        a.m_dependents == b.m_dependents && a.m_commands == b.m_commands && a.m_targetName == b.m_targetName && (a.m_bInferenceRulesPreselected ==> b.m_bInferenceRulesPreselected)
        && b.m_inferenceRules@ == (if a.m_bInferenceRulesPreselected == b.m_bInferenceRulesPreselected { a.m_inferenceRules@ } else { sel(h.InferenceRule, a) }) }))
    && (forall|p: u64| #[trigger] g.DescriptionBlock.dom().contains(p) && !h.DescriptionBlock.dom().contains(p) ==> made(h.InferenceRule, g.DescriptionBlock[p]))
}
// a target that has been looked at: each dependent has been looked at, or was made because a rule fits, or no rule fits it
pub open spec fn dep_ready(h: HeapV, mk: u64, d: Str) -> bool { let c = lookup(h.Makefile[mk].m_targets@, d);
    if c == 0 { rules_for(h.InferenceRule, d).len() == 0 } else { h.DescriptionBlock.dom().contains(c) && (h.DescriptionBlock[c].m_bInferenceRulesPreselected || made(h.InferenceRule, h.DescriptionBlock[c])) } }
pub open spec fn ready(h: HeapV, mk: u64, p: u64) -> bool { forall|i: int| 0 <= i < h.DescriptionBlock[p].m_dependents@.len() ==> dep_ready(h, mk, #[trigger] h.DescriptionBlock[p].m_dependents@[i]) }
pub open spec fn all_ready(h: HeapV, mk: u64) -> bool { forall|p: u64| h.DescriptionBlock.dom().contains(p) && #[trigger] h.DescriptionBlock[p].m_bInferenceRulesPreselected ==> ready(h, mk, p) }
pub proof fn step_trans(a: HeapV, b: HeapV, c: HeapV, mk: u64)
    requires step(a, b, mk), step(b, c, mk)
    ensures step(a, c, mk)
{
    let m = a.Makefile[mk].m_targets@; let n = b.Makefile[mk].m_targets@; let o = c.Makefile[mk].m_targets@;
    assert forall|k: Str| #[trigger] present(m, k) implies present(o, k) && o[k] == m[k] by { assert(present(n, k)); }
    assert forall|k: Str| #[trigger] present(o, k) && !present(m, k) implies !present(m, subst_c(k, 47, 92)) && !a.DescriptionBlock.dom().contains(o[k]) by {
        if present(n, k) { assert(o[k] == n[k]); } else { let s = subst_c(k, 47, 92); if present(m, s) { assert(present(n, s)); } if a.DescriptionBlock.dom().contains(o[k]) { assert(b.DescriptionBlock.dom().contains(o[k])); } } }
    assert forall|p: u64| #[trigger] a.DescriptionBlock.dom().contains(p) implies b.DescriptionBlock.dom().contains(p) by { }
    assert forall|p: u64| #[trigger] c.DescriptionBlock.dom().contains(p) && !a.DescriptionBlock.dom().contains(p) implies made(a.InferenceRule, c.DescriptionBlock[p]) by { if b.DescriptionBlock.dom().contains(p) { assert(made(a.InferenceRule, b.DescriptionBlock[p])); } }
}
pub proof fn same_lookup(h: HeapV, g: HeapV, mk: u64, d: Str)
    requires step(h, g, mk)
    ensures ({ let c = lookup(h.Makefile[mk].m_targets@, d); let e = lookup(g.Makefile[mk].m_targets@, d); (c != 0 ==> e == c) && (c == 0 && e != 0 ==> !h.DescriptionBlock.dom().contains(e)) })
{
    let m = h.Makefile[mk].m_targets@; let n = g.Makefile[mk].m_targets@; let l = uc_lower(d); let s = subst_c(l, 47, 92);
    if present(m, l) { } else { if present(n, l) { assert(!present(m, s)); } }
    if present(m, s) { } else if present(n, s) { }
}
pub proof fn keep_dep(h: HeapV, g: HeapV, mk: u64, d: Str)
    requires step(h, g, mk), valid(h, mk), valid(g, mk), dep_ready(h, mk, d)
    ensures dep_ready(g, mk, d)
{
    same_lookup(h, g, mk, d); let n = g.Makefile[mk].m_targets@; let e = lookup(n, d); let l = uc_lower(d); let s = subst_c(l, 47, 92);
    if e != 0 { if present(n, l) { assert(n[l] == e); assert(g.DescriptionBlock.dom().contains(n[l])); } else { assert(present(n, s)); assert(g.DescriptionBlock.dom().contains(n[s])); } }
}
pub proof fn keep_ready(h: HeapV, g: HeapV, mk: u64, p: u64)
    requires step(h, g, mk), valid(h, mk), valid(g, mk), h.DescriptionBlock.dom().contains(p), ready(h, mk, p)
    ensures ready(g, mk, p)
{ let d = h.DescriptionBlock[p].m_dependents@; assert(g.DescriptionBlock[p].m_dependents == h.DescriptionBlock[p].m_dependents);
  assert forall|i: int| 0 <= i < d.len() implies dep_ready(g, mk, #[trigger] d[i]) by { keep_dep(h, g, mk, d[i]); } }
pub proof fn still_valid(h: HeapV, g: HeapV, mk: u64)
    requires step(h, g, mk), valid(h, mk), plain(h), forall|n: Str| g.Makefile[mk].m_targets@.dom().contains(n) && #[trigger] g.Makefile[mk].m_targets@[n] != 0 ==> g.DescriptionBlock.dom().contains(g.Makefile[mk].m_targets@[n])
    ensures valid(g, mk), plain(g)
{
    assert forall|p: u64| !g.DescriptionBlock.dom().contains(p) implies #[trigger] depth(p) == 0 by { assert(!h.DescriptionBlock.dom().contains(p)); }
    assert forall|p: u64, i: int| g.DescriptionBlock.dom().contains(p) && 0 <= i < g.DescriptionBlock[p].m_dependents@.len() implies deep(g.Makefile[mk].m_targets@, p, #[trigger] g.DescriptionBlock[p].m_dependents@[i]) by {
        assert(h.DescriptionBlock.dom().contains(p)); let d = h.DescriptionBlock[p].m_dependents@[i]; same_lookup(h, g, mk, d); }
    assert forall|p: u64, i: int| g.DescriptionBlock.dom().contains(p) && 0 <= i < g.DescriptionBlock[p].m_dependents@.len() implies no_quote(#[trigger] g.DescriptionBlock[p].m_dependents@[i]) by { assert(h.DescriptionBlock.dom().contains(p)); }
    assert(plain(g));
 assert(g.Makefile.dom().contains(mk));
 assert(valid(g, mk));
}
//@fn DescriptionBlock::setTargetName
//@flags heap
    requires this != 0, old(hp)@.DescriptionBlock.dom().contains(this)
    ensures ({ let h = old(hp)@; let g = final(hp)@; let b = g.DescriptionBlock[this]; g == (HeapV { DescriptionBlock: h.DescriptionBlock.insert(this, b), ..h }) && b.m_targetName@ == name@ && b == (DescriptionBlock { m_targetName: b.m_targetName, ..h.DescriptionBlock[this] }) })
//@endfn
//@fn Makefile::append
//@flags heap
    requires this != 0, target != 0, old(hp)@.Makefile.dom().contains(this), old(hp)@.DescriptionBlock.dom().contains(target)
    ensures ({ let h = old(hp)@; let g = final(hp)@; g.DescriptionBlock == h.DescriptionBlock && g.InferenceRule == h.InferenceRule && g.Makefile.dom() == h.Makefile.dom() && g.Makefile[this].m_targets@ == h.Makefile[this].m_targets@.insert(uc_lower(h.DescriptionBlock[target].m_targetName@), target) })
//@exit
    proof { assert(hp@.Makefile.dom() =~= old(hp)@.Makefile.dom()); }
//@endfn
//@fn Parser::createTarget
//@flags heap
    requires old(this).m_makefile != 0, old(hp)@.Makefile.dom().contains(old(this).m_makefile)
    ensures *final(this) == *old(this), ({ let mk = old(this).m_makefile; let h = old(hp)@; let g = final(hp)@; let b = g.DescriptionBlock[res];
        res != 0 && !h.DescriptionBlock.dom().contains(res) && g.DescriptionBlock == h.DescriptionBlock.insert(res, b) && g.InferenceRule == h.InferenceRule && g.Makefile.dom() == h.Makefile.dom()
        && g.Makefile[mk].m_targets@ == h.Makefile[mk].m_targets@.insert(uc_lower(targetName@), res)
        && b.m_targetName@ == targetName@ && b.m_dependents@.len() == 0 && b.m_commands@.len() == 0 && !b.m_bInferenceRulesPreselected && b.m_inferenceRules@.len() == 0 })
//@exit
    proof { assert(hp@.DescriptionBlock =~= old(hp)@.DescriptionBlock.insert(target, hp@.DescriptionBlock[target])); }
//@endfn
// rules of the target itself are chosen before its dependents are looked at, the mark is set afterwards
pub open spec fn marked(h: HeapV, t: u64) -> HeapV { HeapV { DescriptionBlock: h.DescriptionBlock.insert(t, DescriptionBlock { m_bInferenceRulesPreselected: true, ..h.DescriptionBlock[t] }), ..h } }
pub open spec fn chosen(h: HeapV, h1: HeapV, t: u64) -> bool { let a = h.DescriptionBlock[t]; let b = h1.DescriptionBlock[t];
    h1 == (HeapV { DescriptionBlock: h.DescriptionBlock.insert(t, b), ..h }) && a.m_dependents == b.m_dependents && a.m_commands == b.m_commands && a.m_targetName == b.m_targetName && !a.m_bInferenceRulesPreselected && !b.m_bInferenceRulesPreselected && b.m_inferenceRules@ == sel(h.InferenceRule, a) }
pub proof fn wrap(h: HeapV, h1: HeapV, h3: HeapV, mk: u64, t: u64)
    requires h.DescriptionBlock.dom().contains(t), chosen(h, h1, t), step(h1, h3, mk)
    ensures step(h, marked(h3, t), mk), step(h3, marked(h3, t), mk), marked(h3, t).DescriptionBlock.dom() == h3.DescriptionBlock.dom()
{
    let m1 = marked(h1, t); let g = marked(h3, t);
    assert(h1.DescriptionBlock.dom() =~= h.DescriptionBlock.dom()); assert(h1.DescriptionBlock.dom().contains(t)); assert(h3.DescriptionBlock.dom().contains(t)); assert(g.DescriptionBlock.dom() =~= h3.DescriptionBlock.dom());
    assert(sel(h.InferenceRule, h1.DescriptionBlock[t]) == h1.DescriptionBlock[t].m_inferenceRules@);
    assert(g.DescriptionBlock[t].m_inferenceRules@ == h1.DescriptionBlock[t].m_inferenceRules@);
    assert forall|p: u64| #[trigger] h.DescriptionBlock.dom().contains(p) && p != t implies h.DescriptionBlock[p] == h1.DescriptionBlock[p] && g.DescriptionBlock[p] == h3.DescriptionBlock[p] by { assert(h1.DescriptionBlock.dom().contains(p)); }
    assert forall|p: u64| #[trigger] g.DescriptionBlock.dom().contains(p) && !h.DescriptionBlock.dom().contains(p) implies made(h.InferenceRule, g.DescriptionBlock[p]) by { assert(h3.DescriptionBlock.dom().contains(p)); assert(!h1.DescriptionBlock.dom().contains(p)); }
}
pub proof fn keep_all(h: HeapV, g: HeapV, mk: u64)
    requires step(h, g, mk), valid(h, mk), valid(g, mk), all_ready(h, mk), forall|p: u64| #[trigger] g.DescriptionBlock.dom().contains(p) && g.DescriptionBlock[p].m_bInferenceRulesPreselected ==> h.DescriptionBlock.dom().contains(p) && h.DescriptionBlock[p].m_bInferenceRulesPreselected
    ensures all_ready(g, mk)
{ assert forall|p: u64| g.DescriptionBlock.dom().contains(p) && #[trigger] g.DescriptionBlock[p].m_bInferenceRulesPreselected implies ready(g, mk, p) by { assert(ready(h, mk, p)); keep_ready(h, g, mk, p); } }
pub proof fn step_refl(h: HeapV, mk: u64) ensures step(h, h, mk) { }
pub proof fn keep_chosen(h: HeapV, g: HeapV, mk: u64, t: u64)
    requires t != 0, chosen(h, g, t), valid(h, mk), plain(h), all_ready(h, mk), h.DescriptionBlock.dom().contains(t)
    ensures valid(g, mk), plain(g), all_ready(g, mk)
{
    let m = h.Makefile[mk].m_targets@; assert(g.DescriptionBlock.dom() =~= h.DescriptionBlock.dom());
    assert forall|p: u64| h.DescriptionBlock.dom().contains(p) implies (#[trigger] g.DescriptionBlock[p]).m_dependents == h.DescriptionBlock[p].m_dependents by { }
    assert forall|p: u64| g.DescriptionBlock.dom().contains(p) && #[trigger] g.DescriptionBlock[p].m_bInferenceRulesPreselected implies ready(g, mk, p) by {
        assert(ready(h, mk, p)); let d = h.DescriptionBlock[p].m_dependents@;
        assert forall|i: int| 0 <= i < d.len() implies dep_ready(g, mk, #[trigger] d[i]) by { assert(dep_ready(h, mk, d[i])); let c = lookup(m, d[i]);
            if c == t { assert(!h.DescriptionBlock[t].m_bInferenceRulesPreselected); assert(made(h.InferenceRule, h.DescriptionBlock[t])); } } }
}
pub proof fn made_one(h: HeapV, g: HeapV, mk: u64, n: Str, t: u64)
    requires valid(h, mk), plain(h), all_ready(h, mk), lookup(h.Makefile[mk].m_targets@, n) == 0, t != 0, !h.DescriptionBlock.dom().contains(t),
        g.DescriptionBlock == h.DescriptionBlock.insert(t, g.DescriptionBlock[t]), g.InferenceRule == h.InferenceRule, g.Makefile.dom() == h.Makefile.dom(),
        g.Makefile[mk].m_targets@ == h.Makefile[mk].m_targets@.insert(uc_lower(n), t), g.DescriptionBlock[t].m_targetName@ == n, made(h.InferenceRule, g.DescriptionBlock[t]), !g.DescriptionBlock[t].m_bInferenceRulesPreselected
    ensures step(h, g, mk), valid(g, mk), plain(g), all_ready(g, mk), dep_ready(g, mk, n)
{
    let m = h.Makefile[mk].m_targets@; let o = g.Makefile[mk].m_targets@; let l = uc_lower(n);
    assert(!present(m, l)); assert(!present(m, subst_c(l, 47, 92)));
    assert forall|k: Str| #[trigger] present(o, k) && !present(m, k) implies k == l by { }
    assert(step(h, g, mk));
    assert forall|k: Str| o.dom().contains(k) && #[trigger] o[k] != 0 implies g.DescriptionBlock.dom().contains(o[k]) by { if k != l { assert(o[k] == m[k]); assert(h.DescriptionBlock.dom().contains(m[k])); } }
    still_valid(h, g, mk); keep_all(h, g, mk);
}
//@fn Parser::preselectInferenceRules
//@flags heap
    requires target != 0, old(hp)@.DescriptionBlock.dom().contains(target), valid(old(hp)@, old(this).m_makefile), plain(old(hp)@), all_ready(old(hp)@, old(this).m_makefile)
    ensures *final(this) == *old(this), step(old(hp)@, final(hp)@, old(this).m_makefile), valid(final(hp)@, old(this).m_makefile), plain(final(hp)@), all_ready(final(hp)@, old(this).m_makefile), final(hp)@.DescriptionBlock[target].m_bInferenceRulesPreselected
    decreases depth(target)
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost h0 = hp@; let ghost mk = this.m_makefile; let ghost d = h0.DescriptionBlock[target].m_dependents@; let ghost mut k: int = 0; let ghost mut h3 = h0; let ghost mut fin = false;
    proof { step_refl(h0, mk); }
//@before 1
    let ghost h1 = hp@;
    proof { assert(h0.DescriptionBlock =~= h0.DescriptionBlock.insert(target, h0.DescriptionBlock[target])); assert(chosen(h0, h1, target)); assert(h1.DescriptionBlock.dom() =~= h0.DescriptionBlock.dom());
        keep_chosen(h0, h1, mk, target); step_refl(h1, mk); }
//@loop 1
    invariant 0 <= k <= d.len(), fe1_c@ == d, fe1_i == k, *this == *old(this), chosen(h0, h1, target), step(h1, hp@, mk), valid(hp@, mk), plain(hp@), all_ready(hp@, mk), forall|j: int| 0 <= j < k ==> dep_ready(hp@, mk, #[trigger] d[j]),
    decreases d.len() - k
//@body 1
    let ghost h2 = hp@; let ghost n = d[k];
    proof { assert(h2.DescriptionBlock.dom().contains(target)); assert(h2.DescriptionBlock[target].m_dependents@ == d); assert(no_quote(h2.DescriptionBlock[target].m_dependents@[k])); }
//@end 1
    proof {
        let h4 = hp@; 
        if lookup(h2.Makefile[mk].m_targets@, n) == 0 && rules_for(h2.InferenceRule, n).len() > 0 { assert(h4.DescriptionBlock =~= h2.DescriptionBlock.insert(dependent, h4.DescriptionBlock[dependent])); made_one(h2, h4, mk, n, dependent); } else if lookup(h2.Makefile[mk].m_targets@, n) == 0 { step_refl(h2, mk); }
        assert(step(h2, h4, mk)); assert(valid(h4, mk)); assert(all_ready(h4, mk));
        same_lookup(h2, h4, mk, n); assert(dep_ready(h4, mk, n));
        assert forall|j: int| 0 <= j < k implies dep_ready(h4, mk, #[trigger] d[j]) by { keep_dep(h2, h4, mk, d[j]); }
        step_trans(h1, h2, h4, mk); k = k + 1;
    }
//@after 1
    proof { h3 = hp@; fin = true; assert(k == d.len()); wrap(h0, h1, h3, mk, target); still_valid(h3, marked(h3, target), mk); assert(ready(h3, mk, target)); keep_ready(h3, marked(h3, target), mk, target);
        let g = marked(h3, target); assert forall|p: u64| g.DescriptionBlock.dom().contains(p) && #[trigger] g.DescriptionBlock[p].m_bInferenceRulesPreselected implies ready(g, mk, p) by { if p != target { assert(ready(h3, mk, p)); keep_ready(h3, g, mk, p); } } }
//@exit
    proof { if fin { assert(hp@ == marked(h3, target)); } }
//@endfn
