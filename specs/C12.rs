//@sources src/jomlib/dependencygraph.cpp src/jomlib/fastfileinfo.cpp src/jomlib/filetime.cpp src/jomlib/makefile.cpp
//@cfg
{'structs': ['FileTime', 'FastFileInfo', 'Command', 'DependencyGraph'], 'heap': ['DescriptionBlock', 'Makefile', 'InferenceRule'],
 'fields': {'FastFileInfo': [], 'DependencyGraph': [], 'Command': ['m_commandLine'], 'DescriptionBlock': ['m_dependents', 'm_timeStamp', 'm_bFileExists', 'm_inferenceRules', 'm_commands', 'm_targetName', 'm_pMakefile'], 'Makefile': ['m_targets'], 'InferenceRule': ['m_fromSearchPath', 'm_fromExtension', 'm_toExtension']},
 'ghost_fields': {'FastFileInfo': ['name: QString']}, 'value_ptrs': ['FILETIME'], 'types': {'FILETIME': 'quint64', 'InternalType': 'quint64', 'FileTime::InternalType': 'quint64'}}
//@endcfg
// ---- the files: what exists and when it was last written (0: not known)
pub uninterp spec fn fexists(name: Str) -> bool;
pub uninterp spec fn mtime(name: Str) -> u64;
pub uninterp spec fn is_now(t: u64) -> bool;
pub type DB = DescriptionBlock;
pub open spec fn lookup(m: Map<Str, u64>, name: Str) -> u64 {
    let l = uc_lower(name); let s = subst_c(l, 47, 92);
    if m.dom().contains(l) && m[l] != 0 { m[l] } else if m.dom().contains(s) { m[s] } else { 0 }
}
// the source an inference rule would make the target from
pub open spec fn inferred(r: InferenceRule, name: Str) -> Str {
    let f = qfi_file(name); let n = r.m_toExtension@.len();
    let d = qleft(f, if n > f.len() { 0 } else { f.len() - n }) + r.m_fromExtension@;
    if r.m_fromSearchPath@ == @o"." { d } else { r.m_fromSearchPath@ + seq![dir_sep()] + d }
}
pub open spec fn wf(h: HeapV, t: u64) -> bool {
    t != 0 && h.DescriptionBlock.dom().contains(t) && ({ let b = h.DescriptionBlock[t]; let m = h.Makefile[b.m_pMakefile].m_targets@;
        b.m_pMakefile != 0 && h.Makefile.dom().contains(b.m_pMakefile) && (forall|n: Str| m.dom().contains(n) && #[trigger] m[n] != 0 ==> h.DescriptionBlock.dom().contains(m[n]))
        && (forall|i: int| 0 <= i < b.m_inferenceRules@.len() ==> (#[trigger] b.m_inferenceRules@[i]) != 0 && h.InferenceRule.dom().contains(b.m_inferenceRules@[i])) })
}
pub open spec fn targets(h: HeapV, t: u64) -> Map<Str, u64> { h.Makefile[h.DescriptionBlock[t].m_pMakefile].m_targets@ }
// when a dependent was last written
pub open spec fn dep_time(h: HeapV, m: Map<Str, u64>, n: Str) -> u64 {
    let d = lookup(m, n); let ts = if d != 0 { h.DescriptionBlock[d].m_timeStamp.m_fileTime } else { 0 };
    if ts == 0 && fexists(n) { mtime(n) } else { ts }
}
// missing, or a pseudo target with commands
pub open spec fn missing(h: HeapV, m: Map<Str, u64>, n: Str) -> bool {
    let d = lookup(m, n); (d != 0 && !h.DescriptionBlock[d].m_bFileExists && h.DescriptionBlock[d].m_commands@.len() > 0) || dep_time(h, m, n) == 0
}
pub open spec fn not_newer(h: HeapV, t: u64, n: Str) -> bool { !missing(h, targets(h, t), n) && dep_time(h, targets(h, t), n) <= h.DescriptionBlock[t].m_timeStamp.m_fileTime }
// the target as the file system shows it
pub open spec fn seen(b: DB, c: DB) -> bool { c.m_bFileExists == (b.m_bFileExists || fexists(b.m_targetName@)) && c.m_timeStamp.m_fileTime == (if fexists(b.m_targetName@) { mtime(b.m_targetName@) } else { b.m_timeStamp.m_fileTime }) && same_but(b, c) }
pub open spec fn same_but(b: DB, c: DB) -> bool { c.m_targetName == b.m_targetName && c.m_pMakefile == b.m_pMakefile && c.m_commands == b.m_commands && c.m_dependents == b.m_dependents && c.m_inferenceRules == b.m_inferenceRules }
pub open spec fn at_seen(h: HeapV, t: u64, c: DB) -> HeapV { HeapV { DescriptionBlock: h.DescriptionBlock.insert(t, c), ..h } }
pub open spec fn old_ok(h: HeapV, t: u64) -> bool { forall|i: int| 0 <= i < h.DescriptionBlock[t].m_dependents@.len() ==> not_newer(h, t, #[trigger] h.DescriptionBlock[t].m_dependents@[i]) }
pub open spec fn new_ok(h: HeapV, t: u64) -> bool { let b = h.DescriptionBlock[t]; forall|i: int| 0 <= i < b.m_inferenceRules@.len() ==> ({ let f = inferred(h.InferenceRule[#[trigger] b.m_inferenceRules@[i]], b.m_targetName@); fexists(f) ==> not_newer(h, t, f) }) }
pub open spec fn up_to_date(h: HeapV, t: u64) -> bool { h.DescriptionBlock[t].m_bFileExists && old_ok(h, t) && new_ok(h, t) }
// the time a target without a file passes on: the latest of its dependents, or now if one of them is missing
pub open spec fn latest(h: HeapV, m: Map<Str, u64>, d: Seq<Str>, k: int) -> u64 decreases k {
    if k <= 0 || k > d.len() { 0 } else { let l = latest(h, m, d, k - 1); let x = dep_time(h, m, d[k - 1]); if l < x { x } else { l } }
}
pub proof fn latest_le(h: HeapV, m: Map<Str, u64>, d: Seq<Str>, k: int, x: u64)
    requires 0 <= k <= d.len()
    ensures latest(h, m, d, k) <= x <==> forall|i: int| 0 <= i < k ==> dep_time(h, m, #[trigger] d[i]) <= x
    decreases k
{ if k > 0 { latest_le(h, m, d, k - 1, x); } }
pub open spec fn any_missing(h: HeapV, m: Map<Str, u64>, d: Seq<Str>) -> bool { exists|i: int| 0 <= i < d.len() && missing(h, m, #[trigger] d[i]) }
pub open spec fn from_rule(h: HeapV, nm: Str, rules: Seq<u64>, n: int, f: Str) -> bool { exists|i: int| 0 <= i < n && i < rules.len() && inferred(h.InferenceRule[#[trigger] rules[i]], nm) == f && fexists(f) }
pub proof fn frame(h: HeapV, t: u64, c: DB, n: Str)
    requires ({ let s = h.DescriptionBlock[t]; c.m_bFileExists == s.m_bFileExists && c.m_timeStamp == s.m_timeStamp && c.m_commands == s.m_commands && c.m_pMakefile == s.m_pMakefile })
    ensures not_newer(at_seen(h, t, c), t, n) == not_newer(h, t, n)
{ let k = at_seen(h, t, c); let m = targets(h, t); assert(targets(k, t) == m); let d = lookup(m, n); if d == t { } else { assert(k.DescriptionBlock[d] == h.DescriptionBlock[d]); } }
pub proof fn with_new(h: HeapV, t: u64, c: DB)
    requires ({ let s = h.DescriptionBlock[t]; let d = s.m_dependents@; let e = c.m_dependents@; let rules = s.m_inferenceRules@; let nm = s.m_targetName@;
        c.m_bFileExists == s.m_bFileExists && c.m_timeStamp == s.m_timeStamp && c.m_commands == s.m_commands && c.m_pMakefile == s.m_pMakefile
        && d.len() <= e.len() && e.take(d.len() as int) =~= d && (forall|j: int| d.len() <= j < e.len() ==> from_rule(h, nm, rules, rules.len() as int, #[trigger] e[j]))
        && (forall|i: int| 0 <= i < rules.len() ==> ({ let f = inferred(h.InferenceRule[#[trigger] rules[i]], nm); fexists(f) ==> e.contains(f) })) })
    ensures old_ok(at_seen(h, t, c), t) == (old_ok(h, t) && new_ok(h, t))
{
    let k = at_seen(h, t, c); let s = h.DescriptionBlock[t]; let d = s.m_dependents@; let e = c.m_dependents@; let rules = s.m_inferenceRules@; let nm = s.m_targetName@;
    assert forall|n: Str| #[trigger] not_newer(k, t, n) == not_newer(h, t, n) by { frame(h, t, c, n); }
    assert(k.DescriptionBlock[t] == c);
    if old_ok(k, t) {
        assert forall|i: int| 0 <= i < d.len() implies not_newer(h, t, #[trigger] d[i]) by { assert(d[i] == e[i]); assert(not_newer(k, t, e[i])); }
        assert forall|i: int| 0 <= i < rules.len() implies ({ let f = inferred(h.InferenceRule[#[trigger] rules[i]], nm); fexists(f) ==> not_newer(h, t, f) }) by {
            let f = inferred(h.InferenceRule[rules[i]], nm); if fexists(f) { let j = choose|j: int| 0 <= j < e.len() && e[j] == f; assert(not_newer(k, t, e[j])); } }
    }
    if old_ok(h, t) && new_ok(h, t) {
        assert forall|i: int| 0 <= i < e.len() implies not_newer(k, t, #[trigger] e[i]) by {
            if i < d.len() { assert(e[i] == d[i]); assert(not_newer(h, t, d[i])); }
            else { assert(from_rule(h, nm, rules, rules.len() as int, e[i])); let r = choose|r: int| 0 <= r < rules.len() && inferred(h.InferenceRule[#[trigger] rules[r]], nm) == e[i] && fexists(e[i]); assert(not_newer(h, t, e[i])); } }
    }
}
//@extern FastFileInfo::FastFileInfo
    ensures final(this).name@ == fileName@
//@endfn
//@extern FastFileInfo::exists
    ensures res == fexists(this.name@)
//@endfn
//@extern FastFileInfo::lastModified
    ensures res.m_fileTime == mtime(this.name@)
//@endfn
//@fn FileTime::operator<
    ensures res == (this.m_fileTime < rhs.m_fileTime)
//@endfn
//@extern FileTime::currentTime
    ensures is_now(res.m_fileTime)
//@endfn
//@fn FileTime::operator==
    ensures res == (this.m_fileTime == rhs.m_fileTime)
//@endfn
//@fn FileTime::operator<=
    ensures res == (this.m_fileTime <= rhs.m_fileTime)
//@endfn
//@fn FileTime::isValid
    ensures res == (this.m_fileTime != 0)
//@endfn
//@fn FileTime::clear
    ensures final(this).m_fileTime == 0
//@endfn
//@fn InferenceRule::inferredDependent
//@flags heap
    requires this != 0, old(hp)@.InferenceRule.dom().contains(this)
    ensures final(hp)@ == old(hp)@, res@ =~= inferred(old(hp)@.InferenceRule[this], targetName@)
//@endfn
//@fn Makefile::target
//@flags heap
    requires this != 0, old(hp)@.Makefile.dom().contains(this)
    ensures final(hp)@ == old(hp)@, res == lookup(old(hp)@.Makefile[this].m_targets@, name@)
//@endfn
//@fn DependencyGraph::isTargetUpToDate
//@flags heap
    requires wf(old(hp)@, target)
    ensures final(hp)@ == (HeapV { DescriptionBlock: final(hp)@.DescriptionBlock, ..old(hp)@ }), final(hp)@.DescriptionBlock == old(hp)@.DescriptionBlock.insert(target, final(hp)@.DescriptionBlock[target]),
        ({
            let b = old(hp)@.DescriptionBlock[target]; let c = final(hp)@.DescriptionBlock[target]; let m = targets(old(hp)@, target); let d = b.m_dependents@;
            same_but(b, c) && forall|s: DB| #[trigger] seen(b, s) ==> ({ let h = at_seen(old(hp)@, target, s);
                res == up_to_date(h, target) && c.m_bFileExists == s.m_bFileExists
                && (res ==> c.m_timeStamp.m_fileTime == s.m_timeStamp.m_fileTime)
                && (!res && s.m_bFileExists ==> c.m_timeStamp.m_fileTime == 0)
                && (!s.m_bFileExists && d.len() > 0 ==> if any_missing(h, m, d) { is_now(c.m_timeStamp.m_fileTime) } else { c.m_timeStamp.m_fileTime == latest(h, m, d, d.len() as int) }) })
        })
    decreases old(hp)@.DescriptionBlock[target].m_inferenceRules@.len()
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@entry
    let ghost b = hp@.DescriptionBlock[target]; let ghost m = targets(hp@, target); let ghost d = b.m_dependents@; let ghost H = hp@;
//@call isEmpty 1
    let ghost h1 = hp@; let ghost s1 = hp@.DescriptionBlock[target];
    proof { assert(seen(b, s1)); }
//@loop 1
    invariant_except_break !dependentOutOfDate,
        latestDependentTime.m_fileTime == latest(h1, m, d, fe1_i as int),
        forall|i: int| 0 <= i < fe1_i ==> !missing(h1, m, #[trigger] d[i]),
    invariant hp@ == h1, 0 <= fe1_i <= fe1_c@.len(), fe1_c@ == d,
    ensures dependentOutOfDate == any_missing(h1, m, d), dependentOutOfDate ==> is_now(latestDependentTime.m_fileTime), !dependentOutOfDate ==> latestDependentTime.m_fileTime == latest(h1, m, d, d.len() as int),
    decreases fe1_c@.len() - fe1_i
//@after 1
    proof { latest_le(h1, m, d, d.len() as int, s1.m_timeStamp.m_fileTime); }
//@before 2
    let ghost h2 = hp@; let ghost rules = b.m_inferenceRules@; let ghost nm = b.m_targetName@;
    proof { assert(old_ok(h1, target)); assert(d =~= d + Seq::<Str>::empty()); }
//@loop 2
    invariant 0 <= fe2_i <= fe2_c@.len(), fe2_c@ == rules, savedRules == b.m_inferenceRules, savedDependents == b.m_dependents,
        ({ let c = hp@.DescriptionBlock[target]; let e = c.m_dependents@; hp@ == at_seen(h1, target, c) && c.m_targetName == b.m_targetName && c.m_pMakefile == b.m_pMakefile && c.m_commands == b.m_commands && c.m_bFileExists == s1.m_bFileExists && c.m_timeStamp == s1.m_timeStamp && c.m_inferenceRules@.len() == 0
            && d.len() <= e.len() && e.take(d.len() as int) =~= d && inferredDependentAdded == (e.len() > d.len())
            && (forall|j: int| d.len() <= j < e.len() ==> from_rule(h1, nm, rules, fe2_i as int, #[trigger] e[j]))
            && (forall|i: int| 0 <= i < fe2_i ==> ({ let f = inferred(h1.InferenceRule[#[trigger] rules[i]], nm); fexists(f) ==> e.contains(f) })) }),
    decreases fe2_c@.len() - fe2_i
//@body 2
    let ghost e0 = hp@.DescriptionBlock[target].m_dependents@;
//@end 2
    proof {
        let e = hp@.DescriptionBlock[target].m_dependents@; let f = inferred(h1.InferenceRule[rules[fe2_i as int]], nm);
        assert(hp@.DescriptionBlock =~= h1.DescriptionBlock.insert(target, hp@.DescriptionBlock[target])); assert(e.take(d.len() as int) =~= e0.take(d.len() as int)); assert(e == e0 || e == e0.push(f) && fexists(f));
        assert forall|j: int| d.len() <= j < e.len() implies from_rule(h1, nm, rules, fe2_i + 1, #[trigger] e[j]) by { if j < e0.len() { assert(from_rule(h1, nm, rules, fe2_i as int, e0[j])); } }
        assert forall|i: int| 0 <= i < fe2_i + 1 implies ({ let f = inferred(h1.InferenceRule[#[trigger] rules[i]], nm); fexists(f) ==> e.contains(f) }) by {
            let f = inferred(h1.InferenceRule[rules[i]], nm);
            if fexists(f) { if i < fe2_i { let j = choose|j: int| 0 <= j < e0.len() && e0[j] == f; assert(e[j] == f); } else if e.len() > e0.len() { assert(e[e0.len() as int] == f); } } }
    }
//@after 2
    let ghost cA = hp@.DescriptionBlock[target];
    proof { with_new(h1, target, cA); assert(seen(cA, cA)); assert(at_seen(hp@, target, cA).DescriptionBlock =~= hp@.DescriptionBlock); assert(at_seen(hp@, target, cA) == hp@); assert(wf(hp@, target));
        if cA.m_dependents@.len() == d.len() { assert(cA.m_dependents@ =~= d); assert forall|i: int| 0 <= i < rules.len() implies ({ let f = inferred(h1.InferenceRule[#[trigger] rules[i]], nm); fexists(f) ==> not_newer(h1, target, f) }) by { let f = inferred(h1.InferenceRule[rules[i]], nm); if fexists(f) { let j = choose|j: int| 0 <= j < d.len() && d[j] == f; assert(not_newer(h1, target, d[j])); } } } }
//@exit
    proof {
        assert forall|s: DB| #[trigger] seen(b, s) implies s == s1 by { assert(s.m_timeStamp == s1.m_timeStamp); }
        assert(at_seen(H, target, s1).DescriptionBlock =~= h1.DescriptionBlock);
    }
//@endfn
