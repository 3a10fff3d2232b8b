//@sources src/jomlib/makefile.cpp src/jomlib/fastfileinfo.cpp src/jomlib/filetime.cpp
//@use C01
//@cfg
{'structs': ['FileTime','FastFileInfo','InlineFile','Command','DescriptionBlock'], 'owned': ['InlineFile'], 'fields': {'FastFileInfo': [], 'DescriptionBlock': ['m_dependents','m_targetName','m_commands']},
 'ghost_fields': {'FastFileInfo': ['name: QString']}, 'types': {'InternalType': 'quint64', 'FileTime::InternalType': 'quint64'}, 'globals': {'fileNameMacroMagicEscape': ('0xfeffu16', 'QChar')}}
//@endcfg
// ---- values of a file name macro: tgt the target, deps its dependents, di the dependent of a ! command or -1
pub struct Blk { pub tgt: Str, pub deps: Seq<Str> }
pub open spec fn blk(b: DescriptionBlock) -> Blk { Blk { tgt: b.m_targetName@, deps: b.m_dependents@ } }
pub uninterp spec fn mtime(name: Str) -> u64;
pub open spec fn strip_ext(s: Str) -> Str { let k = rfind_c(s, 46, s.len() - 1); if k < 0 { s } else { s.subrange(0, k) } }
pub open spec fn dir_part(s: Str) -> Str { let k = rfind_c(s, 92, s.len() - 1); if k < 0 { seq![46u16] } else { s.subrange(0, k) } }
pub open spec fn candidates(d: Blk, di: int, forb: bool) -> Seq<Str> { if forb { seq![] } else if di == -1 { d.deps } else { seq![d.deps[di]] } }
pub open spec fn newer(tgt: Str, c: Seq<Str>) -> Seq<Str> decreases c.len() {
    if c.len() == 0 { seq![] } else if mtime(tgt) <= mtime(c.last()) { newer(tgt, c.drop_last()).push(c.last()) } else { newer(tgt, c.drop_last()) }
}
// length of the macro name at position i: @ ** * ?
pub open spec fn name_len(x: Str, i: int) -> int {
    if x[i] == 64 || x[i] == 63 { 1 } else if x[i] == 42 { if i + 1 < x.len() && x[i + 1] == 42 { 2 } else { 1 } } else { 0 }
}
pub open spec fn needs_deps(x: Str, i: int) -> bool { x[i] == 63 || name_len(x, i) == 2 }
pub open spec fn vals(d: Blk, x: Str, i: int, di: int, forb: bool) -> Seq<Str> {
    if x[i] == 64 { seq![d.tgt] }
    else if x[i] == 42 { if name_len(x, i) == 2 { candidates(d, di, forb) } else { seq![strip_ext(d.tgt)] } }
    else if x[i] == 63 { newer(d.tgt, candidates(d, di, forb)) }
    else { seq![] }
}
pub open spec fn mod1(s: Str, c: u16) -> Str {
    if c == 68 { dir_part(s) } else if c == 66 { qfi_base(s) } else if c == 70 { qfi_file(s) } else if c == 82 { strip_ext(s) } else { s }
}
pub open spec fn mods(v: Seq<Str>, c: u16) -> Seq<Str> { v.map_values(|s: Str| mod1(s, c)) }
pub open spec fn subs(v: Seq<Str>, b: Str, a: Str) -> Seq<Str> { v.map_values(|s: Str| qreplall(s, b, a)) }
pub open spec fn is_mod(c: u16) -> bool { c == 68 || c == 66 || c == 70 || c == 82 }
pub open spec fn quoted(s: Str) -> Str { if find_c(s, 32, 0) >= 0 || find_c(s, 9, 0) >= 0 { seq![34u16] + s + seq![34u16] } else { s } }
pub open spec fn joinv(v: Seq<Str>) -> Str decreases v.len() {
    if v.len() == 0 { seq![] } else if v.len() == 1 { quoted(v[0]) } else { joinv(v.drop_last()) + seq![32u16] + quoted(v.last()) }
}
// the n characters at p replaced by v
pub open spec fn rep(x: Str, p: int, n: int, v: Str) -> Str { x.subrange(0, p) + v + x.subrange(p + n, x.len() as int) }
// ---- the expansion of text x from position p on: everything before p is final
pub enum Fm { Cut, Fail, Text(Str) }    // Cut: an invocation that ends with the text, Fail: an error is reported
#[verifier::opaque]
pub open spec fn fm(d: Blk, x: Str, p: int, di: int, forb: bool) -> Fm decreases x.len() - p {
    if p < 0 || p >= x.len() { Fm::Text(x) }
    else if x[p] != 0xfeff || (p > 0 && x[p - 1] == 94) { fm(d, x, p + 1, di, forb) }
    else if p + 1 >= x.len() { Fm::Cut }
    else if x[p + 1] != 40 {
        let i = p + 1; let n = name_len(x, i); let v = joinv(vals(d, x, i, di, forb));
        if forb && needs_deps(x, i) { Fm::Fail }
        else { fm(d, rep(x, p, n + 1, v), p + v.len(), di, forb) }
    } else if p + 2 >= x.len() { Fm::Cut }
    else {
        let i = p + 2; let n = name_len(x, i); let v = vals(d, x, i, di, forb);
        if forb && needs_deps(x, i) { Fm::Fail }
        else if n == 0 { fm(d, rep(x, p, 3, seq![]), p, di, forb) }
        else if i + n >= x.len() { Fm::Cut }
        else if x[i + n] == 41 { fm(d, rep(x, p, n + 3, joinv(v)), p + joinv(v).len(), di, forb) }
        else if x[i + n] != 58 && !is_mod(x[i + n]) { fm(d, x, p + 1, di, forb) }
        else if x[i + n] != 58 && i + n + 1 >= x.len() { Fm::Cut }
        else if x[i + n] != 58 && x[i + n + 1] != 58 { let w = joinv(mods(v, x[i + n])); fm(d, rep(x, p, n + 4, w), p + w.len(), di, forb) }
        else {
            let k = if x[i + n] == 58 { i + n + 1 } else { i + n + 2 };
            let e = sub_close(x, k, k); let q = last_eq(x, k, e);
            if e < k || q < k || e >= x.len() { Fm::Fail }
            else {
                let w = joinv(subs(mods(v, x[i + n]), x.subrange(k, q), no_caret(x.subrange(q + 1, e))));
                fm(d, rep(x, p, e - p + 1, w), p + w.len(), di, forb)
            }
        }
    }
}
pub open spec fn fm1(d: Blk, x: Str, p: int, di: int, forb: bool) -> Fm {
    if p < 0 || p >= x.len() { Fm::Text(x) }
    else if x[p] != 0xfeff || (p > 0 && x[p - 1] == 94) { fm(d, x, p + 1, di, forb) }
    else if p + 1 >= x.len() { Fm::Cut }
    else if x[p + 1] != 40 {
        let i = p + 1; let n = name_len(x, i); let v = joinv(vals(d, x, i, di, forb));
        if forb && needs_deps(x, i) { Fm::Fail }
        else { fm(d, rep(x, p, n + 1, v), p + v.len(), di, forb) }
    } else if p + 2 >= x.len() { Fm::Cut }
    else {
        let i = p + 2; let n = name_len(x, i); let v = vals(d, x, i, di, forb);
        if forb && needs_deps(x, i) { Fm::Fail }
        else if n == 0 { fm(d, rep(x, p, 3, seq![]), p, di, forb) }
        else if i + n >= x.len() { Fm::Cut }
        else if x[i + n] == 41 { fm(d, rep(x, p, n + 3, joinv(v)), p + joinv(v).len(), di, forb) }
        else if x[i + n] != 58 && !is_mod(x[i + n]) { fm(d, x, p + 1, di, forb) }
        else if x[i + n] != 58 && i + n + 1 >= x.len() { Fm::Cut }
        else if x[i + n] != 58 && x[i + n + 1] != 58 { let w = joinv(mods(v, x[i + n])); fm(d, rep(x, p, n + 4, w), p + w.len(), di, forb) }
        else {
            let k = if x[i + n] == 58 { i + n + 1 } else { i + n + 2 };
            let e = sub_close(x, k, k); let q = last_eq(x, k, e);
            if e < k || q < k || e >= x.len() { Fm::Fail }
            else {
                let w = joinv(subs(mods(v, x[i + n]), x.subrange(k, q), no_caret(x.subrange(q + 1, e))));
                fm(d, rep(x, p, e - p + 1, w), p + w.len(), di, forb)
            }
        }
    }
}
pub proof fn fm_step(d: Blk, x: Str, p: int, di: int, forb: bool)
    ensures fm(d, x, p, di, forb) == fm1(d, x, p, di, forb)
{ reveal(fm); }
pub proof fn fm_skip(d: Blk, x: Str, p: int, di: int, forb: bool)
    requires 0 <= p
    ensures ({ let b = find_c(x, 0xfeff, p); (b == -1 || p <= b < x.len()) && (b < 0 ==> fm(d, x, p, di, forb) == Fm::Text(x)) && (b >= 0 ==> x[b] == 0xfeff && fm(d, x, p, di, forb) == fm(d, x, b, di, forb)) })
    decreases x.len() - p
{ fm_step(d, x, p, di, forb); if p < x.len() && x[p] != 0xfeff { fm_skip(d, x, p + 1, di, forb); } }
pub proof fn lemma_last_eq(s: Str, k0: int, e: int)
    ensures last_eq(s, k0, e) == -1 || k0 <= last_eq(s, k0, e) < e
    decreases e - k0
{ if k0 < e && 0 <= k0 && e <= s.len() && s[e - 1] != 61 { lemma_last_eq(s, k0, e - 1); } }
pub proof fn lemma_rfind(s: Str, c: u16, i: int)
    requires i < s.len()
    ensures rfind_c(s, c, i) == -1 || 0 <= rfind_c(s, c, i) <= i
    decreases (if i < 0 { 0 } else { i + 1 })
{ if 0 <= i && s[i] != c { lemma_rfind(s, c, i - 1); } }
pub proof fn lemma_shift(d: Blk, x: Str, i: int, di: int, forb: bool)
    requires 0 <= i < x.len()
    ensures ({ let y = x.subrange(i, x.len() as int); name_len(y, 0) == name_len(x, i) && needs_deps(y, 0) == needs_deps(x, i) && vals(d, y, 0, di, forb) == vals(d, x, i, di, forb) && y[0] == x[i] })
{}
//@extern FastFileInfo::FastFileInfo
    ensures final(this).name@ == fileName@
//@endfn
//@extern FastFileInfo::lastModified
    ensures res.m_fileTime == mtime(this.name@)
//@endfn
//@extern FileTime::operator<
    ensures res == (this.m_fileTime < rhs.m_fileTime)
//@endfn
pub open spec fn same_cmd(a: Command, b: Command) -> bool {
    a.m_commandLine == b.m_commandLine && a.m_maxExitCode == b.m_maxExitCode && a.m_silent == b.m_silent && a.m_singleExecution == b.m_singleExecution && a.m_inlineFiles@ =~= b.m_inlineFiles@
}
//@fn InlineFile::InlineFile(InlineFile)
    ensures *final(this) == rhs
//@endfn
//@fn Command::Command(Command)
    ensures same_cmd(*final(this), rhs)
//@attr #[verifier::loop_isolation(false)]
//@after 1
    proof { assert(rhs.m_inlineFiles@.subrange(0, rhs.m_inlineFiles@.len() as int) =~= rhs.m_inlineFiles@); }
//@loop 1
    invariant 0 <= fe1_i <= fe1_c@.len(), fe1_c == rhs.m_inlineFiles, this.m_inlineFiles@ =~= rhs.m_inlineFiles@.subrange(0, fe1_i as int), this.m_commandLine == rhs.m_commandLine, this.m_maxExitCode == rhs.m_maxExitCode, this.m_silent == rhs.m_silent, this.m_singleExecution == rhs.m_singleExecution,
    decreases fe1_c@.len() - fe1_i
//@endfn
//@fn FileTime::operator==
    ensures res == (this.m_fileTime == rhs.m_fileTime)
//@endfn
//@fn FileTime::operator<=
    ensures res == (this.m_fileTime <= rhs.m_fileTime)
//@endfn
//@fn joinFileNameMacroValues
    ensures res@ == joinv(macroValues@)
//@attr #[verifier::loop_isolation(false)]
//@loop 1
    invariant 0 <= i <= macroValues@.len(), result@ == joinv(macroValues@.subrange(0, i as int)),
    decreases macroValues@.len() - i
//@body 1
    proof { let v = macroValues@; assert(v.subrange(0, i + 1).drop_last() =~= v.subrange(0, i as int)); let ghost j = joinv(v.subrange(0, i as int));
        assert((j + seq![32u16]).len() == j.len() + 1);
        assert(j.push(32u16) =~= j + seq![32u16]); let q = v[i as int]; assert((seq![34u16] + q).push(34u16) =~= seq![34u16] + q + seq![34u16]); assert(i == 0 ==> j + quoted(q) =~= quoted(q)); }
//@after 1
    proof { assert(macroValues@.subrange(0, macroValues@.len() as int) =~= macroValues@); }
//@endfn
//@fn DescriptionBlock::getFileNameMacroValues
//@flags throws
    requires str@.len() > 0, depIdx == -1 || dependentsForbidden || 0 <= depIdx < old(this).m_dependents@.len(), *old(replacementLength) == 0,
    ensures *final(this) == *old(this),
        match res {
            Ok(r) => !(dependentsForbidden && needs_deps(str@, 0)) && *final(replacementLength) == name_len(str@, 0) && r@ =~= vals(blk(*old(this)), str@, 0, depIdx as int, dependentsForbidden),
            Err(_) => dependentsForbidden && needs_deps(str@, 0),
        }
//@attr #[verifier::loop_isolation(false)]
//@loop 1
    invariant 0 <= fe1_i <= fe1_c@.len(), results@ =~= newer(this.m_targetName@, fe1_c@.subrange(0, fe1_i as int)),
    decreases fe1_c@.len() - fe1_i
//@body 1
    proof { assert(fe1_c@.subrange(0, fe1_i + 1).drop_last() =~= fe1_c@.subrange(0, fe1_i as int)); }
//@after 1
    proof { assert(fe1_c@.subrange(0, fe1_c@.len() as int) =~= fe1_c@); }
//@entry
    proof { lemma_rfind(this.m_targetName@, 46, this.m_targetName@.len() - 1); assert(this.m_dependents@.subrange(0, 0) =~= Seq::<Str>::empty()); }
//@endfn
//@fn DescriptionBlock::expandFileNameMacros(S,i,b)
//@flags throws
    requires !(fm(blk(*old(this)), old(str)@, 0, depIdx as int, dependentsForbidden) is Cut), depIdx == -1 || dependentsForbidden || 0 <= depIdx < old(this).m_dependents@.len(),
    ensures *final(this) == *old(this),
        match res {
            Ok(_) => fm(blk(*old(this)), old(str)@, 0, depIdx as int, dependentsForbidden) == Fm::Text(final(str)@),
            Err(_) => fm(blk(*old(this)), old(str)@, 0, depIdx as int, dependentsForbidden) is Fail,
        }
//@attr #[verifier::rlimit(300)]
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@entry
    let ghost d = blk(*this); let ghost di = depIdx as int; let ghost forb = dependentsForbidden; let ghost goal = fm(d, str@, 0, di, forb);
//@loop 1
    invariant_except_break 0 <= idx <= str@.len(), goal == fm(d, str@, idx as int, di, forb), lastEscapedIdx < idx,
    invariant *this == *old(this),
    ensures goal == Fm::Text(str@),
    decreases str@.len() - idx
//@body 1
    let ghost x = str@; let ghost p0 = idx as int;
    proof { fm_skip(d, x, p0, di, forb); }
//@post indexOf 1
    let ghost p = idx as int;
    proof { if p >= 0 {
        fm_step(d, x, p, di, forb); if p + 1 < x.len() { assert(qmid(x, p + 1, -1) =~= x.subrange(p + 1, x.len() as int)); lemma_shift(d, x, p + 1, di, forb); }
        if p + 2 < x.len() { assert(qmid(x, p + 2, -1) =~= x.subrange(p + 2, x.len() as int)); lemma_shift(d, x, p + 2, di, forb); 
            let i = p + 2; let n = name_len(x, i);
            if i + n < x.len() { let k = if x[i + n] == 58 { i + n + 1 } else { i + n + 2 };
            if k <= x.len() { lemma_sub_close(x, k, k); lemma_last_eq(x, k, sub_close(x, k, k)); } } } } }
//@post remove 1
    proof { assert(str@ =~= rep(x, p, 3, seq![])); assert(goal == fm(d, str@, p, di, forb)); }
//@post replace 1
    proof { let i = p + 2; let n = name_len(x, i); let v = vals(d, x, i, di, forb); assert(mods(v, 58) =~= v); let w = macroValue@;
        if x[i + n] == 41 { assert(w == joinv(v)); assert(str@ =~= rep(x, p, n + 3, w)); }
        else if x[i + n] != 58 && x[i + n + 1] != 58 { assert(w == joinv(mods(v, x[i + n]))); assert(str@ =~= rep(x, p, n + 4, w)); }
        else { let k = if x[i + n] == 58 { i + n + 1 } else { i + n + 2 }; let e = sub_close(x, k, k); let q = last_eq(x, k, e);
            assert(w == joinv(subs(mods(v, x[i + n]), x.subrange(k, q), no_caret(x.subrange(q + 1, e))))); assert(str@ =~= rep(x, p, e - p + 1, w)); }
        assert(goal == fm(d, str@, p + w.len(), di, forb));
    }
//@post remove 2
    proof { let i = p + 1; let n = name_len(x, i); let v = vals(d, x, i, di, forb); assert(joinv(v) =~= seq![]); assert(str@ =~= rep(x, p, n + 1, joinv(v))); assert(goal == fm(d, str@, p, di, forb)); }
//@post replace 2
    proof { let i = p + 1; let n = name_len(x, i); let v = vals(d, x, i, di, forb); assert(str@ =~= rep(x, p, n + 1, joinv(v))); assert(goal == fm(d, str@, p + joinv(v).len(), di, forb)); }
//@before 2
    let ghost v0 = macroValues@;
//@loop 2
    invariant 0 <= i <= macroValues@.len() == v0.len(), forall|j: int| 0 <= j < i ==> #[trigger] macroValues@[j] =~= mod1(v0[j], 68), forall|j: int| i <= j < v0.len() ==> #[trigger] macroValues@[j] =~= v0[j],
    decreases v0.len() - i
//@body 2
    proof { lemma_rfind(v0[i as int], 92, v0[i as int].len() - 1); }
//@after 2
    proof { assert(macroValues@ =~= mods(v0, 68)); }
//@before 3
    let ghost v0 = macroValues@;
//@loop 3
    invariant 0 <= i <= macroValues@.len() == v0.len(), forall|j: int| 0 <= j < i ==> #[trigger] macroValues@[j] =~= mod1(v0[j], 66), forall|j: int| i <= j < v0.len() ==> #[trigger] macroValues@[j] =~= v0[j],
    decreases v0.len() - i
//@after 3
    proof { assert(macroValues@ =~= mods(v0, 66)); }
//@before 4
    let ghost v0 = macroValues@;
//@loop 4
    invariant 0 <= i <= macroValues@.len() == v0.len(), forall|j: int| 0 <= j < i ==> #[trigger] macroValues@[j] =~= mod1(v0[j], 70), forall|j: int| i <= j < v0.len() ==> #[trigger] macroValues@[j] =~= v0[j],
    decreases v0.len() - i
//@after 4
    proof { assert(macroValues@ =~= mods(v0, 70)); }
//@before 5
    let ghost v0 = macroValues@;
//@loop 5
    invariant 0 <= i <= macroValues@.len() == v0.len(), forall|j: int| 0 <= j < i ==> #[trigger] macroValues@[j] =~= mod1(v0[j], 82), forall|j: int| i <= j < v0.len() ==> #[trigger] macroValues@[j] =~= v0[j],
    decreases v0.len() - i
//@body 5
    proof { lemma_rfind(v0[i as int], 46, v0[i as int].len() - 1); }
//@after 5
    proof { assert(macroValues@ =~= mods(v0, 82)); }
//@before 6
    let ghost v1 = macroValues@;
//@loop 6
    invariant 0 <= i <= macroValues@.len() == v1.len(), forall|j: int| 0 <= j < i ==> #[trigger] macroValues@[j] =~= qreplall(v1[j], substitution.before@, substitution.after@), forall|j: int| i <= j < v1.len() ==> #[trigger] macroValues@[j] =~= v1[j],
    decreases v1.len() - i
//@after 6
    proof { assert(macroValues@ =~= subs(v1, substitution.before@, substitution.after@)); }
//@endfn
// ---- whole commands: the command line and the inline files are expanded, everything else stays
pub open spec fn whole(d: Blk, x: Str, di: int) -> bool { !(fm(d, x, 0, di, false) is Cut) }
pub open spec fn cmd_whole(d: Blk, c: Command, di: int) -> bool {
    whole(d, c.m_commandLine@, di) && forall|k: int| 0 <= k < c.m_inlineFiles@.len() ==> whole(d, (#[trigger] c.m_inlineFiles@[k]).m_filename@, di) && whole(d, c.m_inlineFiles@[k].m_content@, di)
}
pub open spec fn file_ok(d: Blk, a: InlineFile, b: InlineFile, di: int) -> bool {
    fm(d, a.m_filename@, 0, di, false) == Fm::Text(b.m_filename@) && fm(d, a.m_content@, 0, di, false) == Fm::Text(b.m_content@) && b.m_keep == a.m_keep && b.m_unicode == a.m_unicode
}
pub open spec fn cmd_ok(d: Blk, a: Command, b: Command, di: int) -> bool {
    fm(d, a.m_commandLine@, 0, di, false) == Fm::Text(b.m_commandLine@) && b.m_maxExitCode == a.m_maxExitCode && b.m_silent == a.m_silent && !b.m_singleExecution
        && b.m_inlineFiles@.len() == a.m_inlineFiles@.len() && forall|k: int| 0 <= k < a.m_inlineFiles@.len() ==> file_ok(d, #[trigger] a.m_inlineFiles@[k], b.m_inlineFiles@[k], di)
}
pub open spec fn cmd_bad(d: Blk, c: Command, di: int) -> bool {
    fm(d, c.m_commandLine@, 0, di, false) is Fail || exists|k: int| 0 <= k < c.m_inlineFiles@.len() && (fm(d, (#[trigger] c.m_inlineFiles@[k]).m_filename@, 0, di, false) is Fail || fm(d, c.m_inlineFiles@[k].m_content@, 0, di, false) is Fail)
}
// a command without ! gives one command, one with ! gives one for each dependent
pub open spec fn list_ok(d: Blk, old: Seq<Command>, new: Seq<Command>) -> bool decreases old.len() {
    if old.len() == 0 { new.len() == 0 }
    else {
        let c = old.last(); let n = if c.m_singleExecution { d.deps.len() as int } else { 1 };
        new.len() >= n && list_ok(d, old.drop_last(), new.subrange(0, new.len() - n))
            && (c.m_singleExecution ==> forall|i: int| 0 <= i < n ==> cmd_ok(d, c, #[trigger] new[new.len() - n + i], i))
            && (!c.m_singleExecution ==> cmd_ok(d, c, new.last(), -1))
    }
}
//@fn DescriptionBlock::expandFileNameMacros(Command,i)
//@flags throws
    requires cmd_whole(blk(*old(this)), *old(command), depIdx as int), depIdx == -1 || 0 <= depIdx < old(this).m_dependents@.len(), !old(command).m_singleExecution,
    ensures *final(this) == *old(this), res is Ok ==> cmd_ok(blk(*old(this)), *old(command), *final(command), depIdx as int), res is Err ==> cmd_bad(blk(*old(this)), *old(command), depIdx as int),
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost d = blk(*this); let ghost di = depIdx as int; let ghost c0 = *command;
//@loop 1
    invariant 0 <= fe1_i <= fe1_c@.len(), fe1_c == c0.m_inlineFiles, command.m_inlineFiles@.len() == c0.m_inlineFiles@.len(), *this == *old(this),
        fm(d, c0.m_commandLine@, 0, di, false) == Fm::Text(command.m_commandLine@), command.m_maxExitCode == c0.m_maxExitCode, command.m_silent == c0.m_silent, command.m_singleExecution == c0.m_singleExecution,
        forall|k: int| 0 <= k < fe1_i ==> file_ok(d, #[trigger] c0.m_inlineFiles@[k], command.m_inlineFiles@[k], di),
        forall|k: int| fe1_i <= k < c0.m_inlineFiles@.len() ==> command.m_inlineFiles@[k] == #[trigger] c0.m_inlineFiles@[k],
    decreases fe1_c@.len() - fe1_i
//@body 1
    proof { let f0 = c0.m_inlineFiles@[fe1_i as int]; assert(command.m_inlineFiles@[fe1_i as int] == f0); assert(whole(d, f0.m_filename@, di) && whole(d, f0.m_content@, di)); }
//@endfn
//@fn DescriptionBlock::expandFileNameMacros()
//@flags throws
    requires forall|k: int| 0 <= k < old(this).m_commands@.len() ==> (if (#[trigger] old(this).m_commands@[k]).m_singleExecution { forall|di: int| 0 <= di < old(this).m_dependents@.len() ==> cmd_whole(blk(*old(this)), old(this).m_commands@[k], di) } else { cmd_whole(blk(*old(this)), old(this).m_commands@[k], -1) }),
    ensures blk(*final(this)) == blk(*old(this)), res is Ok ==> list_ok(blk(*old(this)), old(this).m_commands@, final(this).m_commands@),
        res is Err ==> exists|k: int, di: int| 0 <= k < old(this).m_commands@.len() && #[trigger] cmd_bad(blk(*old(this)), old(this).m_commands@[k], di),
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost d = blk(*this); let ghost m0 = this.m_commands@; let ghost mut g: int = 0;
    proof { assert(m0.subrange(0, 0) =~= Seq::<Command>::empty()); assert(m0.subrange(0, m0.len() as int) =~= m0); }
//@loop 1
    invariant 0 <= it <= this.m_commands@.len(), 0 <= g <= m0.len(), blk(*this) == d, m0.len() - g == this.m_commands@.len() - it,
        list_ok(d, m0.subrange(0, g), this.m_commands@.subrange(0, it as int)),
        this.m_commands@.subrange(it as int, this.m_commands@.len() as int) =~= m0.subrange(g, m0.len() as int),
    decreases m0.len() - g
//@body 1
    let ghost g0 = g; let ghost p0 = it as int; let ghost pre = this.m_commands@.subrange(0, p0); let ghost L = this.m_commands@;
    proof { assert(L[p0] == L.subrange(p0, L.len() as int)[0]); assert(m0.subrange(g, m0.len() as int)[0] == m0[g]); assert(L[p0] == m0[g]);
        assert(m0.subrange(0, g + 1).drop_last() =~= m0.subrange(0, g)); assert(L.subrange(p0 + 1, L.len() as int) =~= m0.subrange(g + 1, m0.len() as int)) by { assert(L.subrange(p0, L.len() as int).subrange(1, L.len() - p0) =~= m0.subrange(g, m0.len() as int).subrange(1, m0.len() - g)); assert(m0.subrange(g, m0.len() as int).subrange(1, m0.len() - g) =~= m0.subrange(g + 1, m0.len() as int)); } }
//@loop 2
    invariant 0 <= i <= d.deps.len(), it == p0 + i, this.m_commands@.len() >= it, blk(*this) == d, m0[g].m_singleExecution, 0 <= g < m0.len(),
        m0.len() - g - 1 == this.m_commands@.len() - it, same_cmd(origCommand, m0[g]),
        this.m_commands@.subrange(0, p0) =~= pre, this.m_commands@.subrange(it as int, this.m_commands@.len() as int) =~= m0.subrange(g + 1, m0.len() as int),
        forall|j: int| 0 <= j < i ==> cmd_ok(d, m0[g], #[trigger] this.m_commands@[p0 + j], j),
    decreases d.deps.len() - i
//@before 2
    proof { assert(this.m_commands@ =~= L.remove(p0)); }
//@body 2
    let ghost L1 = this.m_commands@; let ghost i0 = i as int;
    proof {  assert(cmd_whole(d, m0[g], i0)); assert forall|c: Command| c.m_commandLine == m0[g].m_commandLine && c.m_inlineFiles@ =~= m0[g].m_inlineFiles@ && #[trigger] cmd_bad(d, c, i0) implies cmd_bad(d, m0[g], i0) by {} }
//@end 2
    proof { let M = this.m_commands@; assert(M =~= L1.insert(p0 + i0, newCommand)); assert(M.subrange(it as int, M.len() as int) =~= L1.subrange(p0 + i0, L1.len() as int)); 
        assert(M.subrange(0, p0) =~= L1.subrange(0, p0)); 
        assert forall|j: int| 0 <= j < i0 + 1 implies cmd_ok(d, m0[g], #[trigger] M[p0 + j], j) by { if j < i0 { assert(M[p0 + j] == L1[p0 + j]); } } }
//@end 1
    proof { g = g + 1; let M = this.m_commands@; let new = M.subrange(0, it as int); let old = m0.subrange(0, g);
        assert(old.last() == m0[g0]); let n = if m0[g0].m_singleExecution { d.deps.len() as int } else { 1 };
        assert(new.subrange(0, new.len() - n) =~= pre);
        if m0[g0].m_singleExecution { assert forall|j: int| 0 <= j < n implies cmd_ok(d, m0[g0], #[trigger] new[new.len() - n + j], j) by { assert(new[new.len() - n + j] == M[p0 + j]); } }
        else { assert(new.last() == M[p0]); assert(M.subrange(it as int, M.len() as int) =~= L.subrange(p0 + 1, L.len() as int)); }
        assert(list_ok(d, old, new)); }
//@after 1
    proof { assert(this.m_commands@.subrange(0, it as int) =~= this.m_commands@); assert(m0.subrange(0, m0.len() as int) =~= m0); }
//@endfn
// where dependents are forbidden they do not matter
pub proof fn lemma_forb(d: Blk, e: Blk, x: Str, p: int)
    requires d.tgt == e.tgt
    ensures fm(d, x, p, -1, true) == fm(e, x, p, -1, true)
    decreases x.len() - p
{
    fm_step(d, x, p, -1, true); fm_step(e, x, p, -1, true);
    if 0 <= p < x.len() {
        lemma_forb(d, e, x, p + 1);
        if p + 2 < x.len() || p + 1 < x.len() && x[p + 1] != 40 {
            let i = if x[p + 1] != 40 { p + 1 } else { p + 2 }; let n = name_len(x, i);
            if !needs_deps(x, i) {
                let v = vals(d, x, i, -1, true); assert(v == vals(e, x, i, -1, true));
                lemma_forb(d, e, rep(x, p, n + 1, joinv(v)), p + joinv(v).len());
                if x[p + 1] == 40 {
                    if p + 3 <= x.len() { lemma_forb(d, e, rep(x, p, 3, seq![]), p); }
                    if i + n < x.len() {
                        lemma_forb(d, e, rep(x, p, n + 3, joinv(v)), p + joinv(v).len());
                        if i + n + 1 < x.len() { let w = joinv(mods(v, x[i + n])); lemma_forb(d, e, rep(x, p, n + 4, w), p + w.len()); }
                        let k = if x[i + n] == 58 { i + n + 1 } else { i + n + 2 };
                        let ee = sub_close(x, k, k); let q = last_eq(x, k, ee);
                        if k <= ee < x.len() && q >= k { let w = joinv(subs(mods(v, x[i + n]), x.subrange(k, q), no_caret(x.subrange(q + 1, ee)))); lemma_forb(d, e, rep(x, p, ee - p + 1, w), p + w.len()); }
                    }
                }
            }
        }
    }
}
//@fn DescriptionBlock::expandFileNameMacrosForDependents
//@flags throws
    requires forall|k: int| 0 <= k < old(this).m_dependents@.len() ==> !(fm(blk(*old(this)), #[trigger] old(this).m_dependents@[k], 0, -1, true) is Cut),
    ensures final(this).m_targetName@ == old(this).m_targetName@, final(this).m_commands == old(this).m_commands,
        res is Ok ==> final(this).m_dependents@.len() == old(this).m_dependents@.len() && forall|k: int| 0 <= k < old(this).m_dependents@.len() ==> fm(blk(*old(this)), #[trigger] old(this).m_dependents@[k], 0, -1, true) == Fm::Text(final(this).m_dependents@[k]),
        res is Err ==> exists|k: int| 0 <= k < old(this).m_dependents@.len() && fm(blk(*old(this)), #[trigger] old(this).m_dependents@[k], 0, -1, true) is Fail,
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost d0 = blk(*this);
//@loop 1
    invariant 0 <= it <= this.m_dependents@.len() == d0.deps.len(), this.m_targetName@ == d0.tgt, this.m_commands == old(this).m_commands,
        forall|k: int| 0 <= k < it ==> fm(d0, #[trigger] d0.deps[k], 0, -1, true) == Fm::Text(this.m_dependents@[k]),
        forall|k: int| it <= k < d0.deps.len() ==> this.m_dependents@[k] == #[trigger] d0.deps[k],
    decreases d0.deps.len() - it
//@body 1
    proof { assert(this.m_dependents@[it as int] == d0.deps[it as int]); lemma_forb(d0, blk(*this), this.m_dependents@[it as int], 0); }
//@endfn
