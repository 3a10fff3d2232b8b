//@sources src/jomlib/parser.cpp:auto
//@cfg
{'structs': ['Parser'], 'fields': {'Parser': ['m_line']}, 'exceptions': {'Exception': 'QString', 'FileException': ''}}
//@endcfg
// ---- is the character at i inside double quotes (an opening quote counts as inside)
pub open spec fn quoted(s: Str, i: int) -> bool decreases (if i < 0 { 0 } else { i + 1 }) {
    if i < 0 || i >= s.len() { false } else if s[i] == 34 { !quoted(s, i - 1) } else { quoted(s, i - 1) }
}
// first # that starts a comment
pub open spec fn hash_pos(s: Str, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { -1 } else if s[i] == 35 && !(i > 0 && s[i - 1] == 94) && !quoted(s, i) { i } else { hash_pos(s, i + 1) }
}
// first ; that starts a command
pub open spec fn semi_pos(s: Str, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { -1 } else if s[i] == 59 && !quoted(s, i) { i } else { semi_pos(s, i + 1) }
}
// every ^# in front of position m becomes #, the text from m on is kept
pub open spec fn un_upto(s: Str, i: int, m: int) -> Str decreases s.len() - i {
    if i < 0 || i >= s.len() { seq![] }
    else if i >= m { s.subrange(i, s.len() as int) }
    else if i + 1 < m && i + 1 < s.len() && s[i] == 94 && s[i + 1] == 35 { seq![35u16] + un_upto(s, i + 2, m) }
    else { seq![s[i]] + un_upto(s, i + 1, m) }
}
pub struct Rule { pub line: Str, pub cmd: int }
pub open spec fn uncommented(s: Str) -> Rule {
    let h = hash_pos(s, 0); let m = semi_pos(s, 0);
    if h >= 0 && (m < 0 || h < m) { Rule { line: un_upto(s.subrange(0, h), 0, h), cmd: -1 } }
    else if m < 0 { Rule { line: un_upto(s, 0, s.len() as int), cmd: -1 } }
    else { let l = un_upto(s, 0, m); Rule { line: l, cmd: l.len() - (s.len() - m) } }
}
// ---- where the separator of a description block is
pub open spec fn blank(c: u16) -> bool { c == 32 || c == 9 }
pub open spec fn drive(s: Str, i: int) -> bool {
    (i == 1 && uc_letter(s[0])) || (i > 1 && uc_letter(s[i - 1]) && (uc_space(s[i - 2]) || s[i - 2] == 34))
}
pub open spec fn sep_pos(s: Str, i: int, depth: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { -1 }
    else if s[i] == 40 { sep_pos(s, i + 1, depth + 1) }
    else if s[i] == 41 { sep_pos(s, i + 1, depth - 1) }
    else if depth == 0 && s[i] == 58 && !drive(s, i) { i }
    else { sep_pos(s, i + 1, depth) }
}
pub open spec fn is_block(s: Str) -> bool { s.len() > 0 && !blank(s[0]) && sep_pos(s, 0, 0) >= 0 }
// ---- the names of a list
pub open spec fn unquote(t: Str) -> Str {
    if t.len() > 0 && t[0] == 34 && t[t.len() - 1] == 34 { if t.len() < 2 { seq![] } else { t.subrange(1, t.len() - 1) } } else { t }
}
pub open spec fn one(e: Str) -> Seq<Str> { let t = unquote(qtrim(e)); if t.len() == 0 { seq![] } else { seq![t] } }
pub open spec fn names(s: Str, from: int, i: int, q: bool) -> Seq<Str> decreases s.len() - i {
    if i < 0 || i >= s.len() { one(s.subrange(from, s.len() as int)) }
    else if s[i] == 34 { names(s, from, i + 1, !q) }
    else if blank(s[i]) && !q { one(s.subrange(from, i)) + names(s, i + 1, i + 1, false) }
    else { names(s, from, i + 1, q) }
}
// ---- lemmas
pub open spec fn esc_at(s: Str, k: int) -> bool { s[k] == 94 && s[k + 1] == 35 }
pub open spec fn escs(s: Str, n: int) -> Seq<i32> decreases n {
    if n < 2 || n > s.len() { seq![] } else if s[n - 1] == 35 && s[n - 2] == 94 { escs(s, n - 1).push((n - 2) as i32) } else { escs(s, n - 1) }
}
pub proof fn lemma_find(s: Str, c: u16, i: int)
    requires 0 <= i
    ensures find_c(s, c, i) == -1 || i <= find_c(s, c, i) < s.len(),
        find_c(s, c, i) >= 0 ==> s[find_c(s, c, i)] == c && forall|k: int| i <= k < find_c(s, c, i) ==> s[k] != c,
        find_c(s, c, i) < 0 ==> forall|k: int| i <= k < s.len() ==> s[k] != c,
    decreases s.len() - i
{
    if i < s.len() && s[i] != c { lemma_find(s, c, i + 1); }
}
pub proof fn lemma_escs_gap(s: Str, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|k: int| a <= k < b ==> s[k] != 35
    ensures escs(s, b) == escs(s, a)
    decreases b - a
{ if a < b { lemma_escs_gap(s, a, b - 1); } }
pub proof fn lemma_hash_gap(s: Str, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|k: int| a <= k < b ==> s[k] != 35
    ensures hash_pos(s, a) == hash_pos(s, b)
    decreases b - a
{ if a < b { lemma_hash_gap(s, a + 1, b); } }
pub proof fn lemma_semi_gap(s: Str, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|k: int| a <= k < b ==> s[k] != 59
    ensures semi_pos(s, a) == semi_pos(s, b)
    decreases b - a
{ if a < b { lemma_semi_gap(s, a + 1, b); } }
pub proof fn lemma_pos(s: Str, i: int)
    requires 0 <= i
    ensures hash_pos(s, i) == -1 || i <= hash_pos(s, i) < s.len(), semi_pos(s, i) == -1 || i <= semi_pos(s, i) < s.len(),
    decreases s.len() - i
{ if i < s.len() { lemma_pos(s, i + 1); } }
pub proof fn lemma_escs(s: Str, n: int)
    requires 0 <= n <= s.len() <= i32::MAX
    ensures ({ let e = escs(s, n);
        if e.len() == 0 { forall|k: int| 0 <= k && k + 1 < n ==> !esc_at(s, k) }
        else { let p = e.last() as int; 0 <= p && p + 1 < n && s[p] == 94 && s[p + 1] == 35 && (forall|k: int| p < k && k + 1 < n ==> !esc_at(s, k))
            && e.drop_last() =~= escs(s, p) } })
    decreases n
{
    if n >= 2 {
        lemma_escs(s, n - 1);
        if s[n - 1] == 35 && s[n - 2] == 94 { assert(escs(s, n - 1) == escs(s, n - 2)); }
    }
}
// the same list for a prefix
pub proof fn lemma_escs_prefix(s: Str, h: int, n: int)
    requires 0 <= n <= h <= s.len()
    ensures escs(s.subrange(0, h), n) == escs(s, n)
    decreases n
{ if n >= 2 { lemma_escs_prefix(s, h, n - 1); } }
// no ^# between a and b (b may be the ^ of one)
pub proof fn lemma_un_gap(s: Str, a: int, b: int, m: int)
    requires 0 <= a <= b <= s.len(), forall|k: int| a <= k < b && k + 1 < m ==> !esc_at(s, k), m <= s.len(),
    ensures un_upto(s, a, m) =~= s.subrange(a, b) + un_upto(s, b, m)
    decreases b - a
{ if a < b { assert(!esc_at(s, a) || a + 1 >= m); lemma_un_gap(s, a + 1, b, m); assert(s.subrange(a, b) =~= seq![s[a]] + s.subrange(a + 1, b)); } }
pub proof fn lemma_un_len(s: Str, i: int, m: int)
    requires 0 <= i <= m <= s.len()
    ensures un_upto(s, i, m).len() >= s.len() - m
    decreases m - i
{ if i < m { if s[i] == 94 && i + 1 < m && s[i + 1] == 35 { lemma_un_len(s, i + 2, m); } else { lemma_un_len(s, i + 1, m); } } }
pub proof fn lemma_ltrim_blank(s: Str, a: int, e: int)
    requires 0 <= a < e <= s.len(), blank(s[a])
    ensures qtrim(s.subrange(a, e)) == qtrim(s.subrange(a + 1, e))
{ assert(s.subrange(a, e).subrange(1, e - a) =~= s.subrange(a + 1, e)); }
pub proof fn lemma_step(t: Str, k: int, m: int)
    requires 0 <= k <= t.len() <= i32::MAX, 0 <= m <= t.len(), escs(t, k).len() > 0, k < t.len() && k > 0 ==> !esc_at(t, k - 1),
        m < t.len() ==> t[m] == 59,
    ensures ({ let p = escs(t, k).last() as int;
        0 <= p && p + 1 < k && p != m && (p > 0 ==> !esc_at(t, p - 1))
        && (p < m ==> qremove(t.subrange(0, k) + un_upto(t, k, m), p, 1) =~= t.subrange(0, p) + un_upto(t, p, m)
            && un_upto(t, p, m).len() == k - p - 1 + un_upto(t, k, m).len())
        && (p >= m ==> t.subrange(0, k) + un_upto(t, k, m) =~= t.subrange(0, p) + un_upto(t, p, m)
            && un_upto(t, p, m).len() == k - p + un_upto(t, k, m).len()) })
{
    lemma_escs(t, k);
    let p = escs(t, k).last() as int;
    if p < m {
        assert(p + 1 < m);
        lemma_un_gap(t, p + 2, k, m);
        assert(un_upto(t, p, m) =~= seq![35u16] + un_upto(t, p + 2, m));
        assert(t.subrange(0, k) =~= t.subrange(0, p) + seq![94u16, 35u16] + t.subrange(p + 2, k));
    } else {
        lemma_un_gap(t, p, k, m); assert(t.subrange(0, k) =~= t.subrange(0, p) + t.subrange(p, k));
    }
}
//@fn removeCommentsAndFindCommandSeparator
    ensures final(line)@ =~= uncommented(old(line)@).line, res == uncommented(old(line)@).cmd
//@attr #[verifier::rlimit(300)]
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@entry
    let ghost s = line@;
    proof { axiom_qdefault(); lemma_pos(s, 0); assert(!quoted(s, -1)); }
//@loop 1
    invariant 1 <= i <= s.len(), quotedVector@.len() == s.len(), forall|k: int| 0 <= k < i ==> #[trigger] quotedVector@[k] == quoted(s, k),
    decreases s.len() - i
//@loop 2
    invariant_except_break -1 <= commentIdx < s.len(), hash_pos(s, 0) == hash_pos(s, commentIdx + 1),
        toRemove@ =~= escs(s, commentIdx + 1),
    ensures
        commentIdx == hash_pos(s, 0),
        toRemove@ =~= escs(s, if commentIdx < 0 { s.len() as int } else { commentIdx as int }),
    decreases s.len() - commentIdx
//@body 2
    let ghost k0 = commentIdx + 1;
    proof {
        lemma_find(s, 35, k0);
        let f = find_c(s, 35, k0);
        let g = if f < 0 { s.len() as int } else { f };
        lemma_escs_gap(s, k0, g); lemma_hash_gap(s, k0, g);
    }
//@loop 3
    invariant_except_break -1 <= cmdSepIdx < s.len(), semi_pos(s, 0) == semi_pos(s, cmdSepIdx + 1),
    ensures cmdSepIdx == semi_pos(s, 0),
    decreases s.len() - cmdSepIdx
//@body 3
    let ghost k0 = cmdSepIdx + 1;
    proof {
        lemma_find(s, 59, k0);
        let f = find_c(s, 59, k0);
        let g = if f < 0 { s.len() as int } else { f };
        lemma_semi_gap(s, k0, g);
    }
//@before 4
    let ghost t = line@;
    let ghost m = if cmdSepIdx < 0 { t.len() as int } else { cmdSepIdx as int };
    let ghost mut k = if commentIdx >= 0 && commentIdx < t.len() { commentIdx as int } else { t.len() as int };
    proof {
        lemma_escs_prefix(s, t.len() as int, k);
        assert(toRemove@.subrange(0, toRemove@.len() as int) =~= toRemove@);
        lemma_un_gap(t, k, t.len() as int, k);
        if k > m { lemma_un_gap(t, m, t.len() as int, m); }
        assert(t =~= t.subrange(0, k) + t.subrange(k, t.len() as int));
    }
//@loop 4
    invariant -1 <= i < toRemove@.len(), 0 <= k <= t.len(), 0 <= m <= t.len(), (cmdSepIdx < 0) == (semi_pos(s, 0) < 0 || t.len() < s.len()),
        toRemove@.subrange(0, i + 1) =~= escs(t, k),
        line@ =~= t.subrange(0, k) + un_upto(t, k, m),
        cmdSepIdx < 0 ==> m == t.len(), cmdSepIdx == -1 || (cmdSepIdx >= 0 && cmdSepIdx == k + un_upto(t, k, m).len() - (t.len() - m)),
        k < t.len() && k > 0 ==> !esc_at(t, k - 1), m < t.len() ==> t[m] == 59,
    decreases i + 1
//@body 4
    let ghost l0 = line@;
    proof {
        lemma_escs(t, k);
        lemma_step(t, k, m);
        let e = escs(t, k);
        assert(e.last() == toRemove@[i as int]);
        let p = e.last() as int;
        assert(toRemove@.subrange(0, i as int) =~= e.drop_last());
        if k < m { lemma_un_len(t, k, m); } 
        assert(cmdSepIdx >= 0 && p > cmdSepIdx ==> p >= m);
        assert(p >= m ==> cmdSepIdx == -1 || p > cmdSepIdx);
        k = p;
    }
//@after 4
    proof { lemma_escs(t, k); assert(toRemove@.subrange(0, i + 1).len() == 0); lemma_un_gap(t, 0, k, m);
        let h = hash_pos(s, 0); let sm = semi_pos(s, 0);
        assert(line@ =~= un_upto(t, 0, m));
        if h >= 0 && (sm < 0 || h < sm) { assert(t =~= s.subrange(0, h)); assert(m == h); assert(line@ =~= uncommented(s).line); }
        else if sm < 0 { assert(t =~= s); assert(line@ =~= uncommented(s).line); assert(cmdSepIdx == -1); }
        else { assert(t =~= s); assert(m == sm); assert(line@ =~= uncommented(s).line); 
            assert(t.subrange(0, k).len() == k); assert(cmdSepIdx == uncommented(s).cmd); }
    }
//@endfn
//@fn Parser::isDescriptionBlock
    ensures ({ let r = uncommented(old(this).m_line@); let l = r.line;
        final(this).m_line@ =~= l && *final(commandSeparatorPos) == r.cmd && res == is_block(l)
        && (res ==> *final(separatorPos) == sep_pos(l, 0, 0)
            && *final(separatorLength) == (if *final(separatorPos) + 1 < l.len() && l[*final(separatorPos) + 1] == 58 { 2int } else { 1 })) })
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@before 1
    let ghost l = this.m_line@;
//@loop 1
    invariant_except_break *separatorPos == -1,
    invariant 0 <= i <= l.len(), -i <= parenthesisLevel <= i, 
        sep_pos(l, 0, 0) == sep_pos(l, i as int, parenthesisLevel as int),
    ensures *separatorPos == sep_pos(l, 0, 0), *separatorPos < l.len(),
    decreases l.len() - i
//@endfn
//@fn split_append_helper
    requires 0 <= from <= to <= str@.len()
    ensures final(lst)@ =~= old(lst)@ + one(str@.subrange(from as int, to as int))
//@call isEmpty 1
    proof { assert(entry@ =~= unquote(qtrim(str@.subrange(from as int, to as int)))); }
//@endfn
//@fn splitTargetNames
    ensures res@ =~= names(str@, 0, 0, false)
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@before 1
    let ghost s = str@; let ghost mut f = 0int;
//@loop 1
    invariant 0 <= i <= s.len(), to == from, 0 <= from <= i, f <= i, f == from || (f == from + 1 && blank(s[from as int])),
        names(s, 0, 0, false) =~= lst@ + names(s, f, i as int, inDoubleQuotes),
    decreases s.len() - i
//@body 1
    proof {
        if f == from + 1 { lemma_ltrim_blank(s, from as int, i as int); }
        if blank(s[i as int]) && !inDoubleQuotes { assert(s.subrange(i as int, i as int) =~= Seq::<u16>::empty()); f = i + 1; }
    }
//@after 1
    proof { if f == from + 1 { lemma_ltrim_blank(s, from as int, s.len() as int); } assert(s.subrange(s.len() as int, s.len() as int) =~= Seq::<u16>::empty()); }
//@endfn
