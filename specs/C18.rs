//@sources src/jomlib/preprocessor.cpp
//@cfg
{'structs': []}
//@endcfg
// The text the line stands for: ^# is a literal #, an unescaped # starts a comment
pub struct Un { pub t: Str, pub comment: bool }
pub open spec fn un(s: Str, i: int) -> Un decreases s.len() - i {
    if i < 0 || i >= s.len() { Un { t: seq![], comment: false } }
    else if s[i] == 94 && i + 1 < s.len() && s[i + 1] == 35 {
        let r = un(s, i + 2); Un { t: seq![35u16] + r.t, comment: r.comment }
    } else if s[i] == 35 { Un { t: seq![], comment: true } }
    else { let r = un(s, i + 1); Un { t: seq![s[i]] + r.t, comment: r.comment } }
}
pub open spec fn uncomment(s: Str) -> Str { let r = un(s, 0); if r.comment { qtrim(r.t) } else { r.t } }
// p is the next # from i on (or the end): what un makes of the part in between
pub proof fn un_seg(s: Str, i: int, p: int)
    requires 0 <= i <= p <= s.len(), forall|k: int| i <= k < p ==> s[k] != 35, p < s.len() ==> s[p] == 35
    ensures
        p == s.len() ==> un(s, i).t =~= s.subrange(i, p) && !un(s, i).comment,
        p < s.len() && p > i && s[p - 1] == 94 ==> un(s, i).t =~= s.subrange(i, p - 1).push(35) + un(s, p + 1).t && un(s, i).comment == un(s, p + 1).comment,
        p < s.len() && !(p > i && s[p - 1] == 94) ==> un(s, i).t =~= s.subrange(i, p) && un(s, i).comment,
    decreases p - i
{
    if i < p {
        if s[i] == 94 && i + 1 == p && p < s.len() { } else { un_seg(s, i + 1, p); }
    }
}
pub proof fn lemma_find(s: Str, c: u16, i: int)
    requires 0 <= i
    ensures find_c(s, c, i) == -1 || i <= find_c(s, c, i) < s.len(),
        find_c(s, c, i) >= 0 ==> s[find_c(s, c, i)] == c && forall|k: int| i <= k < find_c(s, c, i) ==> s[k] != c,
        find_c(s, c, i) < 0 ==> forall|k: int| i <= k < s.len() ==> s[k] != c,
    decreases s.len() - i
{
    if i < s.len() && s[i] != c { lemma_find(s, c, i + 1); }
}
pub proof fn same_tail(s: Str, j: int, l: Str, d: int)
    requires 0 <= j <= s.len(), 0 <= d <= l.len(), l.subrange(d, l.len() as int) =~= s.subrange(j, s.len() as int)
    ensures s.len() - j == l.len() - d,
        forall|k: int| j <= k < s.len() ==> #[trigger] s[k] == l[k - j + d],
        forall|k: int| d <= k < l.len() ==> #[trigger] l[k] == s[k - d + j],
{
    assert(l.subrange(d, l.len() as int).len() == s.subrange(j, s.len() as int).len());
    assert forall|k: int| j <= k < s.len() implies #[trigger] s[k] == l[k - j + d] by {
        assert(s.subrange(j, s.len() as int)[k - j] == l.subrange(d, l.len() as int)[k - j]);
    }
    assert forall|k: int| d <= k < l.len() implies #[trigger] l[k] == s[k - d + j] by {
        assert(s.subrange(j, s.len() as int)[k - d] == l.subrange(d, l.len() as int)[k - d]);
    }
}
//@fn Preprocessor::removeInlineComments
    ensures final(line)@ =~= uncomment(old(line)@)
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@entry
    let ghost s0 = line@;
    let ghost mut j = 0int;
//@loop 1
    invariant_except_break
        -1 <= idx < line@.len() || (idx == -1 && line@.len() == 0),
        0 <= j <= s0.len(), line@.len() == idx + 1 + s0.len() - j,
        idx >= 0 ==> line@[idx as int] == 35,
        line@.subrange(idx + 1, line@.len() as int) =~= s0.subrange(j, s0.len() as int),
        un(s0, 0).t =~= line@.subrange(0, idx + 1) + un(s0, j).t, un(s0, 0).comment == un(s0, j).comment,
    ensures
        idx < 0 ==> line@ =~= uncomment(s0),
        idx >= 0 ==> idx < line@.len() && uncomment(s0) =~= qtrim(line@.subrange(0, idx as int)),
    decreases s0.len() - j
//@body 1
    let ghost l1 = line@; let ghost d = idx + 1; 
    proof {
        lemma_find(l1, 35, d as int);
        let f = find_c(l1, 35, d as int);
        let p = if f < 0 { s0.len() as int } else { f - d + j };
        same_tail(s0, j, l1, d as int);
        un_seg(s0, j, p);
        assert(f < 0 ==> l1 =~= l1.subrange(0, d as int) + s0.subrange(j, p));
        assert(f >= 0 ==> l1.subrange(0, f) =~= l1.subrange(0, d as int) + s0.subrange(j, p));
        assert(f > d ==> s0[p - 1] == l1[f - 1]);
        if f > d && s0[p - 1] == 94 {
            assert(l1.subrange(0, f - 1) =~= l1.subrange(0, d as int) + s0.subrange(j, p - 1));
            j = p + 1;
            let l2 = qremove(l1, f - 1, 1);
            assert(l2.subrange(0, f) =~= l1.subrange(0, f - 1).push(35));
            assert(l2.subrange(f, l2.len() as int) =~= s0.subrange(j, s0.len() as int));
        }
    }
//@endfn
