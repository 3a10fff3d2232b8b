//@sources src/jomlib/makefilelinereader.cpp
//@use J05
//@cfg
{'structs': ['MakefileLineReader', 'MakefileLine'], 'bufs': {'MakefileLineReader::m_lineBuffer': 'char'}}
//@endcfg
// ---- the text of a file, cut into lines
pub open spec fn cut(t: Str) -> Str { let n = find_c(t, 10, 0); if n < 0 { t } else { t.take(n) } }
pub open spec fn rest(t: Str) -> Str { let n = find_c(t, 10, 0); if n < 0 { seq![] } else { t.skip(n + 1) } }
pub proof fn find_range(t: Str, c: u16, i: int)
    requires 0 <= i <= t.len()
    ensures find_c(t, c, i) == -1 || i <= find_c(t, c, i) < t.len(), find_c(t, c, i) >= 0 ==> t[find_c(t, c, i)] == c,
        forall|j: int| i <= j < t.len() && (find_c(t, c, i) < 0 || j < find_c(t, c, i)) ==> t[j] != c
    decreases t.len() - i
{ if i < t.len() && t[i] != c { find_range(t, c, i + 1); } }
pub proof fn find_is(t: Str, c: u16, i: int, k: int)
    requires 0 <= i <= k <= t.len(), k < t.len() ==> t[k] == c, forall|j: int| i <= j < k ==> t[j] != c
    ensures find_c(t, c, i) == (if k < t.len() { k } else { -1 })
    decreases k - i
{ if i < k { find_is(t, c, i + 1, k); } }
// a line starting with # does not count
#[verifier::opaque]
pub open spec fn body(t: Str) -> Str decreases t.len() via body_dec { if t.len() > 0 && t[0] == 35 { body(rest(t)) } else { t } }
#[via_fn]
proof fn body_dec(t: Str) { find_range(t, 10, 0); }
pub proof fn body_step(t: Str) ensures t.len() > 0 && t[0] == 35 ==> body(t) == body(rest(t)) && rest(t).len() < t.len(), !(t.len() > 0 && t[0] == 35) ==> body(t) == t
{ reveal_with_fuel(body, 2); find_range(t, 10, 0); }
// what a physical line says: its text, and whether it goes on on the next line (1: backslash, 2: caret)
pub struct Phys { pub content: Str, pub cont: int }
pub open spec fn at_end(l: Str, n: int) -> u16 { if l.len() < n { 0 } else { l[l.len() - n] } }
pub open spec fn phys(l: Str) -> Phys {
    let n = l.len() as int;
    if at_end(l, 1) == 92 {
        if at_end(l, 2) == 94 { Phys { content: l.take(n - 2).push(92), cont: 0 } }
        else if at_end(l, 2) == 92 { Phys { content: l, cont: 0 } }
        else { Phys { content: l.take(n - 1), cont: 1 } }
    } else if at_end(l, 1) == 94 { Phys { content: l.take(n - 1), cont: 2 } }
    else { Phys { content: l, cont: 0 } }
}
pub open spec fn line(t: Str) -> Option<Phys> { if body(t).len() == 0 { None } else { Some(phys(cut(body(t)))) } }
pub open spec fn after(t: Str) -> Str { rest(body(t)) }
pub open spec fn read_as(r: MakefileLine, t: Str) -> bool {
    match line(t) { None => qs_null(r.content) && r.content@.len() == 0 && r.continuation == 0, Some(p) => !qs_null(r.content) && r.content@ == p.content && r.continuation as int == p.cont }
}
pub open spec fn buf_ok(r: MakefileLineReader) -> bool { 3 <= r.m_nLineBufferSize && r.m_lineBuffer@.len() == r.m_nLineBufferSize && r.m_nLineBufferSize < 0x7000_0000 }
// 8 bit files are read byte by byte, all others through the text stream
pub open spec fn reads8(r: MakefileLineReader) -> bool { r.m_readLineImpl == mfp_MakefileLineReader_readLine_impl_local8bit() }
pub open spec fn reads_unicode(r: MakefileLineReader) -> bool { r.m_readLineImpl == mfp_MakefileLineReader_readLine_impl_unicode() }
pub open spec fn no_nul(s: Seq<i8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0 }
pub open spec fn text(r: MakefileLineReader) -> Str { if reads8(r) { lat(r.m_file@.rest) } else { r.m_textStream@ } }
pub open spec fn same_but_file(a: MakefileLineReader, b: MakefileLineReader) -> bool { a.m_textStream == b.m_textStream && a.m_readLineImpl == b.m_readLineImpl && a.m_file@.name == b.m_file@.name && a.m_file@.is_open == b.m_file@.is_open }
pub proof fn lat_skip(s: Seq<i8>, k: int) requires 0 <= k <= s.len() ensures lat(s.skip(k)) == lat(s).skip(k), lat(s).len() == s.len() { assert(lat(s.skip(k)) =~= lat(s).skip(k)); }
// the bytes read so far (n of them, without a line end before the last one) are the beginning of the text u
pub open spec fn filled(b: Seq<i8>, n: int, r: Seq<i8>, u: Str) -> bool {
    0 < n <= u.len() && n < b.len() && (forall|i: int| 0 <= i < n ==> lat_c(#[trigger] b[i]) == u[i]) && lat(r) == u.skip(n)
    && (forall|j: int| 0 <= j < n - 1 ==> #[trigger] u[j] != 10) && b[n] == 0
}
pub proof fn cut_is(u: Str, n: int)
    requires 0 < n <= u.len(), forall|j: int| 0 <= j < n - 1 ==> #[trigger] u[j] != 10, u[n - 1] == 10 || n == u.len()
    ensures u[n - 1] == 10 ==> cut(u) == u.take(n - 1) && rest(u) == u.skip(n), u[n - 1] != 10 ==> cut(u) == u && rest(u) == u.skip(n)
{ if u[n - 1] == 10 { find_is(u, 10, 0, n - 1); } else { find_is(u, 10, 0, n); assert(u.skip(n) =~= seq![]); } }
pub open spec fn done(u: Str, n: int) -> bool { u[n - 1] == 10 || n == u.len() ==> (u[n - 1] == 10 ==> cut(u) == u.take(n - 1) && rest(u) == u.skip(n)) && (u[n - 1] != 10 ==> cut(u) == u && rest(u) == u.skip(n)) }
pub proof fn is_done(u: Str, n: int) requires 0 < n <= u.len(), forall|j: int| 0 <= j < n - 1 ==> #[trigger] u[j] != 10 ensures done(u, n)
{ if u[n - 1] == 10 || n == u.len() { cut_is(u, n); } }
// one more piece read
pub proof fn piece(r: Seq<i8>, u: Str, n: int, max: int)
    requires 0 <= n < u.len(), lat(r) == u.skip(n), max >= 2
    ensures ({ let k = chunk(r, max); 1 <= k <= r.len() && k <= max - 1 && r.len() == u.len() - n && (forall|i: int| n <= i < n + k ==> lat_c(#[trigger] r[i - n]) == u[i]) && lat(r.skip(k)) == u.skip(n + k)
        && (forall|j: int| n <= j < n + k - 1 ==> #[trigger] u[j] != 10) && (u[n + k - 1] == 10 || k == r.len() || k == max - 1) })
{
    let k = chunk(r, max);
    assert(lat(r).len() == r.len()); find_range(lat(r), 10, 0);
    assert forall|i: int| n <= i < u.len() implies u[i] == lat_c(#[trigger] r[i - n]) by { assert(u.skip(n)[i - n] == u[i]); }
    lat_skip(r, k); assert(u.skip(n).skip(k) =~= u.skip(n + k));
    assert forall|j: int| n <= j < n + k - 1 implies #[trigger] u[j] != 10 by { assert(lat(r)[j - n] == u[j]); }
    if find_c(lat(r), 10, 0) == k - 1 { assert(lat(r)[k - 1] == u[n + k - 1]); }
}
//@fn MakefileLineReader::growLineBuffer
    requires old(this).m_nLineBufferSize as int + nGrow < 0x1_0000_0000, old(this).m_lineBuffer@.len() == old(this).m_nLineBufferSize
    ensures final(this).m_nLineBufferSize == old(this).m_nLineBufferSize + nGrow, final(this).m_lineBuffer@.len() == final(this).m_nLineBufferSize,
        forall|i: int| 0 <= i < old(this).m_lineBuffer@.len() ==> #[trigger] final(this).m_lineBuffer@[i] == old(this).m_lineBuffer@[i],
        final(this).m_file == old(this).m_file, final(this).m_textStream == old(this).m_textStream, final(this).m_readLineImpl == old(this).m_readLineImpl
//@endfn
//@fn MakefileLineReader::readLine_impl_unicode
    ensures read_as(res, old(this).m_textStream@), final(this).m_textStream@ == after(old(this).m_textStream@),
        final(this).m_file == old(this).m_file, final(this).m_lineBuffer == old(this).m_lineBuffer, final(this).m_nLineBufferSize == old(this).m_nLineBufferSize, final(this).m_readLineImpl == old(this).m_readLineImpl
//@entry
    let ghost t0 = this.m_textStream@;
//@loop 1
    invariant_except_break body(this.m_textStream@) == body(t0),
    invariant this.m_file == old(this).m_file, this.m_lineBuffer == old(this).m_lineBuffer, this.m_nLineBufferSize == old(this).m_nLineBufferSize, this.m_readLineImpl == old(this).m_readLineImpl,
    ensures ({ let u = body(t0); str@ == cut(u) && qs_null(str) == (u.len() == 0) && this.m_textStream@ == rest(u) }),
    decreases this.m_textStream@.len()
//@body 1
    proof { body_step(this.m_textStream@); find_range(this.m_textStream@, 10, 0); }
//@call =content 1
    proof { let c = cut(body(t0)); assert(str@ =~= phys(c).content); }
//@endfn
//@fn MakefileLineReader::readLine_impl_local8bit
    requires buf_ok(*old(this)), old(this).m_file@.rest.len() < 0x4000_0000
    ensures read_as(res, lat(old(this).m_file@.rest)), lat(final(this).m_file@.rest) == after(lat(old(this).m_file@.rest)), buf_ok(*final(this)), same_but_file(*final(this), *old(this))
//@entry
    let ghost t0 = lat(this.m_file@.rest);
//@loop 1
    invariant_except_break body(lat(this.m_file@.rest)) == body(t0), this.m_file@.rest.len() < 0x4000_0000,
    invariant t0 == lat(old(this).m_file@.rest), buf_ok(*this), same_but_file(*this, *old(this)),
    ensures ({ let u = body(t0); let c = cut(u); u.len() > 0 && bytesRead == c.len() + 1 && bytesRead < this.m_nLineBufferSize && lat(this.m_file@.rest) == rest(u) && forall|i: int| 0 <= i < c.len() ==> lat_c(#[trigger] this.m_lineBuffer@[i]) == c[i] }),
        bytesRead < 0x5000_0000,
    decreases this.m_file@.rest.len()
//@body 1
    let ghost u = lat(this.m_file@.rest); let ghost r0 = this.m_file@.rest;
    proof { body_step(u); lat_skip(r0, 0); assert(rest(u) =~= if u.len() == 0 { u } else { rest(u) }); if r0.len() > 0 { assert(u.skip(0) =~= u); piece(r0, u, 0, this.m_nLineBufferSize - 1); } }
//@loop 2
    invariant_except_break filled(this.m_lineBuffer@, bytesRead as int, this.m_file@.rest, u),
        this.m_lineBuffer@[bytesRead - 1] == 10 || this.m_file@.rest.len() == 0 || bytesRead == this.m_nLineBufferSize - 2, bytesRead <= this.m_nLineBufferSize - 2, done(u, bytesRead as int),
    invariant u.len() < 0x4000_0000, u.len() > 0, lat_c(this.m_lineBuffer@[0]) == u[0], buf_ok(*this), same_but_file(*this, *old(this)),
    ensures ({ let c = cut(u); bytesRead == c.len() + 1 && bytesRead < this.m_nLineBufferSize && lat(this.m_file@.rest) == rest(u) && forall|i: int| 0 <= i < c.len() ==> lat_c(#[trigger] this.m_lineBuffer@[i]) == c[i] }),
        bytesRead < 0x5000_0000,
    decreases this.m_file@.rest.len()
//@after 1
    let ghost b0 = this.m_lineBuffer@;
//@before 2
    proof { is_done(u, bytesRead as int); assert(lat(this.m_file@.rest).len() == this.m_file@.rest.len()); }
//@body 2
    let ghost b0 = this.m_lineBuffer@; let ghost n0 = bytesRead as int; let ghost r1 = this.m_file@.rest;
    proof { assert(lat(r1).len() == r1.len()); if n0 < u.len() { piece(r1, u, n0, this.m_nLineBufferSize + 1023 - n0); } else { assert(u[n0 - 1] != 10); } }
//@end 2
    proof { is_done(u, bytesRead as int); }
//@call =content 1
    proof {
        let c = cut(body(t0)); let n = c.len() as int; let b = this.m_lineBuffer@;
        if n >= 1 { assert(c[n - 1] == lat_c(b0[n - 1])); } if n >= 2 { assert(c[n - 2] == lat_c(b0[n - 2])); }
        assert(lat(b.subrange(0, bufLength as int)) =~= phys(c).content);
    }
//@endfn
//@fn MakefileLineReader::readLine
    requires buf_ok(*old(this)), reads8(*old(this)) || reads_unicode(*old(this)), old(this).m_file@.rest.len() < 0x4000_0000
    ensures buf_ok(*final(this)), same_but_file(*final(this), *old(this)) || reads_unicode(*old(this)), final(this).m_readLineImpl == old(this).m_readLineImpl,
        // 8 bit and Unicode files with the same text give the same lines
        !bInlineFileMode ==> read_as(res, text(*old(this))) && text(*final(this)) == after(text(*old(this))),
        // lines of inline files are not interpreted
        bInlineFileMode ==> res.continuation == 0 && text(*final(this)) == rest(text(*old(this))) && qs_null(res.content) == (text(*old(this)).len() == 0)
            && (reads_unicode(*old(this)) || no_nul(old(this).m_file@.rest) ==> res.content@ == cut(text(*old(this))) || res.content@ == cut(text(*old(this))).push(10) && find_c(text(*old(this)), 10, 0) >= 0)
//@entry
    let ghost r0 = this.m_file@.rest;
    proof { assert(lat(r0).len() == r0.len()); assert(lat(r0).skip(0) =~= lat(r0)); find_range(lat(r0), 10, 0); if r0.len() > 0 { piece(r0, lat(r0), 0, r0.len() as int + 2); let k = chunk(r0, r0.len() as int + 2); is_done(lat(r0), k); assert(lat(r0.take(k)) =~= lat(r0).take(k)); assert(lat(r0).take(k) =~= if lat(r0)[k - 1] == 10 { lat(r0).take(k - 1).push(10) } else { lat(r0) }); } else { assert(r0.skip(0) =~= r0); assert(r0.take(0) =~= r0); } }
//@endfn
