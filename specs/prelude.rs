// Trusted model of the Qt value types used by jom (QString, QList, QSet, QHash, ...). Every function here is an
// assumption about the documented behaviour of Qt 5; nothing here talks about jom.
#![allow(unused_imports, unused_mut, unused_variables, unused_assignments, dead_code, non_snake_case, unused_parens, unused_labels, unreachable_code, unused_braces, non_camel_case_types)]
use vstd::prelude::*;
use vstd::seq_lib::*;
verus! {
mod qt {
use vstd::prelude::*;
use vstd::seq_lib::*;

// ---------------------------------------------------------------- strings
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct QString { _p: u64 }
impl View for QString { type V = Seq<u16>; uninterp spec fn view(&self) -> Seq<u16>; }
pub type Str = Seq<u16>;
pub uninterp spec fn qs_null(s: QString) -> bool;
// no string of 2^30 characters or more can exist (memory exhaustion ends the program first)
pub broadcast axiom fn axiom_qs_len(s: QString) ensures #[trigger] s@.len() <= 0x3fff_ffff;
pub broadcast axiom fn axiom_qs_null(s: QString) ensures #[trigger] qs_null(s) ==> s@.len() == 0;

pub open spec fn clampi(lo: int, x: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
pub open spec fn qmid(s: Str, pos: int, n: int) -> Str {
    let l = s.len() as int;
    if pos > l { seq![] }
    else if pos < 0 {
        if n < 0 || n + pos >= l { s } else if n + pos <= 0 { seq![] } else { s.subrange(0, n + pos) }
    } else {
        let k = if n < 0 || n > l - pos { l - pos } else { n };
        s.subrange(pos, pos + k)
    }
}
pub open spec fn qleft(s: Str, n: int) -> Str { if n < 0 || n >= s.len() { s } else { s.subrange(0, n) } }
pub open spec fn qright(s: Str, n: int) -> Str { if n < 0 || n >= s.len() { s } else { s.subrange(s.len() - n, s.len() as int) } }
pub open spec fn qremove(s: Str, pos0: int, n: int) -> Str {
    let l = s.len() as int;
    let pos = if pos0 < 0 { pos0 + l } else { pos0 };
    if pos < 0 || pos >= l || n <= 0 { s }
    else if n >= l - pos { s.subrange(0, pos) }
    else { s.subrange(0, pos) + s.subrange(pos + n, l) }
}
pub open spec fn qreplace3(s: Str, pos: int, n0: int, a: Str) -> Str {
    let l = s.len() as int;
    if pos < 0 || pos > l { s } else {
        let n = if n0 > l - pos { l - pos } else { n0 };
        s.subrange(0, pos) + a + s.subrange(pos + n, l)
    }
}
pub open spec fn occurs(s: Str, p: Str, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) =~= p }
// first index >= i of character c, or -1
pub open spec fn find_c(s: Str, c: u16, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { -1 } else if s[i] == c { i } else { find_c(s, c, i + 1) }
}
pub open spec fn rfind_c(s: Str, c: u16, i: int) -> int decreases (if i < 0 { 0 } else { i + 1 }) {
    if i < 0 || i >= s.len() { -1 } else if s[i] == c { i } else { rfind_c(s, c, i - 1) }
}
pub open spec fn find_s(s: Str, p: Str, i: int) -> int decreases s.len() - i {
    if i < 0 || i + p.len() > s.len() { -1 } else if s.subrange(i, i + p.len()) =~= p { i } else { find_s(s, p, i + 1) }
}
pub open spec fn from_idx(len: int, f: int) -> int { if f < 0 { if f + len < 0 { 0 } else { f + len } } else { f } }
pub open spec fn qstarts(s: Str, p: Str) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p }
pub open spec fn qends(s: Str, p: Str) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) =~= p }
// replace all non-overlapping occurrences, from the left
// (an empty text occurs at every position, the end included)
pub open spec fn qreplall(s: Str, b: Str, a: Str) -> Str { if b.len() == 0 { qinsall(s, a, 0) } else { qreplall_from(s, b, a, 0) } }
pub open spec fn qinsall(s: Str, a: Str, i: int) -> Str decreases s.len() - i {
    if i < 0 || i >= s.len() { a } else { a + seq![s[i]] + qinsall(s, a, i + 1) }
}
pub open spec fn qreplall_from(s: Str, b: Str, a: Str, i: int) -> Str decreases s.len() - i when b.len() > 0 && i >= 0 {
    if i >= s.len() { seq![] }
    else if occurs(s, b, i) { a + qreplall_from(s, b, a, i + b.len()) }
    else { seq![s[i]] + qreplall_from(s, b, a, i + 1) }
}
pub uninterp spec fn uc_lower(s: Str) -> Str;
pub uninterp spec fn uc_upper(s: Str) -> Str;
pub broadcast axiom fn axiom_lower_idem(s: Str) ensures #[trigger] uc_lower(uc_lower(s)) == uc_lower(s);
pub uninterp spec fn uc_upper_c(c: u16) -> u16;
pub uninterp spec fn uc_lower_c(c: u16) -> u16;
pub broadcast axiom fn axiom_upper_c(c: u16)
    ensures c < 128 ==> #[trigger] uc_upper_c(c) == (if 97 <= c <= 122 { (c - 32) as u16 } else { c });
pub broadcast axiom fn axiom_lower_c(c: u16)
    ensures c < 128 ==> #[trigger] uc_lower_c(c) == (if 65 <= c <= 90 { (c + 32) as u16 } else { c });
pub uninterp spec fn uc_space(c: u16) -> bool;
pub uninterp spec fn uc_digit(c: u16) -> bool;
pub uninterp spec fn uc_letter(c: u16) -> bool;
pub open spec fn uc_alnum(c: u16) -> bool { uc_letter(c) || uc_number(c) }
pub uninterp spec fn uc_number(c: u16) -> bool;
pub broadcast axiom fn axiom_space(c: u16) ensures c < 128 ==> #[trigger] uc_space(c) == (c == 32 || (9 <= c && c <= 13));
pub broadcast axiom fn axiom_digit(c: u16) ensures c < 128 ==> #[trigger] uc_digit(c) == (48 <= c && c <= 57);
pub broadcast axiom fn axiom_number(c: u16) ensures c < 128 ==> #[trigger] uc_number(c) == (48 <= c && c <= 57);
pub broadcast axiom fn axiom_letter(c: u16) ensures c < 128 ==> #[trigger] uc_letter(c) == ((65 <= c && c <= 90) || (97 <= c && c <= 122));
pub broadcast group qt_axioms { axiom_qs_len, axiom_qs_null, axiom_space, axiom_digit, axiom_number, axiom_letter, axiom_upper_c, axiom_lower_c, axiom_lower_idem, axiom_ql_len, axiom_qset_fin, axiom_qhash_fin }

pub open spec fn ltrim(s: Str) -> Str decreases s.len() {
    if s.len() > 0 && uc_space(s[0]) { ltrim(s.subrange(1, s.len() as int)) } else { s }
}
pub open spec fn rtrim(s: Str) -> Str decreases s.len() {
    if s.len() > 0 && uc_space(s[s.len() - 1]) { rtrim(s.subrange(0, s.len() - 1)) } else { s }
}
pub open spec fn qtrim(s: Str) -> Str { rtrim(ltrim(s)) }
pub uninterp spec fn str_to_uint(s: Str) -> u32;      // 0 when it is no number or out of range
pub uninterp spec fn str_to_uint_ok(s: Str) -> bool;
pub uninterp spec fn str_to_int(s: Str) -> i32;
pub uninterp spec fn str_to_int_ok(s: Str) -> bool;
pub uninterp spec fn int_to_str(n: int) -> Str;
pub uninterp spec fn str_lt(a: Str, b: Str) -> bool;
pub open spec fn eq_nocase(a: Str, b: Str) -> bool { uc_fold(a) == uc_fold(b) }
pub uninterp spec fn uc_fold(s: Str) -> Str;
// folding works character by character
pub axiom fn axiom_fold_len(s: Str) ensures uc_fold(s).len() == s.len();
pub open spec fn lex_less(a: Str, b: Str) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] } else { lex_less(a.drop_first(), b.drop_first()) }
}

impl QString {
    #[verifier::external_body]
    pub fn new() -> (r: QString) ensures r@ == Seq::<u16>::empty(), qs_null(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(Ghost(s): Ghost<Str>) -> (r: QString) ensures r@ == s, !qs_null(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_C(c: u16) -> (r: QString) ensures r@ == seq![c], !qs_null(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn concat(a: QString, b: QString) -> (r: QString) ensures r@ == a@ + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn new_C(c: u16) -> (r: QString) ensures r@ == seq![c], !qs_null(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn number_i(n: i32) -> (r: QString) ensures r@ == int_to_str(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn number_l(n: i64) -> (r: QString) ensures r@ == int_to_str(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn number_m(n: u64) -> (r: QString) ensures r@ == int_to_str(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn number_u(n: u32) -> (r: QString) ensures r@ == int_to_str(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn length(&self) -> (r: i32) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(&self) -> (r: i32) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: i32) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn isEmpty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn isNull(&self) -> (r: bool) ensures r == qs_null(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn at_i(&self, i: i32) -> (r: u16) requires 0 <= i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn set_i_C(&mut self, i: i32, c: u16) requires 0 <= i < old(self)@.len()
        ensures final(self)@ == old(self)@.update(i as int, c) { unimplemented!() }
    #[verifier::external_body]
    pub fn eq_S(&self, o: QString) -> (r: bool) ensures r == (self@ =~= o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn mid_i(&self, p: i32) -> (r: QString) ensures r@ == qmid(self@, p as int, -1) { unimplemented!() }
    #[verifier::external_body]
    pub fn mid_i_i(&self, p: i32, n: i32) -> (r: QString) ensures r@ == qmid(self@, p as int, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn midRef_i(&self, p: i32) -> (r: QString) ensures r@ == qmid(self@, p as int, -1) { unimplemented!() }
    #[verifier::external_body]
    pub fn midRef_i_i(&self, p: i32, n: i32) -> (r: QString) ensures r@ == qmid(self@, p as int, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn left_i(&self, n: i32) -> (r: QString) ensures r@ == qleft(self@, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn leftRef_i(&self, n: i32) -> (r: QString) ensures r@ == qleft(self@, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn right_i(&self, n: i32) -> (r: QString) ensures r@ == qright(self@, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn rightRef_i(&self, n: i32) -> (r: QString) ensures r@ == qright(self@, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_i_i(&mut self, p: i32, n: i32) ensures final(self)@ == qremove(old(self)@, p as int, n as int), !qs_null(*old(self)) ==> !qs_null(*final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_C(&mut self, c: u16) ensures final(self)@ == old(self)@.filter(|x: u16| x != c) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_X(&self, x: QRegExp) -> (r: QList<QString>) ensures r@ == rx_split(x@.pat, x@.cs, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_X_i(&self, x: QRegExp, b: i32) -> (r: QList<QString>) ensures r@ == (if b == 1 { non_empty(rx_split(x@.pat, x@.cs, self@)) } else { rx_split(x@.pat, x@.cs, self@) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn simplified(&self) -> (r: QString) ensures r@ == uc_simplified(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_C_i(&self, c: u16, b: i32) -> (r: QList<QString>) ensures r@ == (if b == 1 { non_empty(split_c(self@, c)) } else { split_c(self@, c) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn replace_i_i_S(&mut self, p: i32, n: i32, a: QString) requires n >= 0
        ensures final(self)@ == qreplace3(old(self)@, p as int, n as int, a@) { unimplemented!() }
    #[verifier::external_body]
    pub fn replace_S_S(&mut self, b: QString, a: QString)
        ensures final(self)@ == qreplall(old(self)@, b@, a@) { unimplemented!() }
    #[verifier::external_body]
    pub fn replace_C_C(&mut self, b: u16, a: u16)
        ensures final(self)@ == subst_c(old(self)@, b, a) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_i_C(&mut self, p: i32, c: u16) requires 0 <= p <= old(self)@.len()
        ensures final(self)@ == qreplace3(old(self)@, p as int, 0, seq![c]) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_i_S(&mut self, p: i32, a: QString) requires 0 <= p <= old(self)@.len()
        ensures final(self)@ == qreplace3(old(self)@, p as int, 0, a@) { unimplemented!() }
    #[verifier::external_body]
    pub fn append_S(&mut self, a: QString) ensures final(self)@ == old(self)@ + a@, qs_null(*final(self)) == (qs_null(*old(self)) && qs_null(a)) { unimplemented!() }
    #[verifier::external_body]
    pub fn append_C(&mut self, a: u16) ensures final(self)@ == old(self)@.push(a), !qs_null(*final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn prepend_S(&mut self, a: QString) ensures final(self)@ == a@ + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn prepend_C(&mut self, a: u16) ensures final(self)@ == seq![a] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn chop_i(&mut self, n: i32) ensures final(self)@ == (if n <= 0 { old(self)@ } else { qleft(old(self)@, if n > old(self)@.len() { 0 } else { old(self)@.len() - n }) }), !qs_null(*old(self)) ==> !qs_null(*final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate_i(&mut self, n: i32) ensures final(self)@ == (if n < 0 { seq![] } else { qleft(old(self)@, n as int) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn resize_i(&mut self, n: i32) requires n <= old(self)@.len() ensures final(self)@ == (if n < 0 { seq![] } else { qleft(old(self)@, n as int) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<u16>::empty(), qs_null(*final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve_i(&mut self, n: i32) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn squeeze(&mut self) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn trimmed(&self) -> (r: QString) ensures r@ == qtrim(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn toLower(&self) -> (r: QString) ensures r@ == uc_lower(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn toUpper(&self) -> (r: QString) ensures r@ == uc_upper(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn toString(&self) -> (r: QString) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_C(&self, c: u16) -> (r: bool) ensures r == (find_c(self@, c, 0) >= 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_S(&self, p: QString) -> (r: bool) ensures r == (find_s(self@, p@, 0) >= 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn indexOf_C(&self, c: u16) -> (r: i32) ensures r == find_c(self@, c, 0), -1 <= r < self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn indexOf_C_i(&self, c: u16, f: i32) -> (r: i32) ensures r == find_c(self@, c, from_idx(self@.len() as int, f as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn indexOf_S(&self, p: QString) -> (r: i32) ensures r == find_s(self@, p@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn indexOf_S_i(&self, p: QString, f: i32) -> (r: i32) requires f >= 0 ensures r == find_s(self@, p@, f as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn lastIndexOf_C(&self, c: u16) -> (r: i32) ensures r == rfind_c(self@, c, self@.len() - 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn startsWith_C(&self, c: u16) -> (r: bool) ensures r == (self@.len() > 0 && self@[0] == c) { unimplemented!() }
    #[verifier::external_body]
    pub fn startsWith_S(&self, p: QString) -> (r: bool) ensures r == qstarts(self@, p@) { unimplemented!() }
    #[verifier::external_body]
    pub fn endsWith_C(&self, c: u16) -> (r: bool) ensures r == (self@.len() > 0 && self@[self@.len() - 1] == c) { unimplemented!() }
    #[verifier::external_body]
    pub fn endsWith_S(&self, p: QString) -> (r: bool) ensures r == qends(self@, p@) { unimplemented!() }
    #[verifier::external_body]
    pub fn startsWith_S_i(&self, p: QString, cs: i32) -> (r: bool)
        ensures cs == 1 ==> r == qstarts(self@, p@),
            cs == 0 ==> r == (p@.len() <= self@.len() && eq_nocase(qleft(self@, p@.len() as int), p@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn endsWith_S_i(&self, p: QString, cs: i32) -> (r: bool)
        ensures cs == 1 ==> r == qends(self@, p@),
            cs == 0 ==> r == (p@.len() <= self@.len() && eq_nocase(qright(self@, p@.len() as int), p@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_S_i(&self, p: QString, cs: i32) -> (r: i32)
        ensures cs == 1 ==> (r == 0) == (self@ =~= p@), cs == 0 ==> (r == 0) == eq_nocase(self@, p@) && (r < 0) == lex_less(uc_fold(self@), uc_fold(p@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn arg_S(&self, a: QString) -> QString { unimplemented!() }
    #[verifier::external_body]
    pub fn arg_i(&self, a: i32) -> QString { unimplemented!() }
    #[verifier::external_body]
    pub fn arg_S_S(&self, a: QString, b: QString) -> QString { unimplemented!() }
    #[verifier::external_body]
    pub fn toUInt(&self) -> (r: u32) ensures r == str_to_uint(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn toUInt_out(&self) -> (r: (u32, bool)) ensures r.0 == str_to_uint(self@), r.1 == str_to_uint_ok(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn toInt(&self) -> (r: i32) ensures r == str_to_int(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn toInt_out(&self) -> (r: (i32, bool)) ensures r.0 == str_to_int(self@), r.1 == str_to_int_ok(self@) { unimplemented!() }
}

// ---------------------------------------------------------------- characters (QChar is u16)
#[verifier::external_body]
pub fn qc_isSpace(c: u16) -> (r: bool) ensures r == uc_space(c) { unimplemented!() }
#[verifier::external_body]
pub fn qc_isDigit(c: u16) -> (r: bool) ensures r == uc_digit(c) { unimplemented!() }
#[verifier::external_body]
pub fn qc_isNumber(c: u16) -> (r: bool) ensures r == uc_number(c) { unimplemented!() }
#[verifier::external_body]
pub fn qc_isLetter(c: u16) -> (r: bool) ensures r == uc_letter(c) { unimplemented!() }
#[verifier::external_body]
pub fn qc_isLetterOrNumber(c: u16) -> (r: bool) ensures r == uc_alnum(c) { unimplemented!() }
#[verifier::external_body]
pub fn qc_toUpper(c: u16) -> (r: u16) ensures r == uc_upper_c(c) { unimplemented!() }
#[verifier::external_body]
pub fn qc_toLower(c: u16) -> (r: u16) ensures r == uc_lower_c(c) { unimplemented!() }
pub open spec fn to_latin1(c: u16) -> i8 { if c > 255 { 0 } else if c > 127 { (c - 256) as i8 } else { c as i8 } }
#[verifier::external_body]
pub fn qc_toLatin1(c: u16) -> (r: i8) ensures r == to_latin1(c) { unimplemented!() }
#[verifier::external_body]
pub fn qc_isNull(c: u16) -> (r: bool) ensures r == (c == 0) { unimplemented!() }
#[verifier::external_body]
pub fn qc_unicode(c: u16) -> (r: u16) ensures r == c { unimplemented!() }
#[verifier::external_body]
pub fn latin1_of(c: i8) -> (r: u16) ensures r == (if c < 0 { c + 256 } else { c as int }) { unimplemented!() }

// ---------------------------------------------------------------- file names (QFileInfo: pure functions of the name only)
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct QFileInfo { _p: u64 }
impl View for QFileInfo { type V = Str; uninterp spec fn view(&self) -> Str; }
pub uninterp spec fn qfi_base(s: Str) -> Str;
pub uninterp spec fn qfi_file(s: Str) -> Str;
pub uninterp spec fn qfi_relative(s: Str) -> bool;
impl QFileInfo {
    #[verifier::external_body]
    pub fn new_S(n: QString) -> (r: QFileInfo) ensures r@ == n@ { unimplemented!() }
    #[verifier::external_body]
    pub fn baseName(&self) -> (r: QString) ensures r@ == qfi_base(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn fileName(&self) -> (r: QString) ensures r@ == qfi_file(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn isRelative(&self) -> (r: bool) ensures r == qfi_relative(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) ensures r == qfi_exists(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn absoluteFilePath(&self) -> (r: QString) ensures r@ == qfi_abs(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn absolutePath(&self) -> (r: QString) ensures r@ == qfi_abs_dir(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn setFile_S(&mut self, n: QString) ensures final(self)@ == n@ { unimplemented!() }
}
pub uninterp spec fn qfi_exists(s: Str) -> bool;       // the file system is the same throughout one call
pub uninterp spec fn qfi_abs(s: Str) -> Str;
pub uninterp spec fn qfi_abs_dir(s: Str) -> Str;
// the parts of s between characters c
pub open spec fn non_empty(v: Seq<Str>) -> Seq<Str> { v.filter(|p: Str| p.len() > 0) }
pub open spec fn subst_c(s: Str, b: u16, a: u16) -> Str { s.map_values(|x: u16| if x == b { a } else { x }) }
pub open spec fn split_c(s: Str, c: u16) -> Seq<Str> decreases s.len() via split_c_dec {
    let k = find_c(s, c, 0);
    if k < 0 || k >= s.len() { seq![s] } else { seq![s.subrange(0, k)] + split_c(s.subrange(k + 1, s.len() as int), c) }
}
#[via_fn]
proof fn split_c_dec(s: Str, c: u16) { }
// ---------------------------------------------------------------- regular expressions (QRegExp)
pub struct RxV { pub pat: Str, pub cs: int, pub syn: int, pub caps: Seq<Str>, pub mlen: int }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct QRegExp { _p: u64 }
impl View for QRegExp { type V = RxV; uninterp spec fn view(&self) -> RxV; }
pub uninterp spec fn uc_simplified(s: Str) -> Str;   // QString::simplified

pub uninterp spec fn rx_split(pat: Str, cs: int, s: Str) -> Seq<Str>;    // the parts between the matches
pub uninterp spec fn rx_index(pat: Str, cs: int, s: Str) -> int;      // where the first match starts, -1: none
pub uninterp spec fn rx_exact(pat: Str, cs: int, s: Str) -> bool;     // does the pattern match the whole string
pub uninterp spec fn rx_cap(pat: Str, cs: int, s: Str, n: int) -> Str; // captured texts of an exact match
impl QRegExp {
    #[verifier::external_body]
    pub fn new() -> (r: QRegExp) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_S(p: QString) -> (r: QRegExp) ensures r@.pat == p@, r@.cs == 1, r@.syn == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn new_S_i(p: QString, cs: i32) -> (r: QRegExp) ensures r@.pat == p@, r@.cs == cs, r@.syn == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn new_S_i_i(p: QString, cs: i32, syn: i32) -> (r: QRegExp) ensures r@.pat == p@, r@.cs == cs, r@.syn == syn { unimplemented!() }
    #[verifier::external_body]
    pub fn indexIn_S(&mut self, s: QString) -> (r: i32)
        ensures final(self)@.pat == old(self)@.pat, final(self)@.cs == old(self)@.cs, final(self)@.syn == old(self)@.syn,
            r == rx_index(old(self)@.pat, old(self)@.cs, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn exactMatch_S(&mut self, s: QString) -> (r: bool)
        ensures final(self)@.pat == old(self)@.pat, final(self)@.cs == old(self)@.cs, final(self)@.syn == old(self)@.syn,
            r == rx_exact(old(self)@.pat, old(self)@.cs, s@),
            r ==> forall|n: int| 0 <= n ==> #[trigger] final(self)@.caps[n] == rx_cap(old(self)@.pat, old(self)@.cs, s@, n) { unimplemented!() }
    #[verifier::external_body]
    pub fn cap_i(&self, n: i32) -> (r: QString) ensures r@ == self@.caps[n as int] { unimplemented!() }
}
pub fn E_Qt_CaseInsensitive() -> (r: i32) ensures r == 0 { 0 }
pub fn E_Qt_CaseSensitive() -> (r: i32) ensures r == 1 { 1 }
pub fn E_QChar_ByteOrderMark() -> (r: i32) ensures r == 0xfeff { 0xfeff }
pub fn E_QString_SkipEmptyParts() -> (r: i32) ensures r == 1 { 1 }
pub fn E_QString_KeepEmptyParts() -> (r: i32) ensures r == 0 { 0 }
pub fn E_QRegExp_RegExp() -> (r: i32) ensures r == 0 { 0 }
pub fn E_QRegExp_RegExp2() -> (r: i32) ensures r == 3 { 3 }

// ---------------------------------------------------------------- machine arithmetic
pub open spec fn cdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
pub open spec fn crem(a: int, b: int) -> int { a - cdiv(a, b) * b }
#[verifier::external_body]
pub fn cdiv_i32(a: i32, b: i32) -> (r: i32) requires b != 0, !(a == i32::MIN && b == -1) ensures r == cdiv(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn crem_i32(a: i32, b: i32) -> (r: i32) requires b != 0, !(a == i32::MIN && b == -1) ensures r == crem(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn shift_shl_i32(a: i32, b: i32) -> (r: i32) requires 0 <= b < 32, a >= 0 ensures r == a << b { unimplemented!() }
#[verifier::external_body]
pub fn shift_shr_i32(a: i32, b: i32) -> (r: i32) requires 0 <= b < 32 ensures r == a >> b { unimplemented!() }
#[verifier::external_body]
pub fn shift_shl_u32(a: u32, b: i32) -> (r: u32) requires 0 <= b < 32 ensures r == a << b { unimplemented!() }
#[verifier::external_body]
pub fn cast_i32_u32(a: i32) -> (r: u32) ensures r == (if a < 0 { a + 0x1_0000_0000 } else { a as int }) { unimplemented!() }
#[verifier::external_body]
pub fn cast_u32_i32(a: u32) -> (r: i32) ensures r == (if a > 0x7fff_ffff { a - 0x1_0000_0000 } else { a as int }) { unimplemented!() }
#[verifier::external_body]
pub fn cast_i32_i8(a: i32) -> (r: i8) ensures -128 <= a <= 127 ==> r == a { unimplemented!() }
#[verifier::external_body]
pub fn cast_i32_u16(a: i32) -> (r: u16) ensures 0 <= a <= 65535 ==> r == a { unimplemented!() }
#[verifier::external_body]
pub fn cast_i8_u16(a: i8) -> (r: u16) ensures r == (if a < 0 { a + 65536 } else { a as int }) { unimplemented!() }
#[verifier::external_body]
pub fn cast_i32_u64(a: i32) -> (r: u64) ensures a >= 0 ==> r == a { unimplemented!() }
#[verifier::external_body]
pub fn cast_u64_i32(a: u64) -> (r: i32) ensures a <= 0x7fff_ffff ==> r == a { unimplemented!() }
#[verifier::external_body]
pub fn cast_i64_i32(a: i64) -> (r: i32) ensures -0x8000_0000 <= a <= 0x7fff_ffff ==> r == a { unimplemented!() }
#[verifier::external_body]
pub fn cast_i64_u64(a: i64) -> (r: u64) ensures a >= 0 ==> r == a { unimplemented!() }
#[verifier::external_body]
pub fn cast_u64_u32(a: u64) -> (r: u32) ensures a <= 0xffff_ffff ==> r == a { unimplemented!() }
#[verifier::external_body]
pub fn nondet_i32() -> i32 { unimplemented!() }
#[verifier::external_body]
pub fn nondet_u32() -> u32 { unimplemented!() }
#[verifier::external_body]
pub fn nondet_i8() -> i8 { unimplemented!() }
#[verifier::external_body]
pub fn nondet_u8() -> u8 { unimplemented!() }
#[verifier::external_body]
pub fn nondet_u16() -> u16 { unimplemented!() }
#[verifier::external_body]
pub fn nondet_i64() -> i64 { unimplemented!() }
#[verifier::external_body]
pub fn nondet_u64() -> u64 { unimplemented!() }
#[verifier::external_body]
pub fn nondet_bool() -> bool { unimplemented!() }
// ends the program
#[verifier::external_body]
pub fn qfn_exit_i(code: i32) ensures false { unimplemented!() }
// out of memory (Q_CHECK_PTR): never reached
#[verifier::external_body]
pub fn qfn_qBadAlloc() requires false { unimplemented!() }
// the separator of the platform the code was compiled for
pub uninterp spec fn dir_sep() -> u16;
// Windows: file times are compared as 64 bit numbers
#[verifier::external_body]
pub fn qfn_CompareFileTime_m_m(a: u64, b: u64) -> (r: i64) ensures (r < 0) == (a < b), (r == 0) == (a == b) { unimplemented!() }
pub uninterp spec fn native_name(n: Str) -> Str;
#[verifier::external_body]
pub fn qfn_QDir_toNativeSeparators_S(n: QString) -> (r: QString) ensures r@ == native_name(n@) { unimplemented!() }
#[verifier::external_body]
pub fn qfn_GetTickCount() -> (r: u32) { unimplemented!() }
#[verifier::external_body]
pub fn qfn_GetCurrentProcessId() -> (r: u32) { unimplemented!() }
pub uninterp spec fn qfile_exists(name: Str) -> bool;
#[verifier::external_body]
pub fn qfn_qGetEnvironmentVariable_Z(name: QString) -> (r: QString) { unimplemented!() }
#[verifier::external_body]
pub fn qfn_qFatal_Z_Z(fmt: QString, a: QString) ensures false { unimplemented!() }
#[verifier::external_body]
pub fn qfn_QFile_exists_S(name: QString) -> (r: bool) ensures r == qfile_exists(name@) { unimplemented!() }
#[verifier::external_body]
pub fn qfn_QDir_separator() -> (r: u16) ensures r == dir_sep() { unimplemented!() }
pub fn qfn_qMin_i_i(a: i32, b: i32) -> (r: i32) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn qfn_qMax_i_i(a: i32, b: i32) -> (r: i32) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
pub fn qfn_std_numeric_limits_unsigned_int_max() -> (r: u32) ensures r == u32::MAX { u32::MAX }
pub fn qfn_std_numeric_limits_int_max() -> (r: i32) ensures r == i32::MAX { i32::MAX }

// ---------------------------------------------------------------- lists
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct QList<T> { _p: std::marker::PhantomData<T> }
impl<T> Clone for QList<T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<T> Copy for QList<T> {}
impl<T: View> View for QList<T> { type V = Seq<T::V>; uninterp spec fn view(&self) -> Seq<T::V>; }
pub broadcast axiom fn axiom_ql_len<T: View>(s: QList<T>) ensures #[trigger] s@.len() <= 0x3fff_ffff;
// default-constructed value of an element type, as QHash::value, operator[] and QVector(n) produce it
pub open spec fn rem_all<V>(s: Seq<V>, v: V) -> Seq<V> { s.filter(|x: V| x != v) }
pub uninterp spec fn qdefault<V>() -> V;
pub axiom fn axiom_qdefault() ensures qdefault::<bool>() == false, qdefault::<u64>() == 0, qdefault::<i32>() == 0, qdefault::<Str>() == Seq::<u16>::empty();
impl<T: View + Copy> QList<T> {
    #[verifier::external_body]
    pub fn new_i(n: i32) -> (r: QList<T>) requires n >= 0 ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == qdefault::<T::V>() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: QList<T>) ensures r@ =~= Seq::<T::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn length(&self) -> (r: i32) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(&self) -> (r: i32) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: i32) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn isEmpty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: i32) -> (r: T) requires 0 <= i < self@.len() ensures r@ == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, i: i32, v: T) requires 0 <= i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn append_E(&mut self, v: T) ensures final(self)@ == old(self)@.push(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_E(&mut self, v: T) ensures final(self)@ == old(self)@.push(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back_E(&mut self, v: T) ensures final(self)@ == old(self)@.push(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn append_L(&mut self, v: QList<T>) ensures final(self)@ == old(self)@ + v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn prepend_E(&mut self, v: T) ensures final(self)@ == seq![v@] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn prepend_v(&mut self, v: T) ensures final(self)@ == seq![v@] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_i_E(&mut self, i: i32, v: T) requires 0 <= i <= old(self)@.len() ensures final(self)@ == old(self)@.insert(i as int, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn removeAt_i(&mut self, i: i32) requires 0 <= i < old(self)@.len() ensures final(self)@ == old(self)@.remove(i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn removeFirst(&mut self) requires old(self)@.len() > 0 ensures final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn removeLast(&mut self) requires old(self)@.len() > 0 ensures final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn takeFirst(&mut self) -> (r: T) requires old(self)@.len() > 0 ensures r@ == old(self)@[0], final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn takeLast(&mut self) -> (r: T) requires old(self)@.len() > 0 ensures r@ == old(self)@.last(), final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: T) requires old(self)@.len() > 0 ensures r@ == old(self)@.last(), final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ =~= Seq::<T::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve_i(&mut self, n: i32) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_E(&self, v: T) -> (r: bool) ensures r == self@.contains(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn indexOf_E(&self, v: T) -> (r: i32)
        ensures r == -1 || 0 <= r < self@.len(),
            r >= 0 ==> self@[r as int] == v@ && (forall|j: int| 0 <= j < r ==> self@[j] != v@),
            r == -1 ==> !self@.contains(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn mid_i(&self, p: i32) -> (r: QList<T>) requires 0 <= p <= self@.len() ensures r@ == self@.subrange(p as int, self@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn eq_L(&self, o: QList<T>) -> (r: bool) ensures r == (self@ =~= o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn removeOne_E(&mut self, v: T) -> (r: bool)
        ensures r == old(self)@.contains(v@), !r ==> final(self)@ == old(self)@,
            r ==> exists|i: int| 0 <= i < old(self)@.len() && #[trigger] old(self)@[i] == v@ && (forall|j: int| 0 <= j < i ==> old(self)@[j] != v@)
                && final(self)@ == old(self)@.remove(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn removeAll_E(&mut self, v: T) -> (r: i32) ensures final(self)@ == rem_all(old(self)@, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn toSet(&self) -> (r: QSet<T>) ensures r@ == self@.to_set() { unimplemented!() }
}

impl QList<QString> {
    #[verifier::external_body]
    pub fn join_E(&self, sep: QString) -> QString { unimplemented!() }
}
// ---------------------------------------------------------------- sets and hashes
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct QSet<T> { _p: std::marker::PhantomData<T> }
impl<T> Clone for QSet<T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<T> Copy for QSet<T> {}
impl<T: View> View for QSet<T> { type V = Set<T::V>; uninterp spec fn view(&self) -> Set<T::V>; }
pub broadcast axiom fn axiom_qset_fin<T: View>(s: QSet<T>) ensures #[trigger] s@.finite(), s@.len() <= 0x3fff_ffff;
impl<T: View + Copy> QSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: QSet<T>) ensures r@ =~= Set::<T::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_E(&self, v: T) -> (r: bool) ensures r == self@.contains(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_E(&mut self, v: T) ensures final(self)@ == old(self)@.insert(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_E(&mut self, v: T) -> (r: bool) ensures final(self)@ == old(self)@.remove(v@), r == old(self)@.contains(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn isEmpty(&self) -> (r: bool) ensures r == (self@ =~= Set::<T::V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn count(&self) -> (r: i32) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ =~= Set::<T::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn toList(&self) -> (r: QList<T>) ensures r@.no_duplicates(), r@.to_set() =~= self@,
        forall|x: T::V| #[trigger] self@.contains(x) <==> r@.contains(x) { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
pub struct QHash<K, T> { _p: std::marker::PhantomData<(K, T)> }
impl<K, T> Clone for QHash<K, T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<K, T> Copy for QHash<K, T> {}
impl<K: View, T: View> View for QHash<K, T> { type V = Map<K::V, T::V>; uninterp spec fn view(&self) -> Map<K::V, T::V>; }
pub broadcast axiom fn axiom_qhash_fin<K: View, T: View>(s: QHash<K, T>) ensures (#[trigger] s@).dom().finite(), s@.dom().len() <= 0x3fff_ffff;
impl<K: View + Copy, T: View + Copy> QHash<K, T> {
    #[verifier::external_body]
    pub fn new() -> (r: QHash<K, T>) ensures r@ =~= Map::<K::V, T::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_K(&self, k: K) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn isEmpty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<K::V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn elem(&self, k: K) -> (r: T) requires self@.dom().contains(k@) ensures r@ == self@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn value_K(&self, k: K) -> (r: T) ensures r@ == (if self@.dom().contains(k@) { self@[k@] } else { qdefault::<T::V>() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn value_K_V(&self, k: K, d: T) -> (r: T) ensures r@ == (if self@.dom().contains(k@) { self@[k@] } else { d@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn ensure_K(&mut self, k: K) ensures final(self)@ == (if old(self)@.dom().contains(k@) { old(self)@ } else { old(self)@.insert(k@, qdefault::<T::V>()) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: T) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_K_V(&mut self, k: K, v: T) ensures final(self)@ == old(self)@.insert(k@, v@), final(self).keyobj(k@) == (if old(self)@.dom().contains(k@) { old(self).keyobj(k@) } else { k }), forall|x: K::V| x != k@ ==> #[trigger] final(self).keyobj(x) == old(self).keyobj(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_K(&mut self, k: K) -> (r: i32) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn find_K(&self, k: K) -> (r: EPtr<K>) ensures r.nn == self@.dom().contains(k@), r.nn ==> r.key@ == k@ { unimplemented!() }
    #[verifier::external_body]
    pub fn constFind_K(&self, k: K) -> (r: EPtr<K>) ensures r.nn == self@.dom().contains(k@), r.nn ==> r.key@ == k@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ =~= Map::<K::V, T::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: QList<K>) ensures r@.no_duplicates(), forall|x: K::V| #[trigger] self@.dom().contains(x) <==> r@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: QList<T>) ensures r@.to_set() =~= self@.values(),
        forall|i: int| 0 <= i < r@.len() ==> exists|k: K::V| self@.dom().contains(k) && #[trigger] self@[k] == #[trigger] r@[i],
        forall|k: K::V| #[trigger] self@.dom().contains(k) ==> r@.contains(self@[k]) { unimplemented!() }
}

// pointer or iterator to an element of a hash: null, or the element's key
#[derive(Clone, Copy)]
pub struct EPtr<K> { pub nn: bool, pub key: K, pub pos: Ghost<int> }
impl<K: Copy> EPtr<K> {
    #[verifier::external_body]
    pub fn null() -> (r: EPtr<K>) ensures !r.nn { unimplemented!() }
    #[verifier::external_body]
    pub fn nondet() -> (r: EPtr<K>) { unimplemented!() }
    pub fn some(k: K) -> (r: EPtr<K>) ensures r.nn, r.key == k { EPtr { nn: true, key: k, pos: Ghost(0) } }
    pub fn is_null(&self) -> (r: bool) ensures r == !self.nn { !self.nn }
    // two iterators of one hash
    #[verifier::external_body]
    pub fn eq_it(&self, o: &EPtr<K>) -> (r: bool) ensures self.nn != o.nn ==> !r, !self.nn && !o.nn ==> r { unimplemented!() }
}
// the order in which iterators visit a hash: every key once
impl<K: View + Copy, T: View + Copy> QHash<K, T> {
    pub uninterp spec fn order(&self) -> Seq<K::V>;
    // the key as it was written when it was inserted first
    pub uninterp spec fn keyobj(&self, k: K::V) -> K;
    #[verifier::external_body]
    pub fn begin_it(&self) -> (r: EPtr<K>) ensures self.order().no_duplicates(), forall|k: K::V| self@.dom().contains(k) <==> #[trigger] self.order().contains(k),
        r.pos@ == 0, r.nn == (self.order().len() > 0), r.nn ==> r.key@ == self.order()[0] && r.key == self.keyobj(r.key@) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_it(&self, it: EPtr<K>) -> (r: EPtr<K>) requires it.nn, 0 <= it.pos@ < self.order().len(), it.key@ == self.order()[it.pos@]
        ensures r.pos@ == it.pos@ + 1, r.nn == (r.pos@ < self.order().len()), r.nn ==> r.key@ == self.order()[r.pos@] && r.key == self.keyobj(r.key@) { unimplemented!() }
}
// QMultiHash: the values of a key in the order of insertion
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
pub struct QMultiHash<K, T> { _p: std::marker::PhantomData<(K, T)> }
impl<K, T> Clone for QMultiHash<K, T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<K, T> Copy for QMultiHash<K, T> {}
impl<K: View, T: View> View for QMultiHash<K, T> { type V = Map<K::V, Seq<T::V>>; uninterp spec fn view(&self) -> Map<K::V, Seq<T::V>>; }
impl<K: View + Copy, T: View + Copy> QMultiHash<K, T> {
    #[verifier::external_body]
    pub fn insert_K_V(&mut self, k: K, v: T) ensures final(self)@ == old(self)@.insert(k@, (if old(self)@.dom().contains(k@) { old(self)@[k@] } else { Seq::empty() }).push(v@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn isEmpty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<K::V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ =~= Map::<K::V, Seq<T::V>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: QMultiHash<K, T>) ensures r@ =~= Map::<K::V, Seq<T::V>>::empty() { unimplemented!() }
    #[verifier::external_body]
    // the most recently inserted first
    pub fn values_K(&self, k: K) -> (r: QList<T>) ensures r@ == (if self@.dom().contains(k@) { self@[k@].reverse() } else { Seq::empty() }) { unimplemented!() }
}
// std::stable_sort by gt ("comes before")
pub open spec fn sort_insert<T>(s: Seq<T>, x: T, before: spec_fn(T, T) -> bool) -> Seq<T> decreases s.len() {
    if s.len() == 0 { seq![x] } else if before(x, s.last()) { sort_insert(s.drop_last(), x, before).push(s.last()) } else { s.push(x) }
}
pub open spec fn stable_sorted<T>(s: Seq<T>, before: spec_fn(T, T) -> bool) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else { sort_insert(stable_sorted(s.drop_last(), before), s.last(), before) }
}

// ---- arrays owned by a pointer member (cfg bufs). Allocation never fails; the sizes are what the code asks for.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Buf<T> { _p: std::marker::PhantomData<T> }
impl<T> Copy for Buf<T> {}
impl<T> Clone for Buf<T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
pub uninterp spec fn buf_null<T>(b: Buf<T>) -> bool;
impl<T> View for Buf<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Buf<T> {
    #[verifier::external_body]
    pub fn at_i(&self, i: i32) -> (r: T) requires 0 <= i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn at_m(&self, i: u64) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn set_i(&mut self, i: i32, v: T) requires 0 <= i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, v), buf_null(*final(self)) == buf_null(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_m(&mut self, i: u64, v: T) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, v), buf_null(*final(self)) == buf_null(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn realloc(b: &Buf<T>, n: u64, elem: u64) -> (r: Buf<T>) requires elem > 0
        ensures !buf_null(r), r@.len() == n as int / elem as int, forall|i: int| 0 <= i < r@.len() && i < b@.len() ==> r@[i] == b@[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == buf_null(*self), r ==> self@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn null() -> (r: Buf<T>) ensures buf_null(r), r@.len() == 0 { unimplemented!() }
}
#[verifier::external_body]
pub fn bad_pointer<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn cast_u64_i64(a: u64) -> (r: i64) ensures a <= 0x7fff_ffff_ffff_ffff ==> r == a { unimplemented!() }
// ---- files. The view of a QFile is what is still to be read, line ends translated; that of a QTextStream the characters still to be read.
pub open spec fn lat_c(c: i8) -> u16 { if c < 0 { (c + 256) as u16 } else { c as u16 } }
pub open spec fn lat(s: Seq<i8>) -> Str { s.map_values(|c: i8| lat_c(c)) }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct QFile { _p: u64 }
pub struct QFileV { pub name: Str, pub rest: Seq<i8>, pub is_open: bool }
impl View for QFile { type V = QFileV; uninterp spec fn view(&self) -> QFileV; }
pub open spec fn chunk(rest: Seq<i8>, max: int) -> int {
    let n = find_c(lat(rest), 10, 0); let l = if n < 0 { rest.len() as int } else { n + 1 }; if l < max - 1 { l } else { max - 1 }
}
pub uninterp spec fn qb_null(b: QByteArray) -> bool;
pub uninterp spec fn qf_readable(name: Str) -> bool;      // the files are the same throughout one call
pub uninterp spec fn qf_bytes(name: Str) -> Seq<i8>;
impl QFile {
    #[verifier::external_body]
    pub fn new_S(n: QString) -> (r: QFile) ensures r@.name == n@, !r@.is_open { unimplemented!() }
    #[verifier::external_body]
    pub fn open_i(&mut self, m: i32) -> (r: bool) ensures final(self)@.name == old(self)@.name, r == qf_readable(old(self)@.name), final(self)@.is_open == r, r ==> final(self)@.rest == qf_bytes(old(self)@.name) { unimplemented!() }
    #[verifier::external_body]
    pub fn readLine_P_l(&mut self, b: &mut Buf<i8>, off: u64, max: i64) -> (r: i64)
        requires 2 <= max, off + max <= old(b)@.len()
        ensures final(self)@.name == old(self)@.name, final(self)@.is_open == old(self)@.is_open, final(b)@.len() == old(b)@.len(),
            forall|i: int| 0 <= i < old(b)@.len() && (i < off || i >= off + max) ==> #[trigger] final(b)@[i] == old(b)@[i],
            old(self)@.rest.len() == 0 ==> r <= 0 && final(self)@.rest == old(self)@.rest,
            old(self)@.rest.len() > 0 ==> ({ let k = chunk(old(self)@.rest, max as int);
                r == k && final(self)@.rest == old(self)@.rest.skip(k) && final(b)@[off + k] == 0
                && forall|i: int| off <= i < off + k ==> #[trigger] final(b)@[i] == old(self)@.rest[i - off] })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn readLine(&mut self) -> (r: QByteArray)
        ensures final(self)@.name == old(self)@.name, final(self)@.is_open == old(self)@.is_open,
            ({ let k = chunk(old(self)@.rest, old(self)@.rest.len() as int + 2); r@ == old(self)@.rest.take(k) && final(self)@.rest == old(self)@.rest.skip(k) }), qb_null(r) == (old(self)@.rest.len() == 0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn atEnd(&self) -> (r: bool) ensures r == (self@.rest.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn fileName(&self) -> (r: QString) ensures r@ == self@.name { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&mut self) ensures final(self)@.name == old(self)@.name, !final(self)@.is_open { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct QTextStream { _p: u64 }
impl View for QTextStream { type V = Str; uninterp spec fn view(&self) -> Str; }
impl QTextStream {
    #[verifier::external_body]
    pub fn readLine(&mut self) -> (r: QString)
        ensures qs_null(r) == (old(self)@.len() == 0),
            ({ let n = find_c(old(self)@, 10, 0); n >= 0 ==> r@ == old(self)@.take(n) && final(self)@ == old(self)@.skip(n + 1) }),
            find_c(old(self)@, 10, 0) < 0 ==> r@ == old(self)@ && final(self)@ == Seq::<u16>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn atEnd(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
// values a unit does not look into (see the unit's configuration)
#[derive(Clone, Copy)]
pub struct Noise {}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct QByteArray { _p: u64 }
impl View for QByteArray { type V = Seq<i8>; uninterp spec fn view(&self) -> Seq<i8>; }
// the bytes of a 16 bit text, low byte first
pub open spec fn le_c(c: u16) -> Seq<i8> { seq![(c & 0xff) as u8 as i8, (c >> 8) as u8 as i8] }
pub open spec fn le(s: Str) -> Seq<i8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { le(s.drop_last()) + le_c(s.last()) } }
pub open spec fn put_at(b: Seq<i8>, pos: int, v: Seq<i8>) -> Seq<i8> { b.take(pos) + v + b.skip(pos + v.len()) }
impl QByteArray {
    #[verifier::external_body]
    pub fn isNull(&self) -> (r: bool) ensures r == qb_null(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: QByteArray) ensures r@ =~= Seq::<i8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: i32) ensures r == self@.len() { unimplemented!() }
    // what is added is not initialised
    #[verifier::external_body]
    pub fn resize_i(&mut self, n: i32) requires n >= 0 ensures final(self)@.len() == n, n >= old(self)@.len() ==> final(self)@.take(old(self)@.len() as int) =~= old(self)@, n < old(self)@.len() ==> final(self)@ =~= old(self)@.take(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn at_i(&self, i: i32) -> (r: i8) requires 0 <= i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn set_i(&mut self, i: i32, v: i8) requires 0 <= i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, v) { unimplemented!() }
    // memcpy(data() + pos, s.utf16(), n)
    #[verifier::external_body]
    pub fn put_utf16(&mut self, pos: i64, s: QString, n: u64) requires 0 <= pos, pos + n <= old(self)@.len(), n <= 2 * s@.len()
        ensures final(self)@ == put_at(old(self)@, pos as int, le(s@).take(n as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_wchar(&mut self, pos: i64, c: u16, n: u64) requires 0 <= pos, pos + n <= old(self)@.len(), n <= 2
        ensures final(self)@ == put_at(old(self)@, pos as int, le_c(c).take(n as int)) { unimplemented!() }
}
// the bytes of a text in the local encoding
pub uninterp spec fn of_local8(s: Seq<i8>) -> Str;
pub uninterp spec fn local8(s: Str) -> Seq<i8>;
// texts built for messages only: nothing is assumed about them
impl QByteArray {
    #[verifier::external_body]
    pub fn new_Z(s: QString) -> (r: QByteArray) ensures r@.len() == 0 <==> s@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn append_S(&mut self, s: QString) { unimplemented!() }
    #[verifier::external_body]
    pub fn append_B(&mut self, s: QByteArray) { unimplemented!() }
}
impl QString {
    #[verifier::external_body]
    pub fn toLocal8Bit(self) -> (r: QByteArray) ensures r@ == local8(self@) { unimplemented!() }
}
impl QString {
    #[verifier::external_body]
    pub fn fromLatin1_P_i(b: &Buf<i8>, off: u64, n: i32) -> (r: QString) requires n >= 0, off + n <= b@.len()
        ensures r@ == lat(b@.subrange(off as int, off + n)), !qs_null(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn fromLocal8Bit_B(b: QByteArray) -> (r: QString) ensures r@ == of_local8(b@) { unimplemented!() }
    #[verifier::external_body]
    // a zero byte ends the text
    pub fn fromLatin1_B(b: QByteArray) -> (r: QString) ensures (forall|i: int| 0 <= i < b@.len() ==> #[trigger] b@[i] != 0) ==> r@ == lat(b@), qs_null(r) == (b@.len() == 0) { unimplemented!() }
}

} // mod qt
use qt::*;
broadcast use qt::qt_axioms;
// ---- 32 bit arithmetic whose result is left open when it does not fit (cfg overflow)
#[verifier::external_body]
pub fn i32_add(a: i32, b: i32) -> (r: i32) ensures -0x8000_0000 <= a + b <= 0x7fff_ffff ==> r == a + b { unimplemented!() }
#[verifier::external_body]
pub fn i32_sub(a: i32, b: i32) -> (r: i32) ensures -0x8000_0000 <= a - b <= 0x7fff_ffff ==> r == a - b { unimplemented!() }
#[verifier::external_body]
pub fn i32_mul(a: i32, b: i32) -> (r: i32) ensures -0x8000_0000 <= a * b <= 0x7fff_ffff ==> r == a * b { unimplemented!() }
pub open spec fn two_to(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * two_to(n - 1) } }
#[verifier::external_body]
pub fn i32_shl(a: i32, b: i32) -> (r: i32) ensures 0 <= b <= 31 && -0x8000_0000 <= a * two_to(b as int) <= 0x7fff_ffff ==> r == a * two_to(b as int) { unimplemented!() }
#[verifier::external_body]
pub fn i32_shr(a: i32, b: i32) -> (r: i32) ensures 0 <= b <= 31 ==> r == a as int / two_to(b as int) { unimplemented!() }
#[verifier::external_body]
pub fn nondet_member<T>() -> (r: T) { unimplemented!() }
impl QByteArray {
    #[verifier::external_body]
    pub fn eq_B(self, o: QByteArray) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ =~= Seq::<i8>::empty() { unimplemented!() }
}
pub uninterp spec fn size_of_t<T>() -> int;
#[verifier::external_body]
pub fn elem_size<T>() -> (r: u64) ensures 0 < r < 0x1_0000, r == size_of_t::<T>() { unimplemented!() }
