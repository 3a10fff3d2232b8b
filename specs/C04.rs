//@sources src/jomlib/ppexprparser.cpp:auto,PPExprParser,ppexpr_grammar,yy_start src/jomlib/ppexpr_grammar.cpp:ppexpr_grammar
//@cfg
{'structs': ['PPExprParser', 'PPExprParser::Value'], 'bufs': {'PPExprParser::sym_stack': 'Value', 'PPExprParser::state_stack': 'int'}, 'value_ptrs': ['QByteArray'],
 'tables': ['lhs', 'rhs', 'goto_default', 'action_default', 'action_index', 'action_info', 'action_check'], 'hints': 'lalr', 'overflow': 'unspecified', 'types': {'YY_BUFFER_STATE': 'void *', 'yy_buffer_state *': 'void *'},
 'ghost_params': ['yy: &mut Scanner', 'yy_start: &mut i32'], 'globals': {'yy_start': ('yy_start', 'globalvar', 'int')}, 'free_ghost': ['yy_scan_string', 'yy_delete_buffer']}
//@endcfg
// ---- the words of an expression
pub enum Tok { Num(i32), Text(Seq<i8>), Op(int) }
pub open spec fn code(t: Tok) -> int { match t { Tok::Num(_) => 1, Tok::Text(_) => 2, Tok::Op(c) => c } }
pub open spec fn is_op(c: int) -> bool { 3 <= c <= 24 }     // 24 is the line end
pub open spec fn val_ok(t: Tok, v: PPExprParser_Value) -> bool { match t { Tok::Num(n) => v.num == n, Tok::Text(s) => v.str@ == s, Tok::Op(c) => is_op(c) } }
// ---- the grammar: levels from the loosest (0) to the tightest (7)
// (the numbers are the values of the operands)
pub enum Ex { Num(i32), Paren(Box<Ex>), Pre(int, Box<Ex>, i32), Bin(Box<Ex>, int, Box<Ex>, i32, i32), Texts(Seq<i8>, int, Seq<i8>) }
pub open spec fn level(o: int) -> int {
    if 3 <= o <= 6 { 0 }             // && || & |
    else if 7 <= o <= 12 { 2 }       // == != < > <= >=
    else if 13 <= o <= 14 { 3 }      // << >>
    else if 15 <= o <= 16 { 4 }      // + -
    else if 17 <= o <= 19 { 5 }      // * / %
    else { -1 }
}
pub open spec fn wf(e: Ex, l: int) -> bool decreases e {
    match e {
        Ex::Num(_) => true,
        Ex::Paren(x) => wf(*x, 0),
        Ex::Pre(o, x, _) => l <= 6 && (o == 16 || o == 20 || o == 21) && wf(*x, 7),     // - ~ !
        Ex::Bin(a, o, b, _, _) => level(o) >= 0 && l <= level(o) && wf(*a, level(o)) && wf(*b, level(o) + 1),
        Ex::Texts(_, o, _) => l <= 1 && (o == 7 || o == 8),
    }
}
pub open spec fn toks(e: Ex) -> Seq<Tok> decreases e {
    match e {
        Ex::Num(n) => seq![Tok::Num(n)],
        Ex::Paren(x) => seq![Tok::Op(22)] + toks(*x) + seq![Tok::Op(23)],
        Ex::Pre(o, x, _) => seq![Tok::Op(o)] + toks(*x),
        Ex::Bin(a, o, b, _, _) => toks(*a) + seq![Tok::Op(o)] + toks(*b),
        Ex::Texts(s, o, t) => seq![Tok::Text(s), Tok::Op(o), Tok::Text(t)],
    }
}
// ---- values. An overflow and a shift by a strange distance leave the value open.
pub open spec fn b01(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn fits(x: int) -> bool { -0x8000_0000 <= x <= 0x7fff_ffff }
pub open spec fn op_val(o: int, a: i32, b: i32, v: i32) -> bool {
    if o == 3 { v == b01(a != 0 && b != 0) } else if o == 4 { v == b01(a != 0 || b != 0) }
    else if o == 5 { v == (a & b) } else if o == 6 { v == (a | b) }
    else if o == 7 { v == b01(a == b) } else if o == 8 { v == b01(a != b) }
    else if o == 9 { v == b01(a < b) } else if o == 10 { v == b01(a > b) }
    else if o == 11 { v == b01(a <= b) } else if o == 12 { v == b01(a >= b) }
    else if o == 13 { 0 <= b <= 31 && fits(a * two_to(b as int)) ==> v == a * two_to(b as int) }
    else if o == 14 { 0 <= b <= 31 ==> v == a as int / two_to(b as int) }
    else if o == 15 { fits(a + b) ==> v == a + b }
    else if o == 16 { fits(a - b) ==> v == a - b }
    else if o == 17 { fits(a * b) ==> v == a * b }
    else if o == 18 { b != 0 && (fits(cdiv(a as int, b as int)) ==> v == cdiv(a as int, b as int)) }
    else if o == 19 { b != 0 && v == crem(a as int, b as int) }
    else { false }
}
pub open spec fn pre_val(o: int, a: i32, v: i32) -> bool {
    if o == 16 { fits(-a) ==> v == -a } else if o == 20 { v == !a } else if o == 21 { v == b01(a == 0) } else { false }
}
pub open spec fn may(e: Ex, v: i32) -> bool decreases e {
    match e {
        Ex::Num(n) => v == n,
        Ex::Paren(x) => may(*x, v),
        Ex::Pre(o, x, a) => may(*x, a) && pre_val(o, a, v),
        Ex::Bin(x, o, y, a, b) => may(*x, a) && may(*y, b) && op_val(o, a, b, v),
        Ex::Texts(s, o, t) => v == b01((s == t) == (o == 7)),
    }
}
// ---- the scanner (assumed): it cuts the text into words; unterminated: the text ends inside a string or a word like DEFINED(
pub uninterp spec fn lexed(s: Str) -> Seq<Tok>;
pub uninterp spec fn unterminated(s: Str) -> bool;
pub struct ScannerV { pub text: Str, pub pos: int, pub open: bool, pub state: i32 }
#[verifier::external_body]
pub struct Scanner { _p: u64 }
impl View for Scanner { type V = ScannerV; uninterp spec fn view(&self) -> ScannerV; }
#[verifier::external_body]
fn qfn_yy_scan_string_Z(yy: &mut Scanner, yy_start: &mut i32, s: QString) -> (r: u64)
    requires !old(yy)@.open,
    ensures *final(yy_start) == *old(yy_start), r != 0 ==> final(yy)@ == (ScannerV { text: s@, pos: 0, open: true, state: *old(yy_start) }), r == 0 ==> !final(yy)@.open,
{ unimplemented!() }
#[verifier::external_body]
fn qfn_yy_delete_buffer_P(yy: &mut Scanner, yy_start: &mut i32, b: u64)
    requires old(yy)@.open,
    ensures *final(yy_start) == *old(yy_start), final(yy)@ == (ScannerV { open: false, ..old(yy)@ }),
{ unimplemented!() }
//@extern PPExprParser::yylex
    requires old(yy)@.open, old(yy)@.pos == 0 ==> *old(yy_start) == 1, old(yy)@.pos > 0 ==> *old(yy_start) == old(yy)@.state,
    ensures
        *final(this) == (PPExprParser { yylval: final(this).yylval, ..*old(this) }),
        final(yy)@ == (ScannerV { pos: final(yy)@.pos, state: *final(yy_start), ..old(yy)@ }),
        ({ let t = lexed(old(yy)@.text); let p = old(yy)@.pos;
           if p < t.len() { final(yy)@.pos == p + 1 && res == code(t[p]) && val_ok(t[p], final(this).yylval) && *final(yy_start) == 1 }
           else { final(yy)@.pos == p && res == 0 && (*final(yy_start) != 1 <==> unterminated(old(yy)@.text)) && *final(yy_start) >= 1 && *final(yy_start) != 2 } }),
//@endfn
// ---- the grammar, rule by rule, as the tables number it
pub open spec fn glen(r: int) -> int {
    if 28 <= r <= 30 { 2 } else if r == 0 || r == 1 || r == 6 || r == 7 || r == 10 || r == 17 || r == 20 || r == 23 || r == 27 || r == 31 { 1 } else { 3 }
}
pub open spec fn glhs(r: int) -> int {
    if r == 0 { 25 } else if r <= 5 { 26 } else if r <= 7 { 27 } else if r <= 9 { 29 } else if r <= 16 { 28 } else if r <= 19 { 30 }
    else if r <= 22 { 31 } else if r <= 26 { 32 } else if r <= 30 { 33 } else { 34 }
}
pub open spec fn gop(r: int) -> int {       // the operator of a binary rule
    if 2 <= r <= 5 { r + 1 } else if 8 <= r <= 9 { r - 1 } else if 11 <= r <= 16 { r - 4 } else if 18 <= r <= 19 { r - 5 }
    else if 21 <= r <= 22 { r - 6 } else { r - 7 }
}
pub open spec fn down(n: int) -> int { if n == 26 { 27 } else if n == 28 { 30 } else { n + 1 } }
pub open spec fn rsym(r: int, k: int) -> int {
    if glen(r) == 1 { if r == 0 { 26 } else if r == 1 { 27 } else if r == 6 { 28 } else if r == 7 { 29 } else if r == 10 { 30 } else if r == 17 { 31 } else if r == 20 { 32 } else if r == 23 { 33 } else if r == 27 { 34 } else { 1 } }
    else if glen(r) == 2 { if k == 2 { 34 } else if r == 28 { 16 } else { r - 9 } }
    else if r == 32 { if k == 1 { 22 } else if k == 2 { 26 } else { 23 } }
    else if k == 2 { gop(r) }
    else if r == 8 || r == 9 { 2 }
    else if k == 1 { glhs(r) } else { down(glhs(r)) }
}
// the rank of a symbol falls with every rule of length 1
pub open spec fn rank(n: int) -> int { if n == 1 { 20 } else if n == 34 { 19 } else if n == 33 { 18 } else if n == 32 { 17 } else if n == 31 { 16 } else if n == 30 { 15 } else if n == 28 { 14 } else if n == 29 { 14 } else if n == 27 { 13 } else if n == 26 { 12 } else { 11 } }
pub proof fn rank_falls(r: int) requires 0 <= r < 33, glen(r) == 1 ensures 0 <= rank(glhs(r)) < rank(rsym(r, 1)) {}
// ---- the automaton of the tables
pub open spec fn small(x: int) -> bool { -0x8000 <= x <= 0x7fff }
pub open spec fn act_in(s: int, t: int) -> bool { 0 <= s < action_index_len() && s < action_default_len() && action_index(s) + t < action_check_len() && action_index(s) + t < action_info_len() && small(action_index(s)) && small(action_default(s)) }
#[verifier::opaque]
pub open spec fn t_act(s: int, t: int) -> int { let y = action_index(s) + t; if y < 0 || action_check(y) != t { -action_default(s) } else { action_info(y) } }
pub open spec fn nt_in(s: int, nt: int) -> bool {
    0 <= s && en_GOTO_INDEX_OFFSET() + s < action_index_len() && 0 <= nt < goto_default_len() && ({ let y = action_index(en_GOTO_INDEX_OFFSET() + s) + nt;
        small(action_index(en_GOTO_INDEX_OFFSET() + s)) && (y >= 0 ==> en_GOTO_CHECK_OFFSET() + y < action_check_len() && en_GOTO_INFO_OFFSET() + y < action_info_len()) })
}
#[verifier::opaque]
pub open spec fn nt_act(s: int, nt: int) -> int {
    let y = action_index(en_GOTO_INDEX_OFFSET() + s) + nt;
    if y < 0 || action_check(en_GOTO_CHECK_OFFSET() + y) != nt { goto_default(nt) } else { action_info(en_GOTO_INFO_OFFSET() + y) }
}
pub open spec fn has(ps: Seq<int>, x: int, i: int) -> bool decreases ps.len() - i { 0 <= i < ps.len() && (ps[i] == x || has(ps, x, i + 1)) }
pub open spec fn edge(s: int, t: int) -> bool { has(preds(t), s, 0) }
pub open spec fn goto_ok(s: int, r: int) -> bool {
    let nt = glhs(r) - en_TERMINAL_COUNT();
    nt_in(s, nt) && ({ let g = nt_act(s, nt); 0 < g < en_STATE_COUNT() && insym(g) == glhs(r) && edge(s, g) })
}
// the k topmost symbols can be those of rule r wherever state s is on top, and what is then pushed keeps to the hints
pub open spec fn back(s: int, k: int, r: int) -> bool decreases k, 0int {
    if k <= 0 { goto_ok(s, r) } else { s != 0 && insym(s) == rsym(r, k) && back_all(preds(s), 0, k - 1, r) }
}
pub open spec fn back_all(ps: Seq<int>, i: int, k: int, r: int) -> bool decreases k, 1 + ps.len() - i {
    if 0 <= i < ps.len() { back(ps[i], k, r) && back_all(ps, i + 1, k, r) } else { true }
}
pub open spec fn cell(s: int, t: int) -> bool {
    act_in(s, t) && ({ let a = t_act(s, t);
        if a == en_ACCEPT_STATE() { t == 0 && insym(s) == 25 && preds(s).len() == 1 && preds(s)[0] == 0 }
        else if a > 0 { 1 <= t <= 23 && a < en_STATE_COUNT() && insym(a) == t && edge(s, a) }
        else if a < 0 { let r = -a - 1; r < 33 && r < rhs_len() && r < lhs_len() && rhs(r) == glen(r) && lhs(r) == glhs(r) && back(s, glen(r), r) }
        else { true } })
}
// without a word in hand the parser only reduces by default
pub open spec fn row(s: int, t: int) -> bool decreases 25 - t { if t >= 25 { true } else { (t < 0 && action_index(s) != -25 || cell(s, t)) && row(s, t + 1) } }
pub open spec fn rows(s: int) -> bool decreases 61 - s { if s >= 61 { true } else { (s != 0 && preds(s).len() == 0 || row(s, -1)) && rows(s + 1) } }
pub open spec fn tables_ok() -> bool { en_TERMINAL_COUNT() == 25 && en_STATE_COUNT() == 61 && preds(0).len() == 0 && rows(0) }
pub proof fn tables_checked() ensures tables_ok() { assert(tables_ok()) by(compute_only); }
proof fn row_at(s: int, t: int, u: int) requires row(s, t), t <= u < 25 ensures u < 0 && action_index(s) != -25 || cell(s, u) decreases u - t { if t < u { row_at(s, t + 1, u); } }
proof fn rows_at(s: int, t: int) requires rows(s), s <= t < 61, t == 0 || preds(t).len() > 0 ensures row(t, -1) decreases t - s { if s < t { rows_at(s + 1, t); } }
pub proof fn cells(s: int, t: int)
    requires 0 <= s < 61, -1 <= t < 25, s == 0 || preds(s).len() > 0, t >= 0 || action_index(s) == -25
    ensures cell(s, t), en_TERMINAL_COUNT() == 25, en_STATE_COUNT() == 61, preds(0).len() == 0
{ tables_checked(); rows_at(0, s); row_at(s, -1, t); }
proof fn edge_pred(s: int, t: int, i: int) requires has(preds(t), s, i) ensures preds(t).len() > 0 decreases preds(t).len() - i { if preds(t)[i] != s { edge_pred(s, t, i + 1); } }
proof fn back_at(ps: Seq<int>, x: int, i: int, k: int, r: int) requires has(ps, x, i), back_all(ps, i, k, r), 0 <= i ensures back(x, k, r) decreases ps.len() - i { if ps[i] != x { back_at(ps, x, i + 1, k, r); } }
// ---- the stack
pub enum Item { T(Tok), E(Ex) }
pub open spec fn is_texts(e: Ex) -> bool { match e { Ex::Texts(_, _, _) => true, _ => false } }
pub open spec fn nt_ok(n: int, e: Ex) -> bool {
    if n == 25 || n == 26 { wf(e, 0) } else if n == 27 { wf(e, 1) } else if n == 28 { wf(e, 2) } else if n == 29 { is_texts(e) && wf(e, 1) }
    else if n == 30 { wf(e, 3) } else if n == 31 { wf(e, 4) } else if n == 32 { wf(e, 5) } else if n == 33 { wf(e, 6) } else if n == 34 { wf(e, 7) } else { false }
}
pub open spec fn item_ok(it: Item, n: int, v: PPExprParser_Value) -> bool { match it { Item::T(t) => code(t) == n && val_ok(t, v), Item::E(e) => nt_ok(n, e) && may(e, v.num) } }
pub open spec fn words(it: Item) -> Seq<Tok> { match it { Item::T(t) => seq![t], Item::E(e) => toks(e) } }
#[verifier::opaque]
pub open spec fn yld(s: Seq<Item>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { seq![] } else { yld(s.drop_last()) + words(s.last()) } }
pub open spec fn ex(it: Item) -> Ex { match it { Item::E(e) => e, Item::T(_) => Ex::Num(0) } }
pub open spec fn build(r: int, a: Item, b: Item, c: Item, u: i32, v: i32, x: i32) -> Ex {
    if r == 31 { match a { Item::T(Tok::Num(n)) => Ex::Num(n), _ => Ex::Num(0) } }
    else if glen(r) == 1 { ex(a) }
    else if glen(r) == 2 { Ex::Pre(rsym(r, 1), Box::new(ex(b)), v) }
    else if r == 32 { Ex::Paren(Box::new(ex(b))) }
    else if r == 8 || r == 9 { match (a, c) { (Item::T(Tok::Text(s)), Item::T(Tok::Text(t))) => Ex::Texts(s, gop(r), t), _ => Ex::Num(0) } }
    else { Ex::Bin(Box::new(ex(a)), gop(r), Box::new(ex(c)), u, x) }
}
// what the code of a rule does to the values of its symbols
pub open spec fn rval(r: int, a: PPExprParser_Value, b: PPExprParser_Value, c: PPExprParser_Value, w: PPExprParser_Value) -> bool {
    if glen(r) == 1 { w == a } else if glen(r) == 2 { pre_val(rsym(r, 1), b.num, w.num) } else if r == 32 { w.num == b.num }
    else if r == 8 || r == 9 { w.num == b01((a.str@ == c.str@) == (r == 8)) } else { op_val(gop(r), a.num, c.num, w.num) }
}
proof fn reduce_ok(r: int, a: Item, b: Item, c: Item, u: PPExprParser_Value, v: PPExprParser_Value, x: PPExprParser_Value, w: PPExprParser_Value)
    requires 0 <= r < 33, item_ok(a, rsym(r, 1), u), glen(r) >= 2 ==> item_ok(b, rsym(r, 2), v), glen(r) >= 3 ==> item_ok(c, rsym(r, 3), x), rval(r, u, v, x, w),
    ensures item_ok(Item::E(build(r, a, b, c, u.num, v.num, x.num)), glhs(r), w),
        toks(build(r, a, b, c, u.num, v.num, x.num)) == (if glen(r) == 1 { words(a) } else if glen(r) == 2 { words(a) + words(b) } else { words(a) + words(b) + words(c) }),
{
    let e = build(r, a, b, c, u.num, v.num, x.num);
    
    if r == 31 { assert(item_ok(Item::E(e), 34, w)); }
    else if r == 0 { assert(item_ok(Item::E(e), 25, w)); }
    else if r == 7 { assert(item_ok(Item::E(e), 27, w)); }
    else if glen(r) == 1 {
        if r != 0 && r != 7 { let l = if r == 1 { 1int } else if r == 6 { 2 } else if r == 10 { 3 } else if r == 17 { 4 } else if r == 20 { 5 } else if r == 23 { 6 } else { 7 }; wf_down(ex(a), l, l - 1); }
    }
    else if glen(r) == 2 { assert(b is E); assert(a is T); assert(may(e, w.num)); assert(toks(e) =~= words(a) + words(b)); }
    else if r == 32 { assert(toks(e) =~= words(a) + words(b) + words(c)); }
    else if r == 8 || r == 9 { assert(toks(e) =~= words(a) + words(b) + words(c)); }
    else {
        assert(toks(e) =~= words(a) + words(b) + words(c));
        assert(a is E && c is E);
        assert(may(ex(a), u.num) && may(ex(c), x.num) && op_val(gop(r), u.num, x.num, w.num));
        assert(wf(e, level(gop(r))));
        assert(may(e, w.num));
        assert(nt_ok(glhs(r), e));
    }
}
#[verifier::opaque]
pub open spec fn path(st: Seq<Item>, states: Seq<i32>, vals: Seq<PPExprParser_Value>, tos: int) -> bool {
    1 <= tos < states.len() && tos < vals.len() && st.len() == tos - 1 && states[1] == 0
    && forall|i: int| 2 <= i <= tos ==> edge(states[i - 1] as int, #[trigger] states[i] as int) && 0 < states[i] < 61 && item_ok(st[i - 2], insym(states[i] as int), vals[i])
}
pub proof fn walk(st: Seq<Item>, states: Seq<i32>, vals: Seq<PPExprParser_Value>, tos: int, top: int, k: int, r: int)
    requires path(st, states, vals, tos), 1 <= top <= tos, 0 <= k, back(states[top] as int, k, r),
    ensures top - k >= 1, goto_ok(states[top - k] as int, r), forall|j: int| 1 <= j <= k ==> item_ok(#[trigger] st[top - k + j - 2], rsym(r, j), vals[top - k + j])
    decreases k
{
    reveal(path);
    if k > 0 {
        assert(edge(states[top - 1] as int, states[top] as int));
        back_at(preds(states[top] as int), states[top - 1] as int, 0, k - 1, r);
        walk(st, states, vals, tos, top - 1, k - 1, r);
    }
}
proof fn yld_push(s: Seq<Item>, x: Item) ensures yld(s.push(x)) == yld(s) + words(x) { reveal(yld); assert(s.push(x).drop_last() =~= s); }
proof fn yld_split(s: Seq<Item>, k: int) requires 1 <= k <= 3, k <= s.len()
    ensures yld(s) == yld(s.take(s.len() - k)) + (if k == 1 { words(s[s.len() - 1]) } else if k == 2 { words(s[s.len() - 2]) + words(s[s.len() - 1]) } else { words(s[s.len() - 3]) + words(s[s.len() - 2]) + words(s[s.len() - 1]) })
{
    let n = s.len() as int;
    yld_push(s.take(n - 1), s[n - 1]); assert(s.take(n - 1).push(s[n - 1]) =~= s);
    if k >= 2 { yld_push(s.take(n - 2), s[n - 2]); assert(s.take(n - 2).push(s[n - 2]) =~= s.take(n - 1)); }
    if k >= 3 { yld_push(s.take(n - 3), s[n - 3]); assert(s.take(n - 3).push(s[n - 3]) =~= s.take(n - 2)); }
    assert(yld(s) =~= yld(s.take(n - k)) + (if k == 1 { words(s[n - 1]) } else if k == 2 { words(s[n - 2]) + words(s[n - 1]) } else { words(s[n - 3]) + words(s[n - 2]) + words(s[n - 1]) }));
}
// ---- the steps of the parser
pub open spec fn top(ss: Seq<i32>, tos: int) -> int { ss[tos] as int }
pub proof fn start(ss: Seq<i32>, vs: Seq<PPExprParser_Value>) requires 2 <= ss.len(), 2 <= vs.len(), ss[1] == 0 ensures path(Seq::empty(), ss, vs, 1), yld(Seq::empty()) =~= Seq::<Tok>::empty() { reveal(path); reveal(yld); }
pub proof fn sizes(st: Seq<Item>, ss: Seq<i32>, vs: Seq<PPExprParser_Value>, tos: int) requires path(st, ss, vs, tos)
    ensures 1 <= tos < ss.len(), tos < vs.len(), st.len() == tos - 1, 0 <= ss[tos] < 61, action_index(top(ss, tos)) != -25 || cell(top(ss, tos), -1), ss[tos] < action_index_len()
{ reveal(path); if tos >= 2 { assert(edge(ss[tos - 1] as int, ss[tos] as int)); edge_pred(ss[tos - 1] as int, ss[tos] as int, 0); } if action_index(top(ss, tos)) == -25 { cells(top(ss, tos), -1); } else { cells(top(ss, tos), 0); } }
pub open spec fn step_ok(st: Seq<Item>, ss: Seq<i32>, vs: Seq<PPExprParser_Value>, tos: int, t: int) -> bool {
    let a = t_act(top(ss, tos), t);
    (a == 34 ==> t == 0 && st.len() == 1 && st[0] is E && wf(ex(st[0]), 0) && may(ex(st[0]), vs[tos].num) && yld(st) == toks(ex(st[0])))
    && (a > 0 && a != 34 ==> 1 <= t <= 23)
    && (a < 0 ==> ({ let r = -a - 1; 0 <= r < 33 && r < rhs_len() && r < lhs_len() && rhs(r) == glen(r) && lhs(r) == glhs(r) && tos - glen(r) >= 1 && 0 <= ss[tos - glen(r)] < 61 && nt_in(ss[tos - glen(r)] as int, glhs(r) - 25) && small(ss[tos - glen(r)] as int) }))
}
pub proof fn step(st: Seq<Item>, ss: Seq<i32>, vs: Seq<PPExprParser_Value>, tos: int, t: int)
    requires path(st, ss, vs, tos), -1 <= t < 25, t >= 0 || action_index(top(ss, tos)) == -25
    ensures act_in(top(ss, tos), t), step_ok(st, ss, vs, tos, t)
{
    let s = top(ss, tos);
    sizes(st, ss, vs, tos);
    assert(s == 0 || preds(s).len() > 0) by { reveal(path); if tos >= 2 { assert(edge(ss[tos - 1] as int, ss[tos] as int)); edge_pred(ss[tos - 1] as int, ss[tos] as int, 0); } }
    cells(s, t);
    let a = t_act(s, t);
    if a == 34 {
        reveal(path);
        assert(tos >= 2);
        assert(edge(ss[tos - 1] as int, ss[tos] as int));
        assert(item_ok(st[tos - 2], insym(s), vs[tos]));
        reveal_with_fuel(has, 3);
        assert(ss[tos - 1] == 0);
        if tos > 2 { assert(edge(ss[tos - 2] as int, ss[tos - 1] as int)); assert(false); }
        yld_push(Seq::empty(), st[0]); assert(Seq::<Item>::empty().push(st[0]) =~= st);
        assert(yld(Seq::empty()) =~= Seq::<Tok>::empty()) by { reveal(yld); }
        assert(yld(st) =~= toks(ex(st[0])));
    } else if a < 0 {
        walk(st, ss, vs, tos, tos, glen(-a - 1), -a - 1);
        assert(0 <= ss[tos - glen(-a - 1)] < 61) by { reveal(path); }
    }
}
pub proof fn shifted(st: Seq<Item>, ss: Seq<i32>, vs: Seq<PPExprParser_Value>, tos: int, t: int, x: Tok, s2: Seq<i32>, v2: Seq<PPExprParser_Value>, all: Seq<Tok>, pos: int)
    requires path(st, ss, vs, tos), -1 <= t < 25, t >= 0 || action_index(top(ss, tos)) == -25, 0 < t_act(top(ss, tos), t), t_act(top(ss, tos), t) != 34,
        s2.len() > tos + 1, v2.len() > tos + 1, forall|i: int| 1 <= i <= tos ==> s2[i] == ss[i] && v2[i] == vs[i], s2[tos + 1] == t_act(top(ss, tos), t), val_ok(x, v2[tos + 1]), code(x) == t,
        1 <= pos <= all.len(), all[pos - 1] == x, yld(st) == all.take(pos - 1),
    ensures path(st.push(Item::T(x)), s2, v2, tos + 1), yld(st.push(Item::T(x))) == all.take(pos)
{
    let s = top(ss, tos);
    sizes(st, ss, vs, tos);
    assert(s == 0 || preds(s).len() > 0) by { reveal(path); if tos >= 2 { assert(edge(ss[tos - 1] as int, ss[tos] as int)); edge_pred(ss[tos - 1] as int, ss[tos] as int, 0); } }
    cells(s, t);
    let n = st.push(Item::T(x));
    yld_push(st, Item::T(x));
    assert(all.take(pos - 1) + seq![x] =~= all.take(pos));
    reveal(path);
    assert forall|i: int| 2 <= i <= tos + 1 implies edge(s2[i - 1] as int, #[trigger] s2[i] as int) && 0 < s2[i] < 61 && item_ok(n[i - 2], insym(s2[i] as int), v2[i]) by {
        if i <= tos { assert(s2[i] == ss[i]); assert(edge(ss[i - 1] as int, ss[i] as int)); }
    }
}
pub proof fn reduced(st: Seq<Item>, ss: Seq<i32>, vs: Seq<PPExprParser_Value>, tos: int, t: int, r: int, w: PPExprParser_Value) -> (n: Seq<Item>)
    requires path(st, ss, vs, tos), -1 <= t < 25, t >= 0 || action_index(top(ss, tos)) == -25, t_act(top(ss, tos), t) == -r - 1, r >= 0,
        ({ let k = tos - glen(r) + 1; rval(r, vs[k], vs[k + 1], vs[k + 2], w) }),
    ensures ({ let k = tos - glen(r) + 1; let g = nt_act(ss[k - 1] as int, glhs(r) - 25);
        path(n, ss.update(k, g as i32), vs.update(k, w), k) && fits(g) && yld(n) == yld(st) && (glen(r) == 1 ==> rank(insym(g)) < rank(insym(top(ss, tos)))) })
{
    let s = top(ss, tos);
    sizes(st, ss, vs, tos);
    assert(s == 0 || preds(s).len() > 0) by { reveal(path); if tos >= 2 { assert(edge(ss[tos - 1] as int, ss[tos] as int)); edge_pred(ss[tos - 1] as int, ss[tos] as int, 0); } }
    cells(s, t);
    let l = glen(r); let k = tos - l + 1;
    walk(st, ss, vs, tos, tos, l, r);
    if l == 1 { rank_falls(r); assert(back(s, 1, r)); }
    assert(item_ok(st[tos - l + 1 - 2], rsym(r, 1), vs[tos - l + 1]));
    if l >= 2 { assert(item_ok(st[tos - l + 2 - 2], rsym(r, 2), vs[tos - l + 2])); }
    if l >= 3 { assert(item_ok(st[tos - l + 3 - 2], rsym(r, 3), vs[tos - l + 3])); }
    reduce_ok(r, st[k - 2], st[k - 1], st[k], vs[k], vs[k + 1], vs[k + 2], w);
    let e = build(r, st[k - 2], st[k - 1], st[k], vs[k].num, vs[k + 1].num, vs[k + 2].num);
    yld_split(st, l);
    yld_push(st.take(st.len() - l), Item::E(e));
    let n = st.take(st.len() - l).push(Item::E(e));
    let g = nt_act(ss[k - 1] as int, glhs(r) - 25);
    let s2 = ss.update(k, g as i32); let v2 = vs.update(k, w);
    reveal(path);
    assert forall|i: int| 2 <= i <= k implies edge(s2[i - 1] as int, #[trigger] s2[i] as int) && 0 < s2[i] < 61 && item_ok(n[i - 2], insym(s2[i] as int), v2[i]) by {
        if i < k { assert(edge(ss[i - 1] as int, ss[i] as int)); }
    }
    n
}
proof fn crem_minus_one(a: int) ensures crem(a, -1) == 0, cdiv(a, -1) == -a {}
// ---- the parser object: stacks of the size it remembers
pub open spec fn parser_ok(p: PPExprParser) -> bool {
    (p.stack_size == 0 && buf_null(p.state_stack)) || (!buf_null(p.state_stack) && 128 <= p.stack_size && p.sym_stack@.len() == p.stack_size && p.state_stack@.len() == p.stack_size)
}
proof fn mul_div(a: int, b: int) requires 0 <= a <= 0x4000_0000, 0 < b < 0x1_0000 ensures 0 <= a * b < 0x1_0000_0000_0000, (a * b) / b == a {
    assert(0 <= a * b < 0x1_0000_0000_0000) by(nonlinear_arith) requires 0 <= a <= 0x4000_0000, 0 < b < 0x1_0000;
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(a, b);
}
proof fn wf_down(e: Ex, l: int, m: int) requires wf(e, l), m <= l ensures wf(e, m) {}
//@fn ppexpr_grammar::t_action
//@ret r
    requires 0 <= state < 61, -1 <= token < 25, act_in(state as int, token as int),
    ensures r == t_act(state as int, token as int), *final(yy_start) == *old(yy_start), final(yy)@ == old(yy)@,
//@entry
    proof { reveal(t_act); }
//@endfn
//@fn ppexpr_grammar::nt_action
//@ret r
    requires 0 <= state < 61, 0 <= nt < 100, nt_in(state as int, nt as int),
    ensures r == nt_act(state as int, nt as int), *final(yy_start) == *old(yy_start), final(yy)@ == old(yy)@,
//@entry
    proof { reveal(nt_act); }
//@endfn
//@fn PPExprParser::reallocateStack
    requires parser_ok(*old(this)), old(this).stack_size < 0x2000_0000,
    ensures parser_ok(*final(this)), final(this).stack_size >= 128, final(this).stack_size == (if old(this).stack_size == 0 { 128 } else { 2 * old(this).stack_size as int }),
        *final(this) == (PPExprParser { stack_size: final(this).stack_size, sym_stack: final(this).sym_stack, state_stack: final(this).state_stack, ..*old(this) }),
        forall|i: int| 0 <= i < old(this).stack_size ==> #[trigger] final(this).sym_stack@[i] == old(this).sym_stack@[i] && final(this).state_stack@[i] == old(this).state_stack@[i],
        *final(yy_start) == *old(yy_start), final(yy)@ == old(yy)@,
//@exit
    proof { reveal_with_fuel(two_to, 3); assert(two_to(1) == 2); mul_div(this.stack_size as int, size_of_t::<PPExprParser_Value>() as int); mul_div(this.stack_size as int, 4); }
//@endfn
//@fn PPExprParser::expressionValue
    requires 0 <= old(this).tos < old(this).sym_stack@.len(), old(this).tos < 0x7fff_ffff,
    ensures res == old(this).sym_stack@[old(this).tos as int].num, *final(this) == *old(this),
//@endfn
//@fn PPExprParser::parse
    requires parser_ok(*old(this)), !old(yy)@.open, lexed(str@).len() < 0x1000_0000,
    ensures parser_ok(*final(this)), !final(yy)@.open,
        res ==> 0 <= final(this).tos < final(this).sym_stack@.len() && !unterminated(str@)
            && exists|e: Ex| #[trigger] wf(e, 0) && toks(e) == lexed(str@) && may(e, final(this).sym_stack@[final(this).tos as int].num),
        !res ==> final(this).m_errorMessage@.len() > 0,
//@entry
    let ghost mut st = Seq::<Item>::empty(); let ghost all = lexed(str@);
    let ghost mut gs = Seq::<i32>::empty(); let ghost mut gv = Seq::<PPExprParser_Value>::empty(); let ghost mut gt: int = 0; let ghost mut gr: int = 0; let ghost mut tok: int = 0;
//@before 1
    proof { start(this.state_stack@, this.sym_stack@); assert(yld(st) =~= all.take(0)); }
//@loop 1
    invariant_except_break
        yytoken == 0 ==> yy@.pos == all.len() && !unterminated(str@), yy@.pos == 0 ==> *yy_start == 1, yy@.pos > 0 ==> *yy_start == yy@.state,
    invariant
        all == lexed(str@), all.len() < 0x1000_0000, parser_ok(*this), this.stack_size >= 128, path(st, this.state_stack@, this.sym_stack@, this.tos as int), 1 <= this.tos < 0x2000_0000,
        -1 <= yytoken < 25, yy@.open, yy@.text == str@, 0 <= yy@.pos <= all.len(), 
        yytoken > 0 ==> yy@.pos >= 1 && code(all[yy@.pos - 1]) == yytoken && val_ok(all[yy@.pos - 1], this.yylval),
        yld(st) == all.take(yy@.pos - (if yytoken > 0 { 1int } else { 0 })),
        this.tos <= 1 + yy@.pos - (if yytoken > 0 { 1int } else { 0 }),
    decreases all.len() - yy@.pos + (if yytoken > 0 { 1int } else { 0 }), this.tos, rank(insym(this.state_stack@[this.tos as int] as int)),
//@body 1
    proof { sizes(st, this.state_stack@, this.sym_stack@, this.tos as int); }
//@call t_action 1
    proof { step(st, this.state_stack@, this.sym_stack@, this.tos as int, yytoken as int); }
//@post t_action 1
    proof { gs = this.state_stack@; gv = this.sym_stack@; gt = this.tos as int; gr = -act - 1; tok = yytoken as int; }
//@case 1
    proof { crem_minus_one(gv[this.tos as int].num as int); }
    assert(rval(gr, gv[this.tos as int], gv[this.tos + 1], gv[this.tos + 2], this.sym_stack@[this.tos as int]));
    assert(this.sym_stack@ =~= gv.update(this.tos as int, this.sym_stack@[this.tos as int]));
//@call nt_action 1
    proof { assert(this.sym_stack@ =~= gv.update(this.tos as int, this.sym_stack@[this.tos as int])); }
//@post nt_action 1
    proof { st = reduced(st, gs, gv, gt, tok, gr, this.sym_stack@[this.tos as int]); }
//@post =yytoken 2
    proof { let x = all[yy@.pos - 1]; assert forall|i: int| 1 <= i <= gt implies this.state_stack@[i] == gs[i] && this.sym_stack@[i] == gv[i] by { let q = this.sym_stack@[i]; } shifted(st, gs, gv, gt, tok, x, this.state_stack@, this.sym_stack@, all, yy@.pos); st = st.push(Item::T(x)); }
//@endfn
