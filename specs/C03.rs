//@sources src/jomlib/preprocessor.cpp
//@use C06 J05
//@cfg
{}
//@endcfg
// ---- the lines still to be read: put back lines, then the open files from the innermost outwards
pub struct In { pub pb: Seq<Str>, pub files: Seq<(Str, int)>, pub inl: bool }
pub open spec fn files_of(st: FS, h: RM) -> Seq<(Str, int)> { Seq::new(st.len(), |i: int| (h[st[i].reader].fname@, h[st[i].reader].state@)) }
pub open spec fn in_of(p: Preprocessor, h: RM) -> In { In { pb: p.m_linesPutBack@, files: files_of(p.m_fileStack@, h), inl: p.m_bInlineFileMode } }
pub open spec fn flive(f: Seq<(Str, int)>, inl: bool) -> int decreases f.len() {
    if f.len() == 0 { 0 } else if rd_null(f.last().1, inl) { flive(f.drop_last(), inl) } else { f.len() as int }
}
pub proof fn flive_range(f: Seq<(Str, int)>, inl: bool) ensures 0 <= flive(f, inl) <= f.len() decreases f.len()
{ if f.len() > 0 { flive_range(f.drop_last(), inl); } }
// the next line, None at the end of the input
#[verifier::opaque]
pub open spec fn next(i: In) -> (Option<ML>, In) {
    if i.pb.len() > 0 { (Some(ML { content: i.pb[0], cont: 0 }), In { pb: i.pb.drop_first(), ..i }) }
    else {
        let n = flive(i.files, i.inl);
        if n <= 0 || n > i.files.len() { (None, In { files: seq![], ..i }) }
        else {
            let t = i.files[n - 1];
            (Some(rd_line(t.1, i.inl)), In { files: i.files.take(n).update(n - 1, (t.0, rd_next(t.1, i.inl))), ..i })
        }
    }
}
pub proof fn same_live(st: FS, h: RM, inl: bool)
    ensures flive(files_of(st, h), inl) == live(st, h, inl)
    decreases st.len()
{
    if st.len() > 0 { assert(files_of(st, h).drop_last() =~= files_of(st.drop_last(), h)); same_live(st.drop_last(), h, inl); }
}
// every file is finite
pub uninterp spec fn size(i: In) -> nat;
pub axiom fn axiom_size(i: In)
    ensures next(i).0 is Some ==> size(next(i).1) < size(i), next(i).0 is None ==> size(next(i).1) <= size(i), size(i) < 0x8000_0000;
// a directive with its continuation lines (C05), the expansion of a text (C01), what a directive line says
pub open spec fn with(l: ML, x: ML) -> ML { ML { content: (if l.cont == 2 { l.content.push(94) } else { l.content }) + x.content, cont: x.cont } }
#[verifier::opaque]
pub open spec fn completed(l: ML, i: In) -> (Str, In) decreases size(i) via completed_dec {
    if l.cont == 0 { (l.content, i) } else { match next(i).0 { None => (l.content, next(i).1), Some(x) => completed(with(l, x), next(i).1) } }
}
#[via_fn]
proof fn completed_dec(l: ML, i: In) { axiom_size(i); }
pub proof fn completed_step(l: ML, i: In)
    ensures l.cont == 0 ==> completed(l, i) == (l.content, i), l.cont != 0 && next(i).0 is None ==> completed(l, i) == (l.content, next(i).1), l.cont != 0 && next(i).0 is Some ==> completed(l, i) == completed(with(l, next(i).0->0), next(i).1)
{ reveal_with_fuel(completed, 2); axiom_size(i); }
pub proof fn next_inl(i: In) ensures next(i).1.inl == i.inl { reveal(next); }
pub proof fn axiom_completed(l: ML, i: In) ensures size(completed(l, i).1) <= size(i), completed(l, i).1.inl == i.inl decreases size(i)
{ completed_step(l, i); axiom_size(i); next_inl(i); if l.cont != 0 && next(i).0 is Some { axiom_completed(with(l, next(i).0->0), next(i).1); } }
pub uninterp spec fn expanded(tab: int, s: Str) -> Option<Str>;
pub struct Dir { pub is: bool, pub name: Str, pub value: Str }
pub uninterp spec fn dir_of(tab: int, s: Str) -> Option<Dir>;
pub uninterp spec fn defined(tab: int, s: Str) -> bool;
pub uninterp spec fn evaluated(tab: int, s: Str) -> Option<int>;
pub uninterp spec fn undefined(tab: int, s: Str) -> int;
// ---- kinds of directives
pub enum Kind { If, Else, Endif, Other }
pub open spec fn kind(n: Str) -> Kind {
    if n == @o"ENDIF" { Kind::Endif } else if qstarts(n, @o"IF") { Kind::If } else if qstarts(n, @o"ELSE") { Kind::Else } else { Kind::Other }
}
// ---- a branch that is not taken: everything up to the !ELSE... or !ENDIF of the same nesting depth is read and has no effect
pub enum Skip { Error, End(In), Else(In, Str), Endif(In) }
pub open spec fn line_of(l: ML, i: In) -> (Str, In) { if l.content.len() > 0 && l.content[0] == 33 { completed(l, i) } else { (l.content, i) } }
#[verifier::opaque]
pub open spec fn skip(i: In, tab: int, depth: int) -> Skip decreases size(i) via skip_dec {
    match next(i).0 {
        None => Skip::End(next(i).1),
        Some(l) => {
            let (c, i2) = line_of(l, next(i).1);
            match expanded(tab, c) {
                None => Skip::Error,
                Some(x) => match dir_of(tab, x) {
                    None => Skip::Error,
                    Some(d) => {
                        let k = if d.is { kind(d.name) } else { Kind::Other };
                        if k is Other { skip(i2, tab, depth) }
                        else if depth == 0 && k is Else { Skip::Else(i2, x) }
                        else if depth == 0 && k is Endif { Skip::Endif(i2) }
                        else if k is Endif { skip(i2, tab, depth - 1) }
                        else if k is If { skip(i2, tab, depth + 1) }
                        else { skip(i2, tab, depth) }
                    }
                }
            }
        }
    }
}
#[via_fn]
proof fn skip_dec(i: In, tab: int, depth: int) {
    axiom_size(i);
    match next(i).0 { Some(l) => { axiom_completed(l, next(i).1); } None => {} }
}
pub proof fn skip_step(i: In, tab: int, depth: int)
    ensures next(i).0 is None ==> skip(i, tab, depth) == Skip::End(next(i).1),
        next(i).0 matches Some(l) ==> ({
            let (c, i2) = line_of(l, next(i).1);
            size(i2) < size(i) && skip(i, tab, depth) == (match expanded(tab, c) { None => Skip::Error, Some(x) => match dir_of(tab, x) { None => Skip::Error, Some(d) => {
                let k = if d.is { kind(d.name) } else { Kind::Other };
                if k is Other { skip(i2, tab, depth) } else if depth == 0 && k is Else { Skip::Else(i2, x) } else if depth == 0 && k is Endif { Skip::Endif(i2) }
                else if k is Endif { skip(i2, tab, depth - 1) } else if k is If { skip(i2, tab, depth + 1) } else { skip(i2, tab, depth) }
            } } })
        }),
{ reveal_with_fuel(skip, 2); axiom_size(i); match next(i).0 { Some(l) => { axiom_completed(l, next(i).1); } None => {} } }
// ---- what a conditional directive does. Of every open conditional the stack notes whether no branch of it was delivered so far.
pub enum Act { Error, Take(Seq<bool>), Leave(Seq<bool>) }
pub open spec fn opened(cs: Seq<bool>, c: bool) -> Act { if c { Act::Take(cs.push(false)) } else { Act::Leave(cs.push(true)) } }
pub open spec fn branch(cs: Seq<bool>, c: bool) -> Act {
    if cs.len() == 0 { Act::Error } else if cs.last() && c { Act::Take(cs.drop_last().push(false)) } else { Act::Leave(cs) }
}
pub open spec fn is_true(t: int, v: Str) -> Option<bool> { match evaluated(t, v) { Some(n) => Some(n != 0), None => None } }
pub open spec fn act(cs: Seq<bool>, t: int, n: Str, v: Str) -> Option<Act> {
    if n == @o"CMDSWITCHES" || n == @o"ERROR" || n == @o"MESSAGE" || n == @o"INCLUDE" { None }
    else if n == @o"IF" { match is_true(t, v) { Some(c) => Some(opened(cs, c)), None => Some(Act::Error) } }
    else if n == @o"IFDEF" { Some(opened(cs, defined(t, v))) }
    else if n == @o"IFNDEF" { Some(opened(cs, !defined(t, v))) }
    else if n == @o"ELSE" { Some(branch(cs, true)) }
    else if n == @o"ELSEIF" { if cs.len() > 0 && !cs.last() { Some(Act::Leave(cs)) } else { match is_true(t, v) { Some(c) => Some(branch(cs, c)), None => Some(Act::Error) } } }
    else if n == @o"ELSEIFDEF" { Some(branch(cs, defined(t, v))) }
    else if n == @o"ELSEIFNDEF" { Some(branch(cs, !defined(t, v))) }
    else if n == @o"ENDIF" { Some(if cs.len() == 0 { Act::Error } else { Act::Take(cs.drop_last()) }) }
    else { None }
}
// the conditions c[0..n) of the branches of one conditional in their order (true for !ELSE): branch n is delivered exactly if
// its condition holds and no condition before it does
pub open spec fn top_after(c: Seq<bool>, n: int) -> bool decreases n {      // no branch delivered by the first n
    if n <= 0 { true } else { top_after(c, n - 1) && !c[n - 1] }
}
pub open spec fn flag_after(cs: Seq<bool>, c: Seq<bool>, n: int) -> Seq<bool> decreases n {     // the stack after n branch directives
    if n <= 1 { match opened(cs, c[0]) { Act::Take(s) => s, Act::Leave(s) => s, _ => cs } }
    else { match branch(flag_after(cs, c, n - 1), c[n - 1]) { Act::Take(s) => s, Act::Leave(s) => s, Act::Error => cs } }
}
pub proof fn first_branch(cs: Seq<bool>, c: Seq<bool>, n: int)
    requires 1 <= n < c.len()
    ensures flag_after(cs, c, n) == cs.push(top_after(c, n)),
        branch(flag_after(cs, c, n), c[n]) is Take <==> c[n] && forall|j: int| 0 <= j < n ==> !c[j],
    decreases n
{
    reveal_with_fuel(top_after, 2); reveal_with_fuel(flag_after, 2);
    if n > 1 { first_branch(cs, c, n - 1); }
    assert(flag_after(cs, c, n) =~= cs.push(top_after(c, n)));
    top_all(c, n);
}
pub proof fn top_all(c: Seq<bool>, n: int)
    requires 0 <= n <= c.len()
    ensures top_after(c, n) <==> forall|j: int| 0 <= j < n ==> !c[j]
    decreases n
{ if n > 0 { top_all(c, n - 1); } }
pub open spec fn pb_ok(p: Preprocessor) -> bool { forall|i: int| 0 <= i < p.m_linesPutBack@.len() ==> (#[trigger] p.m_linesPutBack@[i]).len() > 0 }
pub open spec fn ready(p: Preprocessor, h: HeapV) -> bool { wf(p.m_fileStack@, h.MakefileLineReader) && pb_ok(p) && h.MacroTable.dom().contains(p.m_macroTable) }
//@extern MacroTable::expandMacros(S,b)
//@flags heap throws
    requires old(hp)@.MacroTable.dom().contains(this)
    ensures final(hp)@ == old(hp)@, (res matches Ok(x) ==> expanded(old(hp)@.tab, str@) == Some(x@)), res is Err ==> expanded(old(hp)@.tab, str@) is None
//@endfn
//@extern MacroTable::isMacroDefined
//@flags heap
    requires old(hp)@.MacroTable.dom().contains(this)
    ensures final(hp)@ == old(hp)@, res == defined(old(hp)@.tab, name@)
//@endfn
//@extern MacroTable::undefineMacro
//@flags heap
    requires old(hp)@.MacroTable.dom().contains(this)
    ensures final(hp)@ == (HeapV { tab: undefined(old(hp)@.tab, name@), ..old(hp)@ })
//@endfn
//@extern Preprocessor::isPreprocessingDirective
//@flags heap throws
    requires old(hp)@.MacroTable.dom().contains(old(this).m_macroTable)
    ensures *final(this) == *old(this), final(hp)@ == old(hp)@, ({
        let d = dir_of(old(hp)@.tab, line@);
        (res is Err ==> d is None) && (res matches Ok(b) ==> d is Some && b == d->0.is && (b ==> d->0.name == final(directive)@ && d->0.value == final(value)@ && line@.len() > 0))
    })
//@endfn
//@extern Preprocessor::evaluateExpression
//@flags heap throws
    requires old(hp)@.MacroTable.dom().contains(old(this).m_macroTable)
    ensures *final(this) == *old(this), final(hp)@ == old(hp)@, (res matches Ok(n) ==> evaluated(old(hp)@.tab, expr@) == Some(n as int)), res is Err ==> evaluated(old(hp)@.tab, expr@) is None
//@endfn
//@extern Preprocessor::parseMacro
//@flags heap throws
    requires old(hp)@.MacroTable.dom().contains(old(this).m_macroTable)
    ensures *final(this) == *old(this), final(hp)@ == (HeapV { tab: final(hp)@.tab, ..old(hp)@ }), (res matches Ok(true)) ==> line@.len() > 0
//@endfn
//@fn Preprocessor::exitConditional
//@flags throws
    ensures res is Err <==> old(this).m_conditionalStack@.len() == 0, res is Err ==> *final(this) == *old(this),
        res is Ok ==> final(this).m_conditionalStack@ == old(this).m_conditionalStack@.drop_last(),
        final(this).m_linesPutBack == old(this).m_linesPutBack, final(this).m_fileStack == old(this).m_fileStack, final(this).m_macroTable == old(this).m_macroTable, final(this).m_bInlineFileMode == old(this).m_bInlineFileMode,
//@endfn
//@fn Preprocessor::enterConditional
    ensures final(this).m_conditionalStack@ == old(this).m_conditionalStack@.push(followElseBranch),
        final(this).m_linesPutBack == old(this).m_linesPutBack, final(this).m_fileStack == old(this).m_fileStack, final(this).m_macroTable == old(this).m_macroTable, final(this).m_bInlineFileMode == old(this).m_bInlineFileMode,
//@endfn
//@inline Preprocessor::conditionalDepth
//@endfn
//@inline isComplete
//@endfn
// reading one line, seen from the input
pub proof fn read_in(p: Preprocessor, q: Preprocessor, h: RM, h2: RM, content: Str, null: bool, cont: int)
    requires
        wf(p.m_fileStack@, h),
        ({ let st = p.m_fileStack@; let st2 = q.m_fileStack@; let pb = p.m_linesPutBack@; let inl = p.m_bInlineFileMode; let n = live(st, h, inl);
        (pb.len() > 0 ==> content == pb[0] && !null && cont == 0 && q.m_linesPutBack@ == pb.drop_first() && st2 == st && h2 == h)
        && (pb.len() == 0 ==> q.m_linesPutBack@ == pb && st2 =~= st.take(n) && null == (n == 0)
            && (n > 0 ==> ({
                let top = st[n - 1].reader;
                content == rd_line(h[top].state@, inl).content && cont == rd_line(h[top].state@, inl).cont
                && h2[top].state@ == rd_next(h[top].state@, inl) && h2[top].fname@ == h[top].fname@
                && (forall|i: int| 0 <= i < n - 1 ==> h2[(#[trigger] st[i]).reader] == h[st[i].reader])
            }))) }),
        q.m_bInlineFileMode == p.m_bInlineFileMode,
    ensures next(in_of(p, h)).1 == in_of(q, h2), null == (next(in_of(p, h)).0 is None), !null ==> next(in_of(p, h)).0 == Some(ML { content, cont }),
{
    reveal(next);
    let st = p.m_fileStack@; let inl = p.m_bInlineFileMode; let n = live(st, h, inl);
    same_live(st, h, inl); live_range(st, h, inl);
    if p.m_linesPutBack@.len() == 0 {
        assert(p.m_linesPutBack@ =~= q.m_linesPutBack@);
        if n > 0 {
            assert(files_of(q.m_fileStack@, h2) =~= files_of(st, h).take(n).update(n - 1, (files_of(st, h)[n - 1].0, rd_next(files_of(st, h)[n - 1].1, inl))));
        } else { assert(files_of(q.m_fileStack@, h2) =~= seq![]); }
    }
}
//@inline Preprocessor::completeLineImpl
//@endfn
//@fn Preprocessor::completePreprocessingDirectiveLine
//@flags heap throws
    requires wf(old(this).m_fileStack@, old(hp)@.MakefileLineReader), pb_ok(*old(this))
    ensures ({
        let h2 = final(hp)@.MakefileLineReader; let st2 = final(this).m_fileStack@;
        let c = completed(ML { content: old(line).content@, cont: old(line).continuation as int }, in_of(*old(this), old(hp)@.MakefileLineReader));
        final(hp)@ == (HeapV { MakefileLineReader: h2, ..old(hp)@ }) && wf(st2, h2) && pb_ok(*final(this))
        && (res is Ok ==> final(line).content@ == c.0 && (qs_null(final(line).content) ==> qs_null(old(line).content)) && in_of(*final(this), h2) == c.1)
        && final(this).m_conditionalStack == old(this).m_conditionalStack && final(this).m_macroTable == old(this).m_macroTable && final(this).m_bInlineFileMode == old(this).m_bInlineFileMode
    })
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@entry
    let ghost goal = completed(ML { content: line.content@, cont: line.continuation as int }, in_of(*this, hp@.MakefileLineReader));
//@loop 1
    invariant_except_break goal == completed(ML { content: line.content@, cont: line.continuation as int }, in_of(*this, hp@.MakefileLineReader)),
    invariant wf(this.m_fileStack@, hp@.MakefileLineReader), pb_ok(*this), hp@ == (HeapV { MakefileLineReader: hp@.MakefileLineReader, ..old(hp)@ }),
        this.m_conditionalStack == old(this).m_conditionalStack, this.m_macroTable == old(this).m_macroTable, this.m_bInlineFileMode == old(this).m_bInlineFileMode, qs_null(line.content) ==> qs_null(old(line).content),
    ensures goal == (line.content@, in_of(*this, hp@.MakefileLineReader)), line.continuation == 0
    decreases size(in_of(*this, hp@.MakefileLineReader))
//@body 1
    let ghost i0 = in_of(*this, hp@.MakefileLineReader); let ghost p0 = *this; let ghost h0 = hp@.MakefileLineReader; let ghost l0 = ML { content: line.content@, cont: line.continuation as int };
    proof { completed_step(l0, i0); axiom_size(i0); }
//@post basicReadLine 1
    proof { read_in(p0, *this, h0, hp@.MakefileLineReader, next.content@, qs_null(next.content), next.continuation as int); }
//@post joinPreprocessingDirectiveLines 1
    proof { let n = ML { content: next.content@, cont: next.continuation as int }; assert(line.content@ =~= with(l0, n).content); }
//@exit
    proof { completed_step(ML { content: line.content@, cont: 0 }, in_of(*this, hp@.MakefileLineReader)); }
//@endfn
//@fn Preprocessor::skipUntilNextMatchingConditional
//@flags heap throws
    requires ready(*old(this), old(hp)@), old(this).m_conditionalStack@.len() > 0
    ensures ready(*final(this), final(hp)@), ({
        let r = skip(in_of(*old(this), old(hp)@.MakefileLineReader), old(hp)@.tab, 0);
        let cs = old(this).m_conditionalStack@; let cs2 = final(this).m_conditionalStack@;
        let i2 = in_of(*final(this), final(hp)@.MakefileLineReader);
        final(hp)@ == (HeapV { MakefileLineReader: final(hp)@.MakefileLineReader, ..old(hp)@ })
        && (res is Ok ==> match r { Skip::Error => false, Skip::End(i) => i2 == i && cs2 == cs, Skip::Else(i, x) => i2 == (In { pb: i.pb.push(x), ..i }) && cs2 == cs, Skip::Endif(i) => i2 == i && cs2 == cs.drop_last() })
        && final(this).m_macroTable == old(this).m_macroTable && final(this).m_bInlineFileMode == old(this).m_bInlineFileMode
    })
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost t0 = hp@.tab; let ghost goal = skip(in_of(*this, hp@.MakefileLineReader), t0, 0); let ghost s0 = size(in_of(*this, hp@.MakefileLineReader));
    proof { axiom_size(in_of(*this, hp@.MakefileLineReader)); }
//@loop 1
    invariant ready(*this, hp@), hp@ == (HeapV { MakefileLineReader: hp@.MakefileLineReader, ..old(hp)@ }),
        this.m_conditionalStack == old(this).m_conditionalStack, this.m_macroTable == old(this).m_macroTable, this.m_bInlineFileMode == old(this).m_bInlineFileMode,
        goal == skip(in_of(*this, hp@.MakefileLineReader), t0, depth as int), depth + size(in_of(*this, hp@.MakefileLineReader)) <= s0,
    decreases size(in_of(*this, hp@.MakefileLineReader))
//@body 1
    let ghost i0 = in_of(*this, hp@.MakefileLineReader); let ghost p0 = *this; let ghost h0 = hp@.MakefileLineReader;
    proof { skip_step(i0, t0, depth as int); }
//@post basicReadLine 1
    proof { read_in(p0, *this, h0, hp@.MakefileLineReader, line.content@, qs_null(line.content), line.continuation as int); assert(pb_ok(*this)); }
//@call expandMacros 1
    proof { let l = next(i0).0->0; assert((line.content@, in_of(*this, hp@.MakefileLineReader)) == line_of(l, next(i0).1)); }
//@post append 1
    proof { let i = in_of(*this, hp@.MakefileLineReader); assert(pb_ok(*this)); assert(expandedLine@.len() > 0); }
//@endfn
//@fn Preprocessor::parsePreprocessingDirective
//@flags heap throws
    requires ready(*old(this), old(hp)@)
    ensures ready(*final(this), final(hp)@), final(this).m_macroTable == old(this).m_macroTable, final(this).m_bInlineFileMode == old(this).m_bInlineFileMode,
        res matches Ok(b) ==> ({
            let t = old(hp)@.tab; let cs = old(this).m_conditionalStack@; let cs2 = final(this).m_conditionalStack@;
            let i = in_of(*old(this), old(hp)@.MakefileLineReader); let i2 = in_of(*final(this), final(hp)@.MakefileLineReader);
            let x = expanded(t, line@); let d = dir_of(t, x->0);
            x is Some && d is Some && b == d->0.is
            && (!b ==> *final(this) == *old(this) && final(hp)@ == old(hp)@)
            && (b ==> match act(cs, t, d->0.name, d->0.value) {
                None => cs2 == cs,
                Some(Act::Error) => false,
                Some(Act::Take(s)) => cs2 == s && i2 == i && final(hp)@.tab == t,
                Some(Act::Leave(s)) => final(hp)@.tab == t && match skip(i, t, 0) {
                    Skip::Error => false, Skip::End(j) => i2 == j && cs2 == s, Skip::Else(j, y) => i2 == (In { pb: j.pb.push(y), ..j }) && cs2 == s, Skip::Endif(j) => i2 == j && cs2 == s.drop_last() } })
        })
//@endfn
//@fn Preprocessor::readLine
//@flags heap throws
    requires ready(*old(this), old(hp)@)
    ensures ready(*final(this), final(hp)@), res matches Ok(s) ==> (qs_null(s) ==> final(this).m_conditionalStack@.len() == 0)
            && ({ let t = final(hp)@.tab; let x = expanded(t, s@); x is Some && dir_of(t, x->0) is Some && !dir_of(t, x->0)->0.is })
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@loop 1
    invariant ready(*this, hp@),
    ensures ({ let t = hp@.tab; let x = expanded(t, line.content@); x is Some && dir_of(t, x->0) is Some && !dir_of(t, x->0)->0.is }),
//@endfn
