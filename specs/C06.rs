//@sources src/jomlib/preprocessor.cpp:removeDoubleQuotes
//@cfg
{'structs': ['Preprocessor', 'MakefileLine', 'Preprocessor::TextFile'], 'heap': ['MacroTable', 'MakefileLineReader'], 'nofields': ['MacroTable', 'MakefileLineReader'], 'heap_ghost': ['tab: int'],
 'ghost_fields': {'MakefileLineReader': ['fname: Ghost<Str>', 'state: Ghost<int>']},
 'heap_new': {'MakefileLineReader.new_S': 'reader_for($1)'},
 'fields': {'Preprocessor': ['m_macroTable', 'm_bInlineFileMode', 'm_fileStack', 'm_linesPutBack', 'm_conditionalStack']}, 'exceptions': {'Exception': 'QString', 'FileException': ''}}
//@endcfg
// ---- a reader of a file: at each moment it is at its end or has a next line (C05 says which)
pub struct ML { pub content: Str, pub cont: int }
pub uninterp spec fn rd_null(state: int, inl: bool) -> bool;
pub uninterp spec fn rd_line(state: int, inl: bool) -> ML;
pub uninterp spec fn rd_next(state: int, inl: bool) -> int;
pub uninterp spec fn can_open(f: Str) -> bool;
pub uninterp spec fn rd_start(f: Str) -> int;
#[verifier::external_body]
pub fn reader_for(f: QString) -> (r: MakefileLineReader) ensures r.fname@ == f@, r.state@ == rd_start(f@) { unimplemented!() }
pub type FS = Seq<Preprocessor_TextFile>;
pub type RM = Map<u64, MakefileLineReader>;
pub uninterp spec fn macro_value(tab: int, name: Str) -> Str;
// ---- where an include is looked for
pub open spec fn unquote(s: Str) -> Str {
    if s.len() > 0 && s[0] == 34 && s[s.len() - 1] == 34 { if s.len() == 1 { seq![] } else { s.subrange(1, s.len() - 1) } } else { s }
}
pub open spec fn angled(s: Str) -> bool { s.len() > 0 && s[0] == 60 && s[s.len() - 1] == 62 }
pub open spec fn inner(s: Str) -> Str { unquote(if angled(s) { s.subrange(1, s.len() - 1) } else { s }) }
pub open spec fn under(d: Str, p: Str) -> Str { d + seq![47u16] + p }
pub open spec fn in_parents(st: FS, n: int, p: Str) -> Option<Str> decreases n {
    if n <= 0 || n > st.len() { None } else if qfi_exists(under(st[n - 1].fileDirectory@, p)) { Some(qfi_abs(under(st[n - 1].fileDirectory@, p))) } else { in_parents(st, n - 1, p) }
}
pub open spec fn in_dirs(d: Seq<Str>, i: int, p: Str) -> Option<Str> decreases d.len() - i {
    if i < 0 || i >= d.len() { None } else if qfi_exists(under(d[i], p)) { Some(qfi_abs(under(d[i], p))) } else { in_dirs(d, i + 1, p) }
}
pub open spec fn inc_dirs(v: Str) -> Seq<Str> { non_empty(split_c(subst_c(v, 9, 32), 59)) }
pub open spec fn found(st: FS, inc: Str, v: Str) -> Option<Str> {
    let p = inner(v);
    if qfi_exists(p) { Some(qfi_abs(p)) }
    else { match in_parents(st, st.len() as int, p) { Some(x) => Some(x), None => if angled(v) { in_dirs(inc_dirs(inc), 0, p) } else { None } } }
}
// ---- the files being read
pub open spec fn wf(st: FS, h: RM) -> bool {
    (forall|i: int| 0 <= i < st.len() ==> #[trigger] st[i].reader != 0 && h.dom().contains(st[i].reader))
    && (forall|i: int, j: int| 0 <= i < j < st.len() ==> (#[trigger] st[i]).reader != (#[trigger] st[j]).reader)
}
pub open spec fn being_read(st: FS, h: RM, f: Str) -> bool { exists|i: int| 0 <= i < st.len() && h[(#[trigger] st[i]).reader].fname@ == f }
pub open spec fn no_cycle(st: FS, h: RM) -> bool { forall|i: int, j: int| 0 <= i < j < st.len() ==> h[(#[trigger] st[i]).reader].fname@ != h[(#[trigger] st[j]).reader].fname@ }
// how many files are left when those at their end are closed
pub open spec fn live(st: FS, h: RM, inl: bool) -> int decreases st.len() {
    if st.len() == 0 { 0 } else if rd_null(h[st.last().reader].state@, inl) { live(st.drop_last(), h, inl) } else { st.len() as int }
}
pub proof fn live_range(st: FS, h: RM, inl: bool) ensures 0 <= live(st, h, inl) <= st.len() decreases st.len()
{ if st.len() > 0 { live_range(st.drop_last(), h, inl); } }
//@extern Preprocessor::error
//@flags throws
    ensures res is Err, *final(this) == *old(this)
//@endfn
//@extern MacroTable::macroValue
//@flags heap
    requires old(hp)@.MacroTable.dom().contains(this)
    ensures final(hp)@ == old(hp)@, res@ == macro_value(old(hp)@.tab, macroName@)
//@endfn
//@extern MakefileLineReader::readLine
//@flags heap
    requires this != 0, old(hp)@.MakefileLineReader.dom().contains(this)
    ensures ({
        let r = old(hp)@.MakefileLineReader[this];
        let m = final(hp)@.MakefileLineReader;
        final(hp)@ == (HeapV { MakefileLineReader: m, ..old(hp)@ })
        && m.dom() =~= old(hp)@.MakefileLineReader.dom() && (forall|p: u64| p != this && m.dom().contains(p) ==> m[p] == old(hp)@.MakefileLineReader[p])
        && m[this].fname@ == r.fname@ && qs_null(res.content) == rd_null(r.state@, bInlineFileMode)
        && (!qs_null(res.content) ==> res.content@ == rd_line(r.state@, bInlineFileMode).content && res.continuation == rd_line(r.state@, bInlineFileMode).cont
            && m[this].state@ == rd_next(r.state@, bInlineFileMode))
        && (qs_null(res.content) ==> res.continuation == 0)
    })
//@endfn
//@extern MakefileLineReader::open
//@flags heap
    requires this != 0, old(hp)@.MakefileLineReader.dom().contains(this)
    ensures final(hp)@ == old(hp)@, res == can_open(old(hp)@.MakefileLineReader[this].fname@)
//@endfn
//@extern MakefileLineReader::fileName
//@flags heap
    requires this != 0, old(hp)@.MakefileLineReader.dom().contains(this)
    ensures final(hp)@ == old(hp)@, res@ == old(hp)@.MakefileLineReader[this].fname@
//@endfn
//@inline removeDoubleQuotes
//@endfn
//@fn Preprocessor::findIncludeFile
//@flags heap throws
    requires old(hp)@.MacroTable.dom().contains(old(this).m_macroTable)
    ensures *final(this) == *old(this), final(hp)@ == old(hp)@,
        ({
            let f = found(old(this).m_fileStack@, macro_value(old(hp)@.tab, @o"INCLUDE"), filePathToInclude@);
            (res matches Ok(r) ==> f == Some(r@)) && (res is Err ==> f is None)
        })
//@attr #[verifier::loop_isolation(false)]
//@call exists 1
    proof { assert(filePath@ =~= inner(filePathToInclude@)); }
//@loop 1
    invariant 0 <= it <= this.m_fileStack@.len(), in_parents(this.m_fileStack@, this.m_fileStack@.len() as int, filePath@) == in_parents(this.m_fileStack@, it as int, filePath@),
    decreases it
//@loop 2
    invariant 0 <= fe2_i <= fe2_c@.len(), in_dirs(fe2_c@, 0, filePath@) == in_dirs(fe2_c@, fe2_i as int, filePath@),
    decreases fe2_c@.len() - fe2_i
//@call exists 2
    proof { assert(fi@ =~= under(this.m_fileStack@[it as int].fileDirectory@, filePath@)); }
//@call exists 3
    proof { assert(fi@ =~= under(fe2_c@[fe2_i as int], filePath@)); }
//@endfn
//@fn Preprocessor::internalOpenFile
//@flags heap throws
    requires wf(old(this).m_fileStack@, old(hp)@.MakefileLineReader)
    ensures ({
        let st = old(this).m_fileStack@; let h = old(hp)@.MakefileLineReader; let st2 = final(this).m_fileStack@; let h2 = final(hp)@.MakefileLineReader; let f = qfi_abs(fileName@);
        (res is Ok <==> qfi_exists(fileName@) && !being_read(st, h, f) && can_open(f))
        && (res is Err ==> *final(this) == *old(this) && h2 == h)
        && (res is Ok ==> st2.len() == st.len() + 1 && st2.drop_last() =~= st && st2.last().fileDirectory@ == qfi_abs_dir(fileName@)
            && !h.dom().contains(st2.last().reader) && h2.dom().contains(st2.last().reader) && h2[st2.last().reader].fname@ == f && h2[st2.last().reader].state@ == rd_start(f)
            && (forall|p: u64| h.dom().contains(p) ==> h2.dom().contains(p) && h2[p] == h[p]) && wf(st2, h2) && (no_cycle(st, h) ==> no_cycle(st2, h2)))
        && final(this).m_linesPutBack == old(this).m_linesPutBack && final(this).m_conditionalStack == old(this).m_conditionalStack && final(this).m_macroTable == old(this).m_macroTable
        && final(this).m_bInlineFileMode == old(this).m_bInlineFileMode && final(hp)@ == (HeapV { MakefileLineReader: h2, ..old(hp)@ })
    })
//@attr #[verifier::loop_isolation(false)]
//@loop 1
    invariant hp@ == old(hp)@, *this == *old(this), fe1_c@ == st0, 0 <= fe1_i <= fe1_c@.len(), forall|i: int| 0 <= i < fe1_i ==> h0[(#[trigger] fe1_c@[i]).reader].fname@ != fileName@,
    decreases fe1_c@.len() - fe1_i
//@entry
    let ghost h0 = hp@.MakefileLineReader; let ghost st0 = this.m_fileStack@;
//@body 1
    proof { assert(st0[fe1_i as int].reader != 0); }
//@call fileName 1
    proof { assert(tf == st0[fe1_i as int]); }
//@after 1
    proof { assert(!being_read(st0, h0, fileName@)); }
//@exit
    proof {
        let st2 = this.m_fileStack@; let h2 = hp@.MakefileLineReader;
        assert(st2.drop_last() =~= st0);
        assert forall|i: int| 0 <= i < st2.len() implies #[trigger] st2[i].reader != 0 && h2.dom().contains(st2[i].reader) by { if i < st0.len() { assert(st2[i] == st0[i]); assert(st0[i].reader != 0); } }
        assert(forall|i: int| 0 <= i < st0.len() ==> st2[i] == #[trigger] st0[i]);
    }
//@endfn
//@fn Preprocessor::basicReadLine
//@flags heap
    requires wf(old(this).m_fileStack@, old(hp)@.MakefileLineReader), forall|i: int| 0 <= i < old(this).m_linesPutBack@.len() ==> (#[trigger] old(this).m_linesPutBack@[i]).len() > 0
    ensures ({
        let st = old(this).m_fileStack@; let h = old(hp)@.MakefileLineReader; let st2 = final(this).m_fileStack@; let h2 = final(hp)@.MakefileLineReader;
        let pb = old(this).m_linesPutBack@; let inl = old(this).m_bInlineFileMode; let n = live(st, h, inl);
        (pb.len() > 0 ==> res.content@ == pb[0] && !qs_null(res.content) && res.continuation == 0 && final(this).m_linesPutBack@ == pb.drop_first() && st2 == st && h2 == h)
        && (pb.len() == 0 ==> final(this).m_linesPutBack@ == pb && st2 =~= st.take(n) && qs_null(res.content) == (n == 0)
            && (n == 0 ==> res.continuation == 0)
            && (n > 0 ==> ({
                let top = st[n - 1].reader;
                res.content@ == rd_line(h[top].state@, inl).content && res.continuation == rd_line(h[top].state@, inl).cont
                && h2[top].state@ == rd_next(h[top].state@, inl) && h2[top].fname@ == h[top].fname@
                && (forall|i: int| 0 <= i < n - 1 ==> h2[(#[trigger] st[i]).reader] == h[st[i].reader])
            })))
        && wf(st2, h2) && (no_cycle(st, h) ==> no_cycle(st2, h2))
        && final(this).m_conditionalStack == old(this).m_conditionalStack && final(this).m_macroTable == old(this).m_macroTable
        && final(this).m_bInlineFileMode == old(this).m_bInlineFileMode && final(hp)@ == (HeapV { MakefileLineReader: h2, ..old(hp)@ })
    })
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@entry
    let ghost h0 = hp@.MakefileLineReader; let ghost st0 = this.m_fileStack@; let ghost inl = this.m_bInlineFileMode;
    proof { live_range(st0, h0, inl); }
//@loop 1
    invariant_except_break this.m_fileStack@.len() > 0,
    invariant
        this.m_fileStack@ =~= st0.take(this.m_fileStack@.len() as int), this.m_fileStack@.len() <= st0.len(),
        ({ let st = this.m_fileStack@; let h = hp@.MakefileLineReader; let n = st.len() as int;
            wf(st, h) && (n > 0 ==> (qs_null(line.content) ==> live(st0, h0, inl) == live(st.drop_last(), h0, inl)) && (!qs_null(line.content) ==> live(st0, h0, inl) == n
                && line.content@ == rd_line(h0[st0[n - 1].reader].state@, inl).content && line.continuation == rd_line(h0[st0[n - 1].reader].state@, inl).cont
                && h[st0[n - 1].reader].state@ == rd_next(h0[st0[n - 1].reader].state@, inl)) && h[st0[n - 1].reader].fname@ == h0[st0[n - 1].reader].fname@)
            && (forall|i: int| 0 <= i < n - 1 ==> h[(#[trigger] st0[i]).reader] == h0[st0[i].reader]) }),
        hp@ == (HeapV { MakefileLineReader: hp@.MakefileLineReader, ..old(hp)@ }), qs_null(line.content) ==> line.continuation == 0,
        this.m_linesPutBack == old(this).m_linesPutBack, this.m_conditionalStack == old(this).m_conditionalStack, this.m_macroTable == old(this).m_macroTable, this.m_bInlineFileMode == inl,
    ensures this.m_fileStack@.len() > 0 ==> !qs_null(line.content), this.m_fileStack@.len() == 0 ==> qs_null(line.content) && live(st0, h0, inl) == 0,
    decreases this.m_fileStack@.len()
//@body 1
    let ghost sb = this.m_fileStack@;
    proof { let st = this.m_fileStack@; assert(st[st.len() - 1].reader != 0); assert(st.last() == st0[st.len() - 1]);
        assert(st.drop_last() =~= st0.take(st.len() - 1)); assert(live(st0.take(0), h0, inl) == 0);
        if st.len() > 1 { assert(st.drop_last().last() == st0[st.len() - 2]); assert(st.drop_last().drop_last() =~= st0.take(st.len() - 2)); assert(st[st.len() - 2].reader != 0 && st[st.len() - 2] == st0[st.len() - 2]); } }
//@end 1
    proof {
        let st = this.m_fileStack@; let h = hp@.MakefileLineReader; let n = st.len() as int;
        assert(forall|i: int| 0 <= i < n ==> #[trigger] st[i] == st0[i]);
        assert forall|i: int| 0 <= i < n implies #[trigger] st[i].reader != 0 && h.dom().contains(st[i].reader) by { assert(sb[i].reader != 0); }
        assert forall|i: int, j: int| 0 <= i < j < n implies (#[trigger] st[i]).reader != (#[trigger] st[j]).reader by { assert(sb[i].reader != sb[j].reader); }
        assert(wf(st, h));
        assert(st0[n - 1].reader == st.last().reader);
        assert forall|i: int| 0 <= i < n - 1 implies h[(#[trigger] st0[i]).reader] == h0[st0[i].reader] by { assert(st[i].reader != st[n - 1].reader); assert(sb[i].reader != sb[n].reader); }
        assert(sb[n - 1].reader != sb[n].reader);
    }
//@endfn
