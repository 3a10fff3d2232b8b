//@sources src/jomlib/parser.cpp:auto src/jomlib/makefile.cpp:auto src/jomlib/helperfunctions.cpp:auto
//@cfg
{'structs': ['Parser', 'Command'], 'heap': ['InlineFile', 'Preprocessor', 'MacroTable'],
 'fields': {'Parser': ['m_preprocessor', 'm_line', 'm_rexSingleWhiteSpace', 'm_ignoreExitCodes', 'm_silentCommands'], 'Preprocessor': ['m_macroTable', 'm_bInlineFileMode'], 'MacroTable': ['m_environment']},
 'heap_ghost': ['lines: Seq<Str>'], 'exceptions': {'Exception': 'QString', 'FileException': ''}}
//@endcfg
pub type H = HeapV;
pub uninterp spec fn expanded(t: MacroTable, s: Str) -> Str;
pub open spec fn mt(h: H, p: Parser) -> MacroTable { h.MacroTable[h.Preprocessor[p.m_preprocessor].m_macroTable] }
pub open spec fn file_mode(h: H, p: Parser) -> bool { h.Preprocessor[p.m_preprocessor].m_bInlineFileMode }
pub open spec fn wf(h: H, p: Parser) -> bool { p.m_preprocessor != 0 && h.Preprocessor.dom().contains(p.m_preprocessor) && h.Preprocessor[p.m_preprocessor].m_macroTable != 0 && h.MacroTable.dom().contains(h.Preprocessor[p.m_preprocessor].m_macroTable) }
pub open spec fn closes(l: Str) -> bool { l.len() >= 2 && l[0] == 60 && l[1] == 60 }
// a line of the file: ended by CR LF
pub open spec fn crlf(s: Str) -> Str {
    if s.len() >= 2 && s[s.len() - 2] == 13 && s[s.len() - 1] == 10 { s } else if s.len() >= 1 && s[s.len() - 1] == 10 { s.subrange(0, s.len() - 1).push(13u16).push(10u16) } else { s.push(13u16).push(10u16) }
}
pub open spec fn one_line(t: MacroTable, plain: bool, s: Str) -> Str { crlf(if plain { s } else { expanded(t, s) }) }
// what the file holds, and the lines behind it
pub open spec fn content(t: MacroTable, plain: bool, ls: Seq<Str>) -> Str decreases ls.len() {
    if ls.len() == 0 || closes(ls[0]) { Seq::empty() } else { one_line(t, plain, ls[0]) + content(t, plain, ls.drop_first()) }
}
pub open spec fn behind(ls: Seq<Str>) -> Seq<Str> decreases ls.len() { if ls.len() == 0 { ls } else if closes(ls[0]) { ls.drop_first() } else { behind(ls.drop_first()) } }
pub open spec fn closing(ls: Seq<Str>) -> Str decreases ls.len() { if ls.len() == 0 { Seq::empty() } else if closes(ls[0]) { ls[0] } else { closing(ls.drop_first()) } }
pub open spec fn words(rx: Str, l: Str) -> Seq<Str> { if l.len() >= 2 { rx_split(rx, 1, l.subrange(2, l.len() as int)) } else { Seq::empty() } }
pub open spec fn kept(rx: Str, ls: Seq<Str>) -> bool { words(rx, closing(ls)).contains(@"KEEP") }
// the lines before the n-th file
pub open spec fn after_files(ls: Seq<Str>, n: int) -> Seq<Str> decreases n { if n <= 0 { ls } else { behind(after_files(ls, n - 1)) } }
pub open spec fn word_end(l: Str, i: int) -> int decreases l.len() - i { if i < 0 || i >= l.len() || uc_space(l[i]) { i } else { word_end(l, i + 1) } }
// the name behind a marker that ends at p, and the command line without it
pub open spec fn name_at(l: Str, p: int) -> Str {
    if p >= l.len() || uc_space(l[p]) { Seq::empty() }
    else if l[p] == 34 { let q = find_c(l, 34, p + 1); if q < 0 { Seq::empty() } else { l.subrange(p + 1, q) } }
    else { l.subrange(p, word_end(l, p + 1)) }
}
pub open spec fn without_name(l: Str, p: int) -> Str {
    if p >= l.len() || uc_space(l[p]) { l }
    else if l[p] == 34 { let q = find_c(l, 34, p + 1); if q < 0 { l } else { l.subrange(0, p) + l.subrange(q + 1, l.len() as int) } }
    else { l.subrange(0, p) + l.subrange(word_end(l, p + 1), l.len() as int) }
}
pub open spec fn marker(l: Str, p: int) -> int { find_s(l, @"<<", p) }
pub open spec fn names(l: Str, p: int) -> Seq<Str> decreases l.len() - p
    via names_dec
{ let m = marker(l, p); if p < 0 || m < 0 { Seq::empty() } else { seq![name_at(l, m + 2)] + names(without_name(l, m + 2), m + 2) } }
pub open spec fn shortened(l: Str, p: int) -> Str decreases l.len() - p
    via short_dec
{ let m = marker(l, p); if p < 0 || m < 0 { l } else { shortened(without_name(l, m + 2), m + 2) } }
pub proof fn find_range(s: Str, p: Str, i: int) requires p.len() > 0 ensures find_s(s, p, i) >= 0 ==> i <= find_s(s, p, i) && 0 <= i && find_s(s, p, i) + p.len() <= s.len() && s.subrange(find_s(s, p, i), find_s(s, p, i) + p.len()) =~= p decreases s.len() - i
{ if i < 0 || i + p.len() > s.len() { } else if s.subrange(i, i + p.len()) =~= p { } else { find_range(s, p, i + 1); } }
pub proof fn findc_range(s: Str, c: u16, i: int) requires i >= 0 ensures find_c(s, c, i) >= -1, find_c(s, c, i) >= 0 ==> i <= find_c(s, c, i) < s.len() decreases s.len() - i { if i < s.len() && s[i] != c { findc_range(s, c, i + 1); } }
pub proof fn word_range(l: Str, i: int) requires 0 <= i <= l.len() ensures i <= word_end(l, i) <= l.len() decreases l.len() - i { if i < l.len() && !uc_space(l[i]) { word_range(l, i + 1); } }
pub proof fn shorter(l: Str, p: int) requires 0 <= p <= l.len() ensures p <= without_name(l, p).len() <= l.len()
{ if p < l.len() { findc_range(l, 34, p + 1); word_range(l, p + 1); } }
#[verifier::decreases_by]
proof fn names_dec(l: Str, p: int) { let m = marker(l, p); if !(p < 0 || m < 0) { find_range(l, @"<<", p); shorter(l, m + 2); } }
#[verifier::decreases_by]
proof fn short_dec(l: Str, p: int) { let m = marker(l, p); if !(p < 0 || m < 0) { find_range(l, @"<<", p); shorter(l, m + 2); } }
// the lines not yet treated
pub open spec fn rest(p: Parser, h: H) -> Seq<Str> { if qs_null(p.m_line) { Seq::empty() } else { seq![p.m_line@] + h.lines } }
pub open spec fn left(p: Parser, h: H) -> nat { h.lines.len() + (if qs_null(p.m_line) { 0nat } else { 1nat }) }
pub open spec fn same_parser(a: Parser, b: Parser) -> bool { b == (Parser { m_line: b.m_line, ..a }) }
pub open spec fn same_but_files(a: H, b: H) -> bool { b == (HeapV { InlineFile: b.InlineFile, ..a }) }
pub open spec fn fresh_file(h: H, f: u64) -> bool { h.InlineFile[f].m_content@.len() == 0 && !h.InlineFile[f].m_keep }
pub open spec fn own_files(h: H, fs: Seq<u64>, nm: Seq<Str>) -> bool {
    (forall|i: int| 0 <= i < fs.len() ==> #[trigger] fs[i] != 0 && h.InlineFile.dom().contains(fs[i]) && h.InlineFile[fs[i]].m_filename@ == nm[i])
    && (forall|i: int, j: int| 0 <= i < j < fs.len() ==> #[trigger] fs[i] != #[trigger] fs[j])
}
pub open spec fn fresh_files(h: H, fs: Seq<u64>, nm: Seq<Str>) -> bool { own_files(h, fs, nm) && forall|i: int| 0 <= i < fs.len() ==> fresh_file(h, #[trigger] fs[i]) }
pub open spec fn others_kept(a: H, b: H, f: u64) -> bool { a.InlineFile.dom() =~= b.InlineFile.dom() && forall|x: u64| x != f ==> a.InlineFile[x] == #[trigger] b.InlineFile[x] }
//@extern MacroTable::expandMacros(S,b)
//@flags heap throws
    requires this != 0, old(hp)@.MacroTable.dom().contains(this)
    ensures final(hp)@ == old(hp)@, (res matches Ok(v) ==> (!inDependentsLine ==> v@ == expanded(old(hp)@.MacroTable[this], str@)))
//@endfn
//@extern Parser::readLine
//@flags heap throws
    requires wf(old(hp)@, *old(this)), file_mode(old(hp)@, *old(this))
    ensures final(hp)@ == (HeapV { lines: final(hp)@.lines, ..old(hp)@ }), *final(this) == (Parser { m_line: final(this).m_line, ..*old(this) }),
        res is Ok ==> if old(hp)@.lines.len() == 0 { final(this).m_line@.len() == 0 && qs_null(final(this).m_line) && final(hp)@.lines == old(hp)@.lines } else { !qs_null(final(this).m_line) && final(this).m_line@ == old(hp)@.lines[0] && final(hp)@.lines == old(hp)@.lines.drop_first() }
//@endfn
//@fn Parser::parseInlineFiles
//@flags heap throws
    requires wf(old(hp)@, *old(this)), old(cmd).m_inlineFiles@.len() == 0, old(this).m_rexSingleWhiteSpace@.cs == 1
    ensures res is Ok ==> final(cmd).m_commandLine@ == shortened(old(cmd).m_commandLine@, 0) && final(cmd).m_inlineFiles@.len() == names(old(cmd).m_commandLine@, 0).len() && !file_mode(final(hp)@, *final(this))
            && final(hp)@.lines == after_files(old(hp)@.lines, final(cmd).m_inlineFiles@.len() as int)
            && forall|i: int| 0 <= i < final(cmd).m_inlineFiles@.len() ==> file_ok(final(hp)@, mt(old(hp)@, *old(this)), inferenceRule, old(this).m_rexSingleWhiteSpace@.pat, #[trigger] final(cmd).m_inlineFiles@[i], names(old(cmd).m_commandLine@, 0)[i], after_files(old(hp)@.lines, i))
//@entry
    let ghost l0 = cmd.m_commandLine@; let ghost h0 = hp@; let ghost t0 = mt(hp@, *this); let ghost rx = this.m_rexSingleWhiteSpace@.pat; let ghost th0 = *this;
    let ghost mut nm: Seq<Str> = Seq::empty(); let ghost mut pp: int = 0; let ghost mut lb: Str = l0;
    let ghost mut hb = hp@; let ghost mut ls: Seq<Str> = hp@.lines; let ghost mut fs: Seq<u64> = Seq::empty(); let ghost mut cs: Seq<Str> = Seq::empty(); let ghost mut acc: Str = Seq::empty();
//@exit
    proof { assert(nm =~= names(l0, 0));
 assert(cmd.m_commandLine@ == shortened(l0, 0)); assert(cmd.m_inlineFiles@.len() == names(l0, 0).len()); assert(!file_mode(hp@, *this));
 assert(hp@.lines == after_files(h0.lines, cmd.m_inlineFiles@.len() as int));
        assert forall|i: int| 0 <= i < cmd.m_inlineFiles@.len() implies file_ok(hp@, t0, inferenceRule, rx, #[trigger] cmd.m_inlineFiles@[i], names(l0, 0)[i], after_files(h0.lines, i)) by { let f = fs[i]; } }
//@loop 1
    invariant_except_break fileNamePos == pp, 0 <= pp <= cmd.m_commandLine@.len(), names(l0, 0) =~= nm + names(cmd.m_commandLine@, pp), shortened(l0, 0) == shortened(cmd.m_commandLine@, pp)
    invariant *this == th0, wf(hp@, *this), same_but_files(h0, hp@), cmd.m_inlineFiles@.len() == nm.len(), fresh_files(hp@, cmd.m_inlineFiles@, nm)
    ensures names(l0, 0) =~= nm, cmd.m_commandLine@ == shortened(l0, 0)
    decreases cmd.m_commandLine@.len() - pp
//@body 1
    proof { lb = cmd.m_commandLine@; find_range(lb, @"<<", pp); shorter(lb, fileNamePos + 2); findc_range(lb, 34, fileNamePos + 3); if fileNamePos + 3 <= lb.len() { word_range(lb, fileNamePos + 3); } }
//@end 1
    proof {
        assert(marker(lb, pp) + 2 == fileNamePos);
        assert(cmd.m_commandLine@ =~= without_name(lb, fileNamePos as int));
        assert(hp@.InlineFile[inlineFile].m_filename@ =~= name_at(lb, fileNamePos as int));
        assert(names(lb, pp) =~= seq![name_at(lb, fileNamePos as int)] + names(cmd.m_commandLine@, fileNamePos as int));
        nm = nm.push(name_at(lb, fileNamePos as int)); pp = fileNamePos as int;
    }
//@loop 2
    invariant lb == cmd.m_commandLine@, fileNamePos >= 0, (fileNamePos + 1 <= idx && idx <= lb.len()), word_end(lb, fileNamePos + 1) == word_end(lb, idx as int)
    ensures idx == word_end(lb, fileNamePos + 1), lb == cmd.m_commandLine@, (fileNamePos + 1 <= idx && idx <= lb.len())
    decreases lb.len() - idx
//@before 3
    proof { fs = cmd.m_inlineFiles@; }
//@loop 3
    invariant fs == fe3_c@, fs == cmd.m_inlineFiles@, 0 <= fe3_i <= fs.len(), fs.len() == nm.len(), same_parser(th0, *this), wf(hp@, *this), file_mode(hp@, *this), mt(hp@, *this) == t0,
        px == this.m_preprocessor, rx == this.m_rexSingleWhiteSpace@.pat, this.m_rexSingleWhiteSpace@.cs == 1,
        hp@.lines == after_files(h0.lines, fe3_i as int), own_files(hp@, fs, nm),
        forall|i: int| 0 <= i < fe3_i ==> file_ok(hp@, t0, inferenceRule, rx, #[trigger] fs[i], nm[i], after_files(h0.lines, i)),
        forall|i: int| fe3_i <= i < fs.len() ==> fresh_file(hp@, #[trigger] fs[i])
    ensures fe3_i == fs.len()
    decreases fs.len() - fe3_i
//@body 3
    proof { ls = hp@.lines; hb = hp@; acc = Seq::empty(); }
//@before 4
    proof { cs = rest(*this, hp@); assert(cs =~= ls); assert(acc =~= Seq::<u16>::empty()); assert(Seq::<u16>::empty() + content(t0, inferenceRule, cs) =~= content(t0, inferenceRule, cs)); }
//@loop 4
    invariant_except_break content(t0, inferenceRule, ls) == acc + content(t0, inferenceRule, rest(*this, hp@)), behind(ls) == behind(rest(*this, hp@)), closing(ls) == closing(rest(*this, hp@)), hp@.InlineFile[inlineFile].m_keep == false
    invariant qs_null(this.m_line) ==> hp@.lines.len() == 0, same_parser(th0, *this), wf(hp@, *this), file_mode(hp@, *this), mt(hp@, *this) == t0, px == this.m_preprocessor,
        rx == this.m_rexSingleWhiteSpace@.pat, this.m_rexSingleWhiteSpace@.cs == 1,
        0 <= fe3_i < fs.len(), fs.len() == nm.len(), inlineFile == fs[fe3_i as int], own_files(hp@, fs, nm), acc == hp@.InlineFile[inlineFile].m_content@, others_kept(hb, hp@, inlineFile)
    ensures content(t0, inferenceRule, ls) == hp@.InlineFile[inlineFile].m_content@, hp@.lines == behind(ls), hp@.InlineFile[inlineFile].m_keep == kept(rx, ls)
    decreases left(*this, hp@)
//@body 4
    proof { cs = rest(*this, hp@); assert(cs.drop_first() =~= hp@.lines); assert(cs[0] == this.m_line@); }
//@end 4
    proof { assert(hp@.InlineFile[inlineFile].m_content@ =~= acc + one_line(t0, inferenceRule, cs[0])); assert(rest(*this, hp@) =~= cs.drop_first());
        assert(acc + (one_line(t0, inferenceRule, cs[0]) + content(t0, inferenceRule, cs.drop_first())) =~= (acc + one_line(t0, inferenceRule, cs[0])) + content(t0, inferenceRule, cs.drop_first()));
        acc = hp@.InlineFile[inlineFile].m_content@; }
//@endfn
pub open spec fn file_ok(h: H, t: MacroTable, plain: bool, rx: Str, f: u64, name: Str, ls: Seq<Str>) -> bool {
    f != 0 && h.InlineFile.dom().contains(f) && h.InlineFile[f].m_filename@ == name && h.InlineFile[f].m_content@ == content(t, plain, ls) && h.InlineFile[f].m_keep == kept(rx, ls)
}
