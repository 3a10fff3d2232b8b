//@sources src/jomlib/makefile.cpp src/jomlib/parser.cpp
//@cfg
{'structs': ['Parser'], 'heap': ['Makefile'],
 'fields': {'Parser': ['m_makefile', 'm_rexDotDirective', 'm_rexSingleWhiteSpace', 'm_suffixes', 'm_ignoreExitCodes', 'm_silentCommands', 'm_line'], 'Makefile': ['m_preciousTargets']}}
//@endcfg
pub open spec fn with_new(a: Seq<Str>, x: Str) -> Seq<Str> { if a.contains(x) { a } else { a.push(x) } }
pub open spec fn adding(p: Seq<Str>, v: Seq<Str>, k: int) -> Seq<Str> decreases k { if k <= 0 || k > v.len() { p } else { let a = adding(p, v, k - 1); if v[k - 1].len() > 0 { with_new(a, v[k - 1]) } else { a } } }
//@extern Parser::readLine
//@flags heap
    ensures final(hp)@ == old(hp)@, *final(this) == (Parser { m_line: final(this).m_line, ..*old(this) })
//@endfn
//@fn Makefile::addPreciousTarget
//@flags heap
    requires this != 0, old(hp)@.Makefile.dom().contains(this)
    ensures final(hp)@.Makefile.dom() == old(hp)@.Makefile.dom(), final(hp)@ == (HeapV { Makefile: old(hp)@.Makefile.insert(this, final(hp)@.Makefile[this]), ..old(hp)@ }), final(hp)@.Makefile[this].m_preciousTargets@ == with_new(old(hp)@.Makefile[this].m_preciousTargets@, targetName@)
//@exit
    proof { assert(hp@.Makefile.dom() =~= old(hp)@.Makefile.dom()); assert(hp@.Makefile =~= old(hp)@.Makefile.insert(this, hp@.Makefile[this])); }
//@endfn
pub proof fn lit_neq() ensures @"SUFFIXES" != @"IGNORE", @"SUFFIXES" != @"PRECIOUS", @"SUFFIXES" != @"SILENT", @"IGNORE" != @"PRECIOUS", @"IGNORE" != @"SILENT", @"PRECIOUS" != @"SILENT"
{ assert(@"SUFFIXES"[0] != @"IGNORE"[0]); assert(@"SUFFIXES"[0] != @"PRECIOUS"[0]); assert(@"SUFFIXES"[1] != @"SILENT"[1]); assert(@"IGNORE"[0] != @"PRECIOUS"[0]); assert(@"IGNORE"[0] != @"SILENT"[0]); assert(@"PRECIOUS"[0] != @"SILENT"[0]); }
pub open spec fn words(p: Parser) -> Seq<Str> { non_empty(rx_split(p.m_rexSingleWhiteSpace@.pat, p.m_rexSingleWhiteSpace@.cs, uc_simplified(p.m_rexDotDirective@.caps[2]))) }
pub open spec fn precious(p: Parser) -> Seq<Str> { rx_split(p.m_rexSingleWhiteSpace@.pat, p.m_rexSingleWhiteSpace@.cs, p.m_rexDotDirective@.caps[2]) }
//@fn Parser::parseDotDirective
//@flags heap
    requires old(this).m_makefile != 0, old(hp)@.Makefile.dom().contains(old(this).m_makefile)
    ensures ({ let d = old(this).m_rexDotDirective@.caps[1]; let w = words(*old(this)); let a = *old(this); let b = *final(this);
        b.m_suffixes@ == (if d != @"SUFFIXES" { a.m_suffixes@ } else if w.len() == 0 { Seq::empty() } else { a.m_suffixes@ + w })
        && b.m_ignoreExitCodes == (a.m_ignoreExitCodes || d == @"IGNORE") && b.m_silentCommands == (a.m_silentCommands || d == @"SILENT") && b.m_makefile == a.m_makefile
        && final(hp)@.Makefile[a.m_makefile].m_preciousTargets@ == (if d == @"PRECIOUS" { adding(old(hp)@.Makefile[a.m_makefile].m_preciousTargets@, precious(a), precious(a).len() as int) } else { old(hp)@.Makefile[a.m_makefile].m_preciousTargets@ }) })
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost mk = this.m_makefile; let ghost v = precious(*this); let ghost p0 = hp@.Makefile[mk].m_preciousTargets@;
    proof { lit_neq(); }
//@loop 1
    invariant 0 <= fe1_i <= v.len(), fe1_c@ == v, *this == *old(this), hp@.Makefile.dom().contains(mk), hp@.Makefile[mk].m_preciousTargets@ == adding(p0, v, fe1_i as int),
    decreases v.len() - fe1_i
//@endfn
