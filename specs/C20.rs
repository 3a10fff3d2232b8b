//@sources src/jomlib/preprocessor.cpp
//@use C18
//@cfg
{'structs': ['Preprocessor'], 'heap': ['MacroTable'], 'nofields': ['MacroTable'], 'heap_ghost': ['sets: Seq<(Str, Str)>'],
 'fields': {'Preprocessor': ['m_macroTable', 'm_bInlineFileMode']}, 'exceptions': {'Exception': 'QString', 'FileException': ''}}
//@endcfg
// ---- a macro name starts with a letter, a digit, an underscore or a macro invocation
pub uninterp spec fn name_start(c: u16) -> bool;
pub axiom fn axiom_name_start(c: u16)
    ensures c < 128 ==> (name_start(c) == (c == 95 || c == 36 || 48 <= c <= 57 || 97 <= c <= 122 || 65 <= c <= 90));
// the pattern of parseMacro: ^(?:_|[a-z]|[0-9]|\$)(?:[a-z]|[0-9]|\$|=|\()?  (its second group is optional)
pub open spec fn macro_pat() -> Str { @"^(?:_|[a-z]|[0-9]|\$)(?:[a-z]|[0-9]|\$|=|\()?" }
pub axiom fn axiom_macro_pat(s: Str)
    ensures (rx_index(macro_pat(), 0, s) == 0) == (s.len() > 0 && name_start(s[0]));
// ---- position of the = of an assignment, or -1
pub open spec fn eq_pos(s: Str, i: int, depth: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { -1 }
    else if s[i] == 40 { eq_pos(s, i + 1, depth + 1) }
    else if s[i] == 41 { eq_pos(s, i + 1, depth - 1) }
    else if depth == 0 && s[i] == 61 { i }
    else if depth == 0 && s[i] == 58 { -1 }
    else { eq_pos(s, i + 1, depth) }
}
pub open spec fn is_assignment(s: Str) -> bool { s.len() > 0 && name_start(s[0]) && eq_pos(s, 1, 0) >= 0 }
pub open spec fn assigned(s: Str) -> (Str, Str) {
    let p = eq_pos(s, 1, 0);
    (qtrim(s.subrange(0, p)), uncomment(qtrim(s.subrange(p + 1, s.len() as int))))
}
pub proof fn eq_pos_range(s: Str, i: int, d: int)
    requires 0 <= i
    ensures eq_pos(s, i, d) == -1 || i <= eq_pos(s, i, d) < s.len()
    decreases s.len() - i
{
    if i < s.len() {
        if s[i] == 40 { eq_pos_range(s, i + 1, d + 1) } else if s[i] == 41 { eq_pos_range(s, i + 1, d - 1) }
        else if d == 0 && (s[i] == 61 || s[i] == 58) { } else { eq_pos_range(s, i + 1, d) }
    }
}
// the macro table notes the definitions it is asked for
//@extern MacroTable::setMacroValue(S,S)
//@flags heap throws
    requires this != 0, old(hp)@.MacroTable.dom().contains(this)
    ensures final(hp)@.sets == old(hp)@.sets.push((name@, value@)),
//@endfn
//@fn Preprocessor::parseMacro
//@flags heap throws
    requires this.m_macroTable != 0, old(hp)@.MacroTable.dom().contains(this.m_macroTable)
    ensures
        is_assignment(line@) ==> final(hp)@.sets == old(hp)@.sets.push(assigned(line@)) && (res matches Ok(b) ==> b),
        !is_assignment(line@) ==> final(hp)@.sets == old(hp)@.sets && (res matches Ok(b) && !b),
        final(this).m_bInlineFileMode == old(this).m_bInlineFileMode, final(this).m_macroTable == old(this).m_macroTable,
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@entry
    proof { axiom_macro_pat(line@); eq_pos_range(line@, 1, 0); }
//@loop 1
    invariant_except_break equalsSignPos == -1,
    invariant
        1 <= i <= line@.len() || line@.len() == 0, -i <= parenthesisDepth <= i,
        eq_pos(line@, 1, 0) == eq_pos(line@, i as int, parenthesisDepth as int),
    ensures equalsSignPos == eq_pos(line@, 1, 0),
    decreases line@.len() - i
//@endfn
