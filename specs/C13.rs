//@sources src/jomlib/makefile.cpp
//@cfg
{'structs': ['Command'], 'heap': []}
//@endcfg
// ---- what the modifiers of a command line mean
pub struct Mods { pub rest: Str, pub silent: bool, pub single: bool, pub maxexit: u32 }
pub open spec fn skip_minus(s: Str, i: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() && s[i] == 45 { skip_minus(s, i + 1) } else { i }
}
pub open spec fn skip_digits(s: Str, i: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() && uc_digit(s[i]) { skip_digits(s, i + 1) } else { i }
}
pub open spec fn from(s: Str, i: int) -> Str { s.subrange(i, s.len() as int) }
pub open spec fn mods(s: Str, silent: bool, single: bool, maxexit: u32) -> Mods decreases s.len() {
    if s.len() == 0 { Mods { rest: s, silent, single, maxexit } }
    else if s[0] == 64 { mods(from(s, 1), true, single, maxexit) }
    else if s[0] == 33 { mods(from(s, 1), silent, true, maxexit) }
    else if s[0] == 45 {
        let m = skip_minus(s, 1);
        if 1 <= m <= s.len() {
            let t = from(s, m);
            let d = skip_digits(t, 0);
            if 0 <= d <= t.len() {
                mods(from(t, d), silent, single, if d == 0 { u32::MAX } else { str_to_uint(t.subrange(0, d)) })
            } else { arbitrary() }
        } else { arbitrary() }
    }
    else { Mods { rest: s, silent, single, maxexit } }
}
pub open spec fn mods_of(c: Command) -> Mods { mods(c.m_commandLine@, c.m_silent, c.m_singleExecution, c.m_maxExitCode) }

//@fn Command::evaluateModifiers
    ensures
        final(this).m_commandLine@ =~= mods_of(*old(this)).rest,
        final(this).m_silent == mods_of(*old(this)).silent,
        final(this).m_singleExecution == mods_of(*old(this)).single,
        final(this).m_maxExitCode == mods_of(*old(this)).maxexit,
        final(this).m_inlineFiles == old(this).m_inlineFiles,
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost goal = mods_of(*this);
//@loop 1
    invariant
        goal == mods_of(*this),
        this.m_inlineFiles == old(this).m_inlineFiles,
    decreases this.m_commandLine@.len()
//@body 1
    let ghost c1 = this.m_commandLine@;
//@end 1
    proof {
        let m = skip_minus(c1, 1);
        let t = from(c1, m);
        let d = skip_digits(t, 0);
        if c1[0] == 45 {
            assert(this.m_commandLine@ =~= from(t, d));
            assert(d > 0 ==> qmid(t, 0, d) =~= t.subrange(0, d));
        } else {
            assert(this.m_commandLine@ =~= from(c1, 1));
        }
    }
//@loop 2
    invariant 1 <= i <= this.m_commandLine@.len(),
        skip_minus(this.m_commandLine@, 1) == skip_minus(this.m_commandLine@, i as int),
    decreases this.m_commandLine@.len() - i
//@after 2
    assert(from(c1, skip_minus(c1, 1)) =~= from(this.m_commandLine@, i as int));
//@loop 3
    invariant 0 <= i <= this.m_commandLine@.len(),
        skip_digits(this.m_commandLine@, 0) == skip_digits(this.m_commandLine@, i as int),
    decreases this.m_commandLine@.len() - i
//@after 3
    assert(this.m_commandLine@ =~= from(c1, skip_minus(c1, 1)));
//@endfn
