//@sources src/jomlib/options.cpp
//@sources src/jomlib/helperfunctions.cpp:auto
//@cfg
{'structs': ['Options', 'GlobalOptions', 'MacroTable'], 'nofields': ['MacroTable'],
 'ghost_fields': {'MacroTable': ['log: Ghost<Seq<Def>>']},
 'ghost_params': ['g_options: &mut GlobalOptions'], 'globals': {'g_options': ('g_options', 'globalstruct', 'GlobalOptions')},
 'smt': ['smt.case_split=1'], 'exceptions': {'Exception': 'QString', 'FileException': ''}}
//@endcfg
// what the macro table is asked to define, in order
pub struct Def { pub kind: int, pub name: Str, pub value: Str }     // 0 command line, 1 implicit upper-case, 2 plain
// ---- all settings
pub struct V {
    pub A: bool, pub B: bool, pub C: bool, pub D: bool, pub E: bool, pub G: bool, pub H: bool, pub I: bool, pub K: bool, pub N: bool, pub P: bool,
    pub Q: bool, pub R: bool, pub S: bool, pub T: bool, pub U: bool, pub W: bool, pub Y: bool, pub nologo: bool,
    pub dump: bool, pub dot: bool, pub debug: bool, pub version: bool, pub jobs: int, pub jobs_set: bool,
    pub errfile: Str, pub makefile: Str, pub flags: Str,
}
#[verifier::opaque]
pub open spec fn vof(o: Options, g: GlobalOptions, makefile: Str, flags: Str) -> V {
    V { A: o.buildAllTargets, B: o.buildIfTimeStampsAreEqual, C: o.suppressOutputMessages, D: o.displayBuildInfo, E: o.overrideEnvVarMacros,
        G: o.displayIncludeFileNames, H: o.showUsageAndExit, I: !o.stopOnErrors, K: o.buildUnrelatedTargetsOnError, N: o.dryRun, P: o.displayMakeInformation,
        Q: o.checkTimeStampsButDoNotBuild, R: o.ignorePredefinedRulesAndMacros, S: o.suppressExecutedCommandsDisplay, T: o.changeTimeStampsButDoNotBuild,
        U: o.dumpInlineFiles, W: o.printWorkingDir, Y: !o.batchModeEnabled, nologo: !o.showLogo,
        dump: o.dumpDependencyGraph, dot: o.dumpDependencyGraphDot, debug: o.debugMode, version: o.showVersionAndExit,
        jobs: g.maxNumberOfJobs as int, jobs_set: g.isMaxNumberOfJobsSet, errfile: o.stderrFile@, makefile, flags }
}
// the setting of an option letter (u: upper case), None if there is no such option or if it takes an argument
pub open spec fn setl(v: V, u: u16) -> Option<V> {
    if u == 65 { Some(V { A: true, ..v }) } else if u == 66 { Some(V { B: true, ..v }) } else if u == 67 { Some(V { C: true, ..v }) }
    else if u == 68 { Some(V { D: true, ..v }) } else if u == 69 { Some(V { E: true, ..v }) } else if u == 71 { Some(V { G: true, ..v }) }
    else if u == 72 || u == 63 { Some(V { H: true, ..v }) } else if u == 73 { Some(V { I: true, ..v }) } else if u == 75 { Some(V { K: true, ..v }) }
    else if u == 76 { Some(V { nologo: true, ..v }) } else if u == 78 { Some(V { N: true, ..v }) } else if u == 80 { Some(V { P: true, ..v }) }
    else if u == 81 { Some(V { Q: true, ..v }) } else if u == 82 { Some(V { R: true, ..v }) } else if u == 83 { Some(V { S: true, ..v }) }
    else if u == 84 { Some(V { T: true, ..v }) } else if u == 85 { Some(V { U: true, ..v }) } else if u == 87 { Some(V { W: true, ..v }) }
    else if u == 89 { Some(V { Y: true, ..v }) } else { None }
}
pub open spec fn is_letter_opt(u: u16) -> bool {
    u == 65 || u == 66 || u == 67 || u == 68 || u == 69 || u == 71 || u == 72 || u == 63 || u == 73 || u == 75 || u == 76 || u == 78 || u == 80 || u == 81
    || u == 82 || u == 83 || u == 84 || u == 85 || u == 87 || u == 89
}
pub open spec fn tail(s: Str, n: int) -> Str { if 0 <= n <= s.len() { s.subrange(n, s.len() as int) } else { seq![] } }
pub open spec fn digits(s: Str, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && uc_digit(s[i]) { digits(s, i + 1) } else { i } }
pub open spec fn has(f: Str, c: u16) -> bool { find_c(f, c, 0) >= 0 }
// an option letter is noted in the flags once; G in front of the others (so that they never read DEBUG)
#[verifier::opaque]
pub open spec fn note(f: Str, c: u16) -> Str { if has(f, c) { f } else if uc_upper_c(c) == 71 { seq![c] + f } else { f.push(c) } }
#[verifier::opaque]
pub open spec fn note_jobs(f0: Str, c: u16, n: int) -> Str {
    let f = note(f0, c);
    (if uc_upper_c(f[f.len() - 1]) != 74 { f.push(c) } else { f }) + int_to_str(n)
}
// the long options
#[verifier::opaque]
pub open spec fn long_opt(v: V, a: Str) -> (V, Str) {
    let u = uc_upper(a);
    if a.len() <= 1 { (v, a) }
    else if qstarts(u, @o"NOLOGO") { (V { nologo: true, flags: v.flags.push(76), ..v }, tail(a, 6)) }
    else if qstarts(u, @o"DUMPGRAPHDOT") { (V { dump: true, dot: true, nologo: true, ..v }, tail(a, 12)) }
    else if qstarts(u, @o"DUMPGRAPH") { (V { dump: true, nologo: true, ..v }, tail(a, 9)) }
    else if qstarts(u, @o"DEBUG") { (V { debug: true, ..v }, tail(a, 5)) }
    else if qstarts(u, @o"ERRORREPORT") { (v, tail(a, 11)) }
    else if qstarts(u, @o"VERSION") { (V { version: true, ..v }, tail(a, 7)) }
    else { (v, a) }
}
pub open spec fn long_none(a: Str) -> bool { a.len() <= 1 || ({ let u = uc_upper(a); !qstarts(u, @o"NOLOGO") && !qstarts(u, @o"DUMPGRAPHDOT") && !qstarts(u, @o"DUMPGRAPH") && !qstarts(u, @o"DEBUG") && !qstarts(u, @o"ERRORREPORT") && !qstarts(u, @o"VERSION") }) }
pub struct R { pub v: V, pub arg: Str, pub args: Seq<Str> }
// a number of jobs
pub open spec fn jobs_ok(s: Str) -> bool { str_to_uint_ok(s) && 1 <= str_to_uint(s) <= 0x7fff_ffff }
// one option letter with what belongs to it
#[verifier::opaque]
pub open spec fn letter_opt(v: V, a: Str, args: Seq<Str>) -> Option<R> {
    let c = a[0]; let u = uc_upper_c(c); let t = tail(a, 1);
    if u == 70 || u == 88 {
        if t.len() == 0 && args.len() == 0 { None }
        else {
            let name = if t.len() == 0 { args[0] } else { t };
            let rest = if t.len() == 0 { args.subrange(1, args.len() as int) } else { args };
            Some(R { v: if u == 70 { V { makefile: name, ..v } } else { V { errfile: name, ..v } }, arg: seq![], args: rest })
        }
    } else if u == 74 {
        if t.len() == 0 && args.len() == 0 { None }
        else {
            let num = if t.len() == 0 { args[0] } else { t.subrange(0, digits(t, 0)) };
            let rest = if t.len() == 0 { args.subrange(1, args.len() as int) } else { args };
            if !jobs_ok(num) { None }
            else {
                let n = str_to_uint(num) as int;
                Some(R { v: V { jobs: n, jobs_set: true, flags: note_jobs(v.flags, c, n), ..v }, arg: if t.len() == 0 { t } else { tail(t, digits(t, 0)) }, args: rest })
            }
        }
    } else {
        match setl(V { flags: note(v.flags, c), ..v }, u) { Some(w) => Some(R { v: w, arg: t, args }), None => None }
    }
}
// the options of one argument; None: refused
#[verifier::opaque]
pub open spec fn run(v: V, a: Str, args: Seq<Str>) -> Option<R> decreases a.len() via run_dec {
    if a.len() == 0 { Some(R { v, arg: a, args }) }
    else {
        let (w, b) = long_opt(v, a);
        if b.len() == 0 { Some(R { v: w, arg: b, args }) }
        else { match letter_opt(w, b, args) { None => None, Some(r) => run(r.v, r.arg, r.args) } }
    }
}
#[via_fn]
proof fn run_dec(v: V, a: Str, args: Seq<Str>) {
    if a.len() > 0 {
        reveal(long_opt); reveal(letter_opt);
        let (w, b) = long_opt(v, a);
        if b.len() > 0 { digits_range(tail(b, 1), 0); }
    }
}
pub proof fn digits_range(s: Str, i: int) requires 0 <= i <= s.len() ensures i <= digits(s, i) <= s.len() decreases s.len() - i
{ if i < s.len() && uc_digit(s[i]) { digits_range(s, i + 1); } }

pub proof fn lemma_find(s: Str, c: u16, i: int)
    requires 0 <= i
    ensures find_c(s, c, i) == -1 || i <= find_c(s, c, i) < s.len(),
        find_c(s, c, i) >= 0 ==> s[find_c(s, c, i)] == c && forall|k: int| i <= k < find_c(s, c, i) ==> s[k] != c,
        find_c(s, c, i) < 0 ==> forall|k: int| i <= k < s.len() ==> s[k] != c,
    decreases s.len() - i
{
    if i < s.len() && s[i] != c { lemma_find(s, c, i + 1); }
}
// ---- what the flags consist of
pub open spec fn okc(c: u16) -> bool { is_letter_opt(uc_upper_c(c)) || uc_upper_c(c) == 74 || 48 <= c <= 57 }
#[verifier::opaque]
pub open spec fn okflags(f: Str) -> bool { forall|i: int| 0 <= i < f.len() ==> okc(#[trigger] f[i]) }
// decimal numbers (Qt)
pub axiom fn axiom_number(n: int)
    ensures n > 0 ==> int_to_str(n).len() > 0 && (forall|i: int| 0 <= i < int_to_str(n).len() ==> 48 <= #[trigger] int_to_str(n)[i] <= 57),
        0 < n <= 0x7fff_ffff ==> str_to_uint_ok(int_to_str(n)) && str_to_uint(int_to_str(n)) == n;

pub proof fn run_step(v: V, a: Str, args: Seq<Str>)
    ensures
        a.len() == 0 ==> run(v, a, args) == Some(R { v, arg: a, args }),
        a.len() > 0 ==> ({
            let w = long_opt(v, a);
            if w.1.len() == 0 { run(v, a, args) == Some(R { v: w.0, arg: w.1, args }) }
            else { match letter_opt(w.0, w.1, args) { None => run(v, a, args) is None, Some(r) => run(v, a, args) == run(r.v, r.arg, r.args) } }
        }),
{ reveal_with_fuel(run, 2); }
pub proof fn lemma_note(f: Str, c: u16)
    requires okflags(f)
    ensures note(f, c).len() > 0, okc(c) ==> okflags(note(f, c)), !okc(c) && uc_upper_c(c) != 71 ==> note(f, c) == f.push(c),
        note(f, c) == (if has(f, c) { f } else if uc_upper_c(c) == 71 { seq![c] + f } else { f.push(c) }),
{
    reveal(note); reveal(okflags);
    lemma_find(f, c, 0);
    if has(f, c) { assert(okc(f[find_c(f, c, 0)])); }
    assert forall|i: int| okc(c) && 0 <= i < note(f, c).len() implies okc(#[trigger] note(f, c)[i]) by {
        if has(f, c) { assert(okc(f[i])); }
        else if uc_upper_c(c) == 71 { if i > 0 { assert(okc(f[i - 1])); } }
        else if i < f.len() { assert(okc(f[i])); }
    }
}
pub proof fn lemma_ok_append(f: Str, g: Str)
    requires okflags(f), okflags(g)
    ensures okflags(f + g)
{
    reveal(okflags);
    assert forall|i: int| 0 <= i < (f + g).len() implies okc(#[trigger] (f + g)[i]) by { if i < f.len() { assert(okc(f[i])); } else { assert(okc(g[i - f.len()])); } }
}
pub proof fn lemma_ok_push(f: Str, c: u16)
    requires okflags(f), okc(c)
    ensures okflags(f.push(c))
{
    reveal(okflags);
    assert forall|i: int| 0 <= i < f.push(c).len() implies okc(#[trigger] f.push(c)[i]) by { if i < f.len() { assert(okc(f[i])); } }
}
pub proof fn lemma_ok_number(n: int) requires n > 0 ensures okflags(int_to_str(n))
{ reveal(okflags); axiom_number(n); assert forall|i: int| 0 <= i < int_to_str(n).len() implies okc(#[trigger] int_to_str(n)[i]) by {} }

// ================ the flags, read back
// flags in which no long option can be read: letters and numbers of jobs only
pub open spec fn plain(v: V, f: Str) -> Option<V> decreases f.len() via plain_dec {
    if f.len() == 0 { Some(v) }
    else {
        let u = uc_upper_c(f[0]); let t = tail(f, 1);
        if u == 74 {
            let n = digits(t, 0);
            let num = if 0 <= n <= t.len() { t.subrange(0, n) } else { seq![] };
            if t.len() == 0 || !jobs_ok(num) { None } else { plain(V { jobs: str_to_uint(num) as int, jobs_set: true, ..v }, tail(t, n)) }
        } else { match setl(v, u) { Some(w) => plain(w, t), None => None } }
    }
}
#[via_fn]
proof fn plain_dec(v: V, f: Str) { if f.len() > 0 { digits_range(tail(f, 1), 0); } }
pub open spec fn gfirst(f: Str) -> bool { forall|i: int, j: int| 0 <= i < j < f.len() && uc_upper_c(#[trigger] f[j]) == 71 ==> uc_upper_c(#[trigger] f[i]) == 71 }
// upper case of texts whose characters have an ASCII upper case
pub axiom fn axiom_upper_ascii(s: Str)
    requires forall|i: int| 0 <= i < s.len() ==> uc_upper_c(#[trigger] s[i]) < 128
    ensures uc_upper(s) == s.map_values(|c: u16| uc_upper_c(c));
pub proof fn lemma_no_long(v: V, f: Str)
    requires okflags(f), gfirst(f)
    ensures long_opt(v, f) == (v, f)
{
    reveal(long_opt); reveal(okflags);
    if f.len() > 1 {
        assert forall|i: int| 0 <= i < f.len() implies uc_upper_c(#[trigger] f[i]) < 128 by { assert(okc(f[i])); }
        axiom_upper_ascii(f);
        let u = uc_upper(f);
        assert forall|i: int| 0 <= i < u.len() implies is_letter_opt(#[trigger] u[i]) || u[i] == 74 || 48 <= u[i] <= 57 by { assert(okc(f[i])); }
        if qstarts(u, @o"NOLOGO") { reveal(slit_NOLOGO_07e64c9e); let l = @o"NOLOGO"; assert(l.len() == 6); assert(l[3] == 79); assert(u.subrange(0, 6)[3] == 79); assert(u[3] == 79); }
        if qstarts(u, @o"DUMPGRAPHDOT") { reveal(slit_DUMPGRAPHDOT_3f429653); let l = @o"DUMPGRAPHDOT"; assert(l.len() == 12); assert(l[2] == 77); assert(u.subrange(0, 12)[2] == 77); assert(u[2] == 77); }
        if qstarts(u, @o"DUMPGRAPH") { reveal(slit_DUMPGRAPH_fc9687ba); let l = @o"DUMPGRAPH"; assert(l.len() == 9); assert(l[2] == 77); assert(u.subrange(0, 9)[2] == 77); assert(u[2] == 77); }
        if qstarts(u, @o"ERRORREPORT") { reveal(slit_ERRORREPORT_b5187667); let l = @o"ERRORREPORT"; assert(l.len() == 11); assert(l[3] == 79); assert(u.subrange(0, 11)[3] == 79); assert(u[3] == 79); }
        if qstarts(u, @o"VERSION") { reveal(slit_VERSION_b33892fb); let l = @o"VERSION"; assert(l.len() == 7); assert(l[0] == 86); assert(u.subrange(0, 7)[0] == 86); assert(u[0] == 86); }
        if qstarts(u, @o"DEBUG") { reveal(slit_DEBUG_3f67e8f4); let l = @o"DEBUG"; assert(l.len() == 5); assert(u.subrange(0, 5)[4] == l[4]); assert(u.subrange(0, 5)[3] == l[3]); assert(u[4] == 71 && u[3] == 85); assert(uc_upper_c(f[4]) == 71); assert(uc_upper_c(f[3]) == 71); }
    }
}
pub proof fn tail_ok(f: Str, n: int)
    requires okflags(f), gfirst(f)
    ensures okflags(tail(f, n)), gfirst(tail(f, n))
{
    reveal(okflags);
    if 0 <= n <= f.len() {
        let t = tail(f, n);
        assert forall|i: int| 0 <= i < t.len() implies okc(#[trigger] t[i]) by { assert(okc(f[i + n])); }
        assert forall|i: int, j: int| 0 <= i < j < t.len() && uc_upper_c(#[trigger] t[j]) == 71 implies uc_upper_c(#[trigger] t[i]) == 71 by { assert(uc_upper_c(f[j + n]) == 71); assert(uc_upper_c(f[i + n]) == 71); }
    }
}
pub open spec fn same(a: V, b: V) -> bool {
    a.A == b.A && a.B == b.B && a.C == b.C && a.D == b.D && a.E == b.E && a.G == b.G && a.H == b.H && a.I == b.I && a.K == b.K && a.N == b.N && a.P == b.P
    && a.Q == b.Q && a.R == b.R && a.S == b.S && a.T == b.T && a.U == b.U && a.W == b.W && a.Y == b.Y && a.nologo == b.nologo
    && a.dump == b.dump && a.dot == b.dot && a.debug == b.debug && a.version == b.version && a.jobs == b.jobs && a.jobs_set == b.jobs_set
    && a.errfile == b.errfile && a.makefile == b.makefile
}
// reading plain flags as an argument gives what plain says
pub proof fn lemma_plain(v: V, w: V, f: Str, args: Seq<Str>)
    requires okflags(f), gfirst(f), same(v, w)
    ensures match plain(v, f) { None => run(w, f, args) is None || true, Some(p) => run(w, f, args) is Some && same(p, run(w, f, args)->0.v) && run(w, f, args)->0.args == args }
    decreases f.len()
{
    run_step(w, f, args);
    if f.len() > 0 {
        lemma_no_long(w, f);
        reveal(letter_opt); reveal(okflags);
        assert(okc(f[0]));
        let t = tail(f, 1); let u = uc_upper_c(f[0]);
        digits_range(t, 0);
        tail_ok(f, 1);
        if u == 74 {
            let n = digits(t, 0);
            let num = t.subrange(0, n);
            if t.len() > 0 && jobs_ok(num) {
                tail_ok(t, n);
                let v2 = V { jobs: str_to_uint(num) as int, jobs_set: true, ..v };
                let r = letter_opt(w, f, args);
                assert(r is Some);
                lemma_plain(v2, r->0.v, tail(t, n), args);
            }
        } else {
            match setl(v, u) {
                Some(v2) => { let r = letter_opt(w, f, args); assert(r is Some); lemma_plain(v2, r->0.v, t, args); }
                None => {}
            }
        }
    }
}
pub proof fn digits_app(f: Str, g: Str, i: int)
    requires 0 <= i <= f.len(), g.len() > 0 ==> !uc_digit(g[0])
    ensures digits(f + g, i) == digits(f, i)
    decreases f.len() - i
{
    digits_range(f, i);
    if i < f.len() { assert((f + g)[i] == f[i]); if uc_digit(f[i]) { digits_app(f, g, i + 1); } }
    else if g.len() > 0 { assert((f + g)[i] == g[0]); }
}
// reading on
pub proof fn plain_app(v: V, f: Str, g: Str)
    requires g.len() > 0 ==> !uc_digit(g[0])
    ensures plain(v, f) matches Some(w) ==> plain(v, f + g) == plain(w, g)
    decreases f.len()
{
    if f.len() == 0 { assert(f + g =~= g); }
    else {
        let h = f + g;
        assert(h[0] == f[0]);
        let t = tail(f, 1);
        assert(tail(h, 1) =~= t + g);
        let u = uc_upper_c(f[0]);
        if u == 74 {
            digits_range(t, 0); digits_app(t, g, 0);
            let n = digits(t, 0);
            if t.len() > 0 && jobs_ok(t.subrange(0, n)) {
                assert((t + g).subrange(0, n) =~= t.subrange(0, n));
                assert(tail(t + g, n) =~= tail(t, n) + g);
                plain_app(V { jobs: str_to_uint(t.subrange(0, n)) as int, jobs_set: true, ..v }, tail(t, n), g);
            }
        } else { match setl(v, u) { Some(w) => { plain_app(w, t, g); } None => {} } }
    }
}
// a letter that is in the flags has been set
pub open spec fn is_set(v: V, u: u16) -> bool { setl(v, u) == Some(v) }
pub proof fn set_stays(v: V, u: u16, x: u16)
    requires is_set(v, u), setl(v, x) is Some
    ensures is_set(setl(v, x)->0, u)
{}
pub proof fn plain_keeps(v: V, f: Str, u: u16)
    requires plain(v, f) is Some, is_set(v, u)
    ensures is_set(plain(v, f)->0, u)
    decreases f.len()
{
    if f.len() > 0 {
        let x = uc_upper_c(f[0]); let t = tail(f, 1);
        digits_range(t, 0);
        if x == 74 { plain_keeps(V { jobs: str_to_uint(t.subrange(0, digits(t, 0))) as int, jobs_set: true, ..v }, tail(t, digits(t, 0)), u); }
        else { set_stays(v, u, x); plain_keeps(setl(v, x)->0, t, u); }
    }
}
pub proof fn plain_contains(v: V, f: Str, i: int)
    requires plain(v, f) is Some, 0 <= i < f.len(), is_letter_opt(uc_upper_c(f[i]))
    ensures is_set(plain(v, f)->0, uc_upper_c(f[i]))
    decreases f.len()
{
    let x = uc_upper_c(f[0]); let t = tail(f, 1); let u = uc_upper_c(f[i]);
    digits_range(t, 0);
    if x == 74 {
        let n = digits(t, 0);
        let w = V { jobs: str_to_uint(t.subrange(0, n)) as int, jobs_set: true, ..v };
        all_digits(t, 0);
        assert(i > 0); assert(t[i - 1] == f[i]);
        if i - 1 < n { assert(uc_digit(t[i - 1])); axiom_digit_upper(t[i - 1]); assert(false); }
        assert(tail(t, n)[i - 1 - n] == f[i]);
        plain_contains(w, tail(t, n), i - 1 - n);
    } else {
        let w = setl(v, x)->0;
        if i == 0 { plain_keeps(w, t, u); } else { assert(t[i - 1] == f[i]); plain_contains(w, t, i - 1); }
    }
}
pub proof fn all_digits(s: Str, i: int)
    requires 0 <= i <= s.len()
    ensures forall|k: int| i <= k < digits(s, i) ==> uc_digit(#[trigger] s[k])
    decreases s.len() - i
{ if i < s.len() && uc_digit(s[i]) { all_digits(s, i + 1); } }
// digits are no option letters
pub axiom fn axiom_digit_upper(c: u16) ensures uc_digit(c) ==> !is_letter_opt(uc_upper_c(c));
// a G in front
pub proof fn plain_g(v: V, f: Str)
    requires plain(v, f) is Some
    ensures plain(V { G: true, ..v }, f) == Some(V { G: true, ..plain(v, f)->0 })
    decreases f.len()
{
    if f.len() > 0 {
        let x = uc_upper_c(f[0]); let t = tail(f, 1);
        digits_range(t, 0);
        if x == 74 { plain_g(V { jobs: str_to_uint(t.subrange(0, digits(t, 0))) as int, jobs_set: true, ..v }, tail(t, digits(t, 0))); }
        else { plain_g(setl(v, x)->0, t); assert(setl(V { G: true, ..v }, x) == Some(V { G: true, ..setl(v, x)->0 })); }
    }
}

// what is carried: w was read from the flags that v wrote, i0: the settings without any option
pub open spec fn agree(w: V, v: V, i0: V) -> bool {
    v.A == w.A && v.B == w.B && v.C == w.C && v.D == w.D && v.E == w.E && v.G == w.G && v.H == w.H && v.I == w.I && v.K == w.K && v.N == w.N && v.P == w.P
    && v.Q == w.Q && v.R == w.R && v.S == w.S && v.T == w.T && v.U == w.U && v.W == w.W && v.Y == w.Y
    && (v.jobs_set == w.jobs_set) && (v.jobs_set ==> v.jobs == w.jobs)
    && (w.nologo ==> v.nologo) && (v.nologo ==> w.nologo || v.dump)
    && w.dump == i0.dump && w.dot == i0.dot && w.debug == i0.debug && w.version == i0.version && w.errfile == i0.errfile && w.makefile == i0.makefile
}
pub open spec fn carried(i0: V, v: V) -> bool {
    okflags(v.flags) && gfirst(v.flags) && (plain(i0, v.flags) matches Some(w) && agree(w, v, i0))
}
pub proof fn gfirst_push(f: Str, g: Str)
    requires gfirst(f), forall|i: int| 0 <= i < g.len() ==> uc_upper_c(#[trigger] g[i]) != 71
    ensures gfirst(f + g)
{
    let h = f + g;
    assert forall|i: int, j: int| 0 <= i < j < h.len() && uc_upper_c(#[trigger] h[j]) == 71 implies uc_upper_c(#[trigger] h[i]) == 71 by {
        if j >= f.len() { assert(uc_upper_c(g[j - f.len()]) == 71); } else { assert(uc_upper_c(f[j]) == 71); assert(uc_upper_c(f[i]) == 71); }
    }
}
pub proof fn carried_letter(i0: V, v: V, c: u16)
    requires carried(i0, v), is_letter_opt(uc_upper_c(c))
    ensures carried(i0, setl(V { flags: note(v.flags, c), ..v }, uc_upper_c(c))->0)
{
    let f = v.flags; let u = uc_upper_c(c);
    lemma_note(f, c); lemma_find(f, c, 0);
    let w = plain(i0, f)->0;
    if has(f, c) { plain_contains(i0, f, find_c(f, c, 0)); }
    else if u == 71 {
        let h = seq![c] + f;
        assert(tail(h, 1) =~= f);
        plain_g(i0, f);
        assert forall|i: int, j: int| 0 <= i < j < h.len() && uc_upper_c(#[trigger] h[j]) == 71 implies uc_upper_c(#[trigger] h[i]) == 71 by {
            if i > 0 { assert(uc_upper_c(f[j - 1]) == 71); assert(uc_upper_c(f[i - 1]) == 71); }
        }
    } else {
        let g = seq![c];
        assert(f.push(c) =~= f + g);
        if uc_digit(c) { axiom_digit_upper(c); }
        plain_app(i0, f, g); gfirst_push(f, g);
        assert(tail(g, 1) =~= Seq::<u16>::empty());
        assert(plain(w, g) == plain(setl(w, u)->0, tail(g, 1)));
    }
}
pub proof fn digits_all(s: Str, i: int)
    requires 0 <= i <= s.len(), forall|k: int| 0 <= k < s.len() ==> uc_digit(#[trigger] s[k])
    ensures digits(s, i) == s.len()
    decreases s.len() - i
{ if i < s.len() { digits_all(s, i + 1); } }
pub proof fn carried_jobs(i0: V, v: V, c: u16, n: int)
    requires carried(i0, v), uc_upper_c(c) == 74, 1 <= n <= 0x7fff_ffff
    ensures carried(i0, V { jobs: n, jobs_set: true, flags: note_jobs(v.flags, c, n), ..v })
{
    let f = v.flags; let d = int_to_str(n);
    reveal(note_jobs); reveal(note);
    lemma_note(f, c); lemma_find(f, c, 0); axiom_number(n); lemma_ok_number(n);
    let w = plain(i0, f)->0;
    // the last character of note(f, c) is a J only if it has just been appended: a J in f is followed by its number
    if has(f, c) { plain_last(i0, f); }
    let g = seq![c] + d;
    assert(note_jobs(f, c, n) =~= f + g);
    if uc_digit(c) { axiom_digit_upper_j(c); }
    plain_app(i0, f, g);
    assert(tail(g, 1) =~= d);
    assert forall|k: int| 0 <= k < d.len() implies uc_digit(#[trigger] d[k]) && uc_upper_c(d[k]) != 71 by { }
    digits_all(d, 0);
    assert(d.subrange(0, d.len() as int) =~= d);
    assert(tail(d, d.len() as int) =~= Seq::<u16>::empty());
    assert(plain(w, g) == plain(V { jobs: n, jobs_set: true, ..w }, Seq::<u16>::empty()));
    assert forall|k: int| 0 <= k < g.len() implies uc_upper_c(#[trigger] g[k]) != 71 by { if k > 0 { assert(g[k] == d[k - 1]); } }
    gfirst_push(f, g);
    lemma_ok_push(f, c); lemma_ok_append(f.push(c), d);
    assert(f.push(c) + d =~= f + g);
}
pub axiom fn axiom_digit_upper_j(c: u16) ensures uc_digit(c) ==> uc_upper_c(c) != 74;
pub proof fn plain_last(v: V, f: Str)
    requires plain(v, f) is Some, f.len() > 0
    ensures uc_upper_c(f[f.len() - 1]) != 74
    decreases f.len()
{
    let x = uc_upper_c(f[0]); let t = tail(f, 1);
    digits_range(t, 0); all_digits(t, 0);
    if x == 74 {
        let n = digits(t, 0);
        assert(f[f.len() - 1] == t[t.len() - 1]);
        if n == t.len() { axiom_digit_upper_j(t[n - 1]); }
        else { assert(tail(t, n)[t.len() - n - 1] == t[t.len() - 1]); plain_last(V { jobs: str_to_uint(t.subrange(0, n)) as int, jobs_set: true, ..v }, tail(t, n)); }
    } else if f.len() > 1 { assert(f[f.len() - 1] == t[t.len() - 1]); plain_last(setl(v, x)->0, t); }
}
pub proof fn carried_long(i0: V, v: V, a: Str)
    requires carried(i0, v)
    ensures carried(i0, long_opt(v, a).0)
{
    reveal(long_opt);
    let w = plain(i0, v.flags)->0; let g = seq![76u16];
    assert(v.flags.push(76) =~= v.flags + g);
    plain_app(i0, v.flags, g); gfirst_push(v.flags, g); lemma_ok_push(v.flags, 76);
    assert(tail(g, 1) =~= Seq::<u16>::empty());
    assert(plain(w, g) == plain(setl(w, 76)->0, tail(g, 1)));
}
// every accepted argument keeps the flags in step with the settings
pub proof fn carried_run(i0: V, v: V, a: Str, args: Seq<Str>)
    requires carried(i0, v)
    ensures run(v, a, args) matches Some(r) ==> carried(i0, r.v)
    decreases a.len()
{
    run_step(v, a, args);
    if a.len() > 0 {
        let (w, b) = long_opt(v, a);
        carried_long(i0, v, a);
        assert(b.len() <= a.len()) by { reveal(long_opt); }
        if b.len() > 0 {
            assert(letter_opt(w, b, args) matches Some(r) ==> carried(i0, r.v) && r.arg.len() < b.len()) by {
                reveal(letter_opt);
                let u = uc_upper_c(b[0]); let t = tail(b, 1);
                digits_range(t, 0);
                if u == 74 {
                    if t.len() > 0 || args.len() > 0 {
                        let num = if t.len() == 0 { args[0] } else { t.subrange(0, digits(t, 0)) };
                        if jobs_ok(num) { carried_jobs(i0, w, b[0], str_to_uint(num) as int); }
                    }
                }
                else if is_letter_opt(u) { carried_letter(i0, w, b[0]); }
            }
            match letter_opt(w, b, args) { Some(r) => { carried_run(i0, r.v, r.arg, r.args); } None => {} }
        }
    }
}
// ---- the round trip: an argument made of / and the flags gives the carried settings again
pub proof fn round_trip(i0: V, v: V)
    requires carried(i0, v)
    ensures run(i0, v.flags, seq![]) matches Some(r) && agree(r.v, v, i0) && r.args.len() == 0
{
    lemma_plain(i0, i0, v.flags, seq![]);
}
pub open spec fn nonempty(s: Seq<Str>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() > 0 }
//@fn Options::handleCommandLineOption
    requires okflags(old(makeflags)@), nonempty(old(arguments)@)
    ensures ({
        let r = run(vof(*old(this), *old(g_options), old(makefile)@, old(makeflags)@), arg@, old(arguments)@);
        (!res ==> r is None) &&
        (res ==> r is Some && r->0.v == vof(*final(this), *final(g_options), final(makefile)@, final(makeflags)@) && r->0.args == final(arguments)@)
    }), res ==> okflags(final(makeflags)@), final(makefile)@.len() == 0 ==> *final(makefile) == *old(makefile)
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(300)]
//@entry
    let ghost goal = run(vof(*this, *g_options, makefile@, makeflags@), arg@, arguments@);
//@loop 1
    invariant goal == run(vof(*this, *g_options, makefile@, makeflags@), arg@, arguments@), okflags(makeflags@), nonempty(arguments@),
        makefile@.len() == 0 ==> *makefile == *old(makefile),
    decreases arg@.len()
//@body 1
    let ghost v0 = vof(*this, *g_options, makefile@, makeflags@); let ghost a0 = arg@; let ghost args0 = arguments@;
    let ghost f0 = makeflags@;
    proof { lemma_ok_push(f0, 76); run_step(v0, a0, args0); }
//@call isEmpty 2
    let ghost v1 = vof(*this, *g_options, makefile@, makeflags@); let ghost a1 = arg@; let ghost f1 = makeflags@; let ghost t1 = tail(a1, 1);
    proof {
        assert(a1 =~= long_opt(v0, a0).1) by { reveal(long_opt); }
        if long_none(a0) { assert(v1 == long_opt(v0, a0).0) by { reveal(long_opt); } }
        assert(v1 == long_opt(v0, a0).0);
        assert(v1.flags == f1) by { reveal(vof); }
        digits_range(t1, 0);
    }
//@call contains 1
    proof {
        lemma_note(f1, ch);
        let u = uc_upper_c(ch);
        assert((u == 70 || u == 88 || u == 74) && t1.len() == 0 && args0.len() == 0 ==> letter_opt(v1, a1, args0) is None) by { reveal(letter_opt); }
        assert(u != 70 && u != 88 && u != 74 && !is_letter_opt(u) ==> letter_opt(v1, a1, args0) is None) by { reveal(letter_opt); }
        assert(u == 74 && !jobs_ok(if t1.len() == 0 { args0[0] } else { t1.subrange(0, digits(t1, 0)) }) ==> letter_opt(v1, a1, args0) is None) by { reveal(letter_opt); }
    }
//@call remove 7
    let ghost f2 = makeflags@;
    proof { assert(f2 =~= note(f1, ch)); }
//@call toUpper 3
    proof { assert(arg@ =~= t1); }
//@post remove 5
    proof { assert(vof(*this, *g_options, makefile@, makeflags@) == long_opt(v0, a0).0) by { reveal(long_opt); } }
//@post =showLogo 1
    proof { assert(vof(*this, *g_options, makefile@, makeflags@) == long_opt(v0, a0).0) by { reveal(long_opt); reveal(vof); } }
//@post =showLogo 2
    proof { assert(vof(*this, *g_options, makefile@, makeflags@) == long_opt(v0, a0).0) by { reveal(long_opt); reveal(vof); } }
//@post =showLogo 3
    proof { assert(vof(*this, *g_options, makefile@, makeflags@) == long_opt(v0, a0).0) by { reveal(long_opt); reveal(vof); } }
//@post =debugMode 1
    proof { assert(vof(*this, *g_options, makefile@, makeflags@) == long_opt(v0, a0).0) by { reveal(long_opt); reveal(vof); } }
//@post =showVersionAndExit 1
    proof { assert(vof(*this, *g_options, makefile@, makeflags@) == long_opt(v0, a0).0) by { reveal(long_opt); reveal(vof); } }
//@case 1
    proof {
        let r = letter_opt(v1, a1, args0);
        assert(r is Some && makeflags@ =~= r->0.v.flags && arg@ =~= r->0.arg && arguments@ =~= r->0.args) by { reveal(letter_opt); reveal(note_jobs); }
        assert(vof(*this, *g_options, makefile@, makeflags@) == r->0.v) by { reveal(letter_opt); reveal(vof); }
        if sw == 74 {
            let w = int_to_str(g_options.maxNumberOfJobs as int);
            lemma_ok_number(g_options.maxNumberOfJobs as int); lemma_ok_push(f2, ch); lemma_ok_append(f2, w); lemma_ok_append(f2.push(ch), w);
            assert(makeflags@ =~= f2 + w || makeflags@ =~= f2.push(ch) + w);
        } else if sw == 70 || sw == 88 { assert(makeflags@ =~= f1); }
        assert(okflags(makeflags@));
        assert(arg@.len() < a1.len());
    }
//@end 1
    proof {
        let r = letter_opt(v1, a1, args0);
        run_step(r->0.v, r->0.arg, r->0.args);
    }
//@after 1
    proof { run_step(vof(*this, *g_options, makefile@, makeflags@), arg@, arguments@); }
//@loop 2
    invariant 0 <= i <= arg@.len(), nJobsStr@ =~= arg@.subrange(0, i as int), digits(arg@, 0) == digits(arg@, i as int),
    decreases arg@.len() - i
//@after 2
    proof { assert(nJobsStr@ =~= arg@.subrange(0, digits(arg@, 0))); }
//@post remove 8
    proof { assert(arg@ =~= tail(t1, digits(t1, 0))); }
//@endfn

// ---- the whole command line
//@fn trimLeft
    ensures res@ == ltrim(s@), *final(g_options) == *old(g_options)
//@attr #[verifier::loop_isolation(false)]
//@loop 1
    invariant ltrim(result@) == ltrim(s@), *g_options == *old(g_options)
    decreases result@.len()
//@body 1
    let ghost r0 = result@;
//@end 1
    proof { assert(result@ =~= r0.subrange(1, r0.len() as int)); }
//@endfn
pub uninterp spec fn valid_name(n: Str) -> bool;                 // MacroTable::isMacroNameValid (C02)
pub uninterp spec fn expanded(args: Seq<Str>) -> Option<Seq<Str>>;   // command files read (C19)
pub struct L { pub v: V, pub targets: Seq<Str>, pub log: Seq<Def>, pub defd: Set<Str> }
#[verifier::opaque]
pub open spec fn define(l: L, a: Str) -> Option<L> {
    let k = find_c(a, 61, 0);
    let name = qtrim(a.subrange(0, k)); let value = ltrim(a.subrange(k + 1, a.len() as int)); let up = uc_upper(name);
    if !valid_name(name) { None }
    else {
        let l1 = if l.defd.contains(name) { l } else { L { defd: l.defd.insert(name), log: l.log.push(Def { kind: 0, name, value }), ..l } };
        Some(if up != name && !l1.defd.contains(up) { L { log: l1.log.push(Def { kind: 1, name: up, value }), ..l1 } } else { l1 })
    }
}
pub open spec fn is_opt(a: Str) -> bool { a[0] == 45 || a[0] == 47 }
pub open spec fn target(l: L, a: Str) -> L { if l.targets.contains(qtrim(a)) { l } else { L { targets: l.targets.push(qtrim(a)), ..l } } }
#[verifier::opaque]
pub open spec fn line(l: L, args: Seq<Str>) -> Option<L> decreases args.len() via line_dec {
    if args.len() == 0 { Some(l) }
    else {
        let a = args[0]; let rest = args.subrange(1, args.len() as int);
        if is_opt(a) { match run(l.v, qtrim(a.subrange(1, a.len() as int)), rest) { None => None, Some(r) => line(L { v: r.v, ..l }, r.args) } }
        else if find_c(a, 61, 0) >= 0 { match define(l, a) { None => None, Some(m) => line(m, rest) } }
        else { line(target(l, a), rest) }
    }
}
#[via_fn]
proof fn line_dec(l: L, args: Seq<Str>) {
    if args.len() > 0 { let a = args[0]; run_args(l.v, qtrim(a.subrange(1, a.len() as int)), args.subrange(1, args.len() as int)); }
}
pub open spec fn suffix(s: Seq<Str>, t: Seq<Str>) -> bool { s.len() <= t.len() && s =~= t.subrange(t.len() - s.len(), t.len() as int) }
pub proof fn run_args(v: V, a: Str, args: Seq<Str>)
    ensures run(v, a, args) matches Some(r) ==> suffix(r.args, args)
    decreases a.len()
{
    run_step(v, a, args);
    if a.len() > 0 {
        let (w, b) = long_opt(v, a);
        assert(b.len() <= a.len()) by { reveal(long_opt); }
        if b.len() > 0 {
            assert(letter_opt(w, b, args) matches Some(r) ==> suffix(r.args, args) && r.arg.len() < b.len()) by {
                reveal(letter_opt);
                digits_range(tail(b, 1), 0);
            }
            match letter_opt(w, b, args) { Some(r) => { run_args(r.v, r.arg, r.args); } None => {} }
        }
    }
}
pub proof fn line_step(l: L, args: Seq<Str>)
    ensures args.len() == 0 ==> line(l, args) == Some(l),
        args.len() > 0 ==> ({
            let a = args[0]; let rest = args.subrange(1, args.len() as int);
            line(l, args) == (if is_opt(a) { match run(l.v, qtrim(a.subrange(1, a.len() as int)), rest) { None => None, Some(r) => line(L { v: r.v, ..l }, r.args) } }
                else if find_c(a, 61, 0) >= 0 { match define(l, a) { None => None, Some(m) => line(m, rest) } }
                else { line(target(l, a), rest) })
        }),
{ reveal_with_fuel(line, 2); }
// what is carried over: whatever is on the line, the flags give the carried settings again
pub proof fn carried_line(i0: V, l: L, args: Seq<Str>)
    requires carried(i0, l.v)
    ensures line(l, args) matches Some(r) ==> carried(i0, r.v)
    decreases args.len()
{
    line_step(l, args);
    if args.len() > 0 {
        let a = args[0]; let rest = args.subrange(1, args.len() as int);
        if is_opt(a) {
            carried_run(i0, l.v, qtrim(a.subrange(1, a.len() as int)), rest);
            run_args(l.v, qtrim(a.subrange(1, a.len() as int)), rest);
            match run(l.v, qtrim(a.subrange(1, a.len() as int)), rest) { Some(r) => { carried_line(i0, L { v: r.v, ..l }, r.args); } None => {} }
        } else if find_c(a, 61, 0) >= 0 {
            assert(define(l, a) matches Some(m) ==> m.v == l.v) by { reveal(define); }
            match define(l, a) { Some(m) => { carried_line(i0, m, rest); } None => {} }
        } else { carried_line(i0, target(l, a), rest); }
    }
}
//@extern MacroTable::isMacroNameValid
    ensures res == valid_name(name@), *final(g_options) == *old(g_options)
//@endfn
//@extern MacroTable::defineCommandLineMacroValue
    ensures final(this).log@ == old(this).log@.push(Def { kind: 0, name: name@, value: value@ }), *final(g_options) == *old(g_options)
//@endfn
//@extern MacroTable::defineImplicitCommandLineMacroValue
    ensures final(this).log@ == old(this).log@.push(Def { kind: 1, name: name@, value: value@ }), *final(g_options) == *old(g_options)
//@endfn
//@extern MacroTable::setMacroValue(S,S)
    ensures final(this).log@ == old(this).log@.push(Def { kind: 2, name: name@, value: value@ }), *final(g_options) == *old(g_options)
//@endfn
//@extern Options::expandCommandFiles
    ensures *final(this) == *old(this), *final(g_options) == *old(g_options), res == (expanded(old(arguments)@) is Some), res ==> expanded(old(arguments)@)->0 == final(arguments)@,
        nonempty(final(arguments)@)
//@endfn
// nothing in front: the result of reading the line from the defaults
pub open spec fn whole(o: Options, g: GlobalOptions, makefile: Str, targets: Seq<Str>, log: Seq<Def>, args: Seq<Str>) -> Option<L> {
    match expanded(args) { None => None, Some(x) => match line(L { v: vof(o, g, makefile, seq![]), targets, log, defd: Set::empty() }, x) { None => None,
        Some(l) => Some(L {
            v: V { K: l.v.K && !l.v.I, makefile: if l.v.makefile.len() == 0 { @"Makefile" } else { l.v.makefile }, ..l.v },
            log: l.log.push(Def { kind: 2, name: @"MAKEFLAGS", value: l.v.flags }), ..l }) } }
}
//@fn Options::readCommandLineArguments
    requires qs_null(*old(makefile))
    ensures ({
        let r = whole(*old(this), *old(g_options), old(makefile)@, old(targets)@, old(macroTable).log@, arguments@);
        (!res ==> r is None) &&
        (res ==> r is Some && r->0.v == vof(*final(this), *final(g_options), final(makefile)@, r->0.v.flags)
            && r->0.targets == final(targets)@ && r->0.log == final(macroTable).log@)
    })
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(100)]
//@post expandCommandFiles 1
    let ghost x = arguments@;
    let ghost l0 = L { v: vof(*this, *g_options, makefile@, makeflags@), targets: targets@, log: macroTable.log@, defd: Set::empty() };
    let ghost goal = line(l0, x);
    proof { assert(okflags(makeflags@)) by { reveal(okflags); } }
//@loop 1
    invariant goal == line(L { v: vof(*this, *g_options, makefile@, makeflags@), targets: targets@, log: macroTable.log@, defd: explicitlyDefinedMacros@ }, arguments@),
        okflags(makeflags@), nonempty(arguments@), makefile@.len() == 0 ==> *makefile == *old(makefile),
    decreases arguments@.len()
//@body 1
    let ghost l = L { v: vof(*this, *g_options, makefile@, makeflags@), targets: targets@, log: macroTable.log@, defd: explicitlyDefinedMacros@ };
    let ghost as0 = arguments@; let ghost rest0 = as0.subrange(1, as0.len() as int);
    proof { line_step(l, as0); lemma_find(as0[0], 61, 0); run_args(l.v, qtrim(as0[0].subrange(1, as0[0].len() as int)), rest0); reveal(define);
        assert(nonempty(rest0)); assert(l.v.flags == makeflags@) by { reveal(vof); } }
//@call handleCommandLineOption 1
    let ghost opt = qtrim(as0[0].subrange(1, as0[0].len() as int));
    proof { assert(arg@ =~= opt && arguments@ =~= rest0 && is_opt(as0[0])); assert(run(l.v, opt, rest0) is None ==> goal is None); }
//@end 1
    proof { assert(explicitlyDefinedMacros@ =~= (match define(l, as0[0]) { Some(m) => m.defd, None => l.defd }) || is_opt(as0[0]) || find_c(as0[0], 61, 0) < 0); }
//@after 1
    let ghost lf = L { v: vof(*this, *g_options, makefile@, makeflags@), targets: targets@, log: macroTable.log@, defd: explicitlyDefinedMacros@ };
    proof { line_step(lf, arguments@); reveal(vof); }
//@endfn
