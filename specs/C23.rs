//@sources src/jomlib/jomprocess.cpp:auto src/jomlib/helperfunctions.cpp:auto
//@cfg
{'structs': ['ProcessEnvironmentKey', 'Process'], 'fields': {'Process': ['m_environment', 'm_envBlock']}, 'own_view': ['ProcessEnvironmentKey'], 'types': {'ProcessEnvironment': 'QMap<NMakeFile::ProcessEnvironmentKey, QString>'}}
//@endcfg
// The environment is a sorted map; the contract of operator< makes two names that differ in case the same key, so that
// the map's view is a map from case-folded names. keyobj is the name as it was written.
impl View for ProcessEnvironmentKey { type V = Str; open spec fn view(&self) -> Str { uc_fold(self.m_key@) } }
pub type Env = QHash<ProcessEnvironmentKey, QString>;
pub type EnvV = Map<Str, Str>;
pub uninterp spec fn os_env(name: Str) -> Str;
// two names are one key of the map exactly when they are equal but for case
pub proof fn one_key(a: Str, b: Str) ensures (!lex_less(a, b) && !lex_less(b, a)) <==> a == b decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] { one_key(a.drop_first(), b.drop_first()); assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub open spec fn with_var(m: EnvV, name: Str, os: Str) -> EnvV { if m.dom().contains(uc_fold(name)) || os_env(os).len() == 0 { m } else { m.insert(uc_fold(name), os_env(os)) } }
// what jom decided on: the environment, with PATH and SystemRoot when they are missing
pub open spec fn decided(m: EnvV) -> EnvV { with_var(with_var(m, @"Path", @"PATH"), @"SystemRoot", @"SystemRoot") }
pub open spec fn written(env: Env, k: Str) -> Str { if env@.dom().contains(k) { env.keyobj(k).m_key@ } else if k == uc_fold(@"Path") { @"Path" } else { @"SystemRoot" } }
// the variables of the block, each once
pub open spec fn lists(ks: Seq<Str>, env: Env) -> bool { ks.no_duplicates() && forall|k: Str| decided(env@).dom().contains(k) <==> #[trigger] ks.contains(k) }
pub open spec fn entry(k: Str, v: Str) -> Seq<i8> { if k.len() == 0 && v.len() == 0 { Seq::empty() } else { le(k) + le_c(61) + le(v) + le_c(0) } }
pub open spec fn block(env: Env, ks: Seq<Str>, n: int) -> Seq<i8> decreases n { if n <= 0 { Seq::empty() } else { block(env, ks, n - 1) + entry(written(env, ks[n - 1]), decided(env@)[ks[n - 1]]) } }
pub open spec fn zeros() -> Seq<i8> { seq![0i8, 0i8, 0i8, 0i8] }
pub proof fn le_len(s: Str) ensures le(s).len() == 2 * s.len() decreases s.len() { if s.len() > 0 { le_len(s.drop_last()); } }
pub proof fn block_grows(env: Env, ks: Seq<Str>, a: int, b: int) requires 0 <= a <= b ensures block(env, ks, a).len() <= block(env, ks, b).len() decreases b - a { if a < b { block_grows(env, ks, a, b - 1); } }
//@fn ProcessEnvironmentKey::compare
    ensures (res < 0) == lex_less(this@, other@), (res == 0) == (this@ == other@)
//@endfn
//@fn operator<(ProcessEnvironmentKey,ProcessEnvironmentKey)
    ensures res == lex_less(lhs@, rhs@)
//@endfn
//@extern qGetEnvironmentVariable
    ensures res@ == os_env(lpName@)
//@endfn
//@extern qSetEnvironmentVariable
    ensures true
//@endfn
//@fn createEnvBlock
    requires forall|ks: Seq<Str>| #[trigger] lists(ks, environment) ==> block(environment, ks, ks.len() as int).len() + 4 <= 0x7fff_ffff
    ensures environment@.dom() =~= Set::<Str>::empty() ==> res@.len() == 0,
        !(environment@.dom() =~= Set::<Str>::empty()) ==> exists|ks: Seq<Str>| #[trigger] lists(ks, environment) && res@ =~= block(environment, ks, ks.len() as int) + zeros()
//@entry
    let ghost mut ks: Seq<Str> = Seq::empty(); let ghost mut e0: Seq<i8> = Seq::empty(); let ghost mut kk: Str = Seq::empty(); let ghost mut vv: Str = Seq::empty();
//@before 1
    proof { ks = copy.order(); axiom_fold_len(@"Path"); axiom_fold_len(@"SystemRoot");
 assert(copy@ =~= decided(environment@));
 assert forall|k: Str| decided(environment@).dom().contains(k) <==> #[trigger] ks.contains(k) by { }
 assert(lists(ks, environment));
 assert forall|k: Str| copy@.dom().contains(k) implies (#[trigger] copy.keyobj(k)).m_key@ == written(environment, k) by {} }
//@loop 1
    invariant ks == copy.order(), copy@ == decided(environment@), lists(ks, environment), 0 <= it.pos@ <= ks.len(), it.nn == (it.pos@ < ks.len()), it.nn ==> it.key@ == ks[it.pos@] && it.key == copy.keyobj(it.key@),
        forall|k: Str| copy@.dom().contains(k) ==> (#[trigger] copy.keyobj(k)).m_key@ == written(environment, k),
        block(environment, ks, ks.len() as int).len() + 4 <= 0x7fff_ffff, !end.nn, equal == 61, nul == 0,
        envlist@ == block(environment, ks, it.pos@), pos == envlist@.len()
    ensures it.pos@ == ks.len()
    decreases ks.len() - it.pos@
//@body 1
    proof { e0 = envlist@; kk = it.key.m_key@; vv = copy@[it.key@]; assert(ks.contains(ks[it.pos@])); le_len(kk); le_len(vv); block_grows(environment, ks, it.pos@ + 1, ks.len() as int); assert(kk == written(environment, ks[it.pos@]));
        assert(block(environment, ks, it.pos@ + 1) == e0 + entry(kk, vv)); }
//@end 1
    proof { assert(envlist@ =~= e0 + entry(kk, vv)); }
//@exit
    proof { if !(environment@.dom() =~= Set::<Str>::empty()) { assert(envlist@ =~= block(environment, ks, ks.len() as int) + zeros()); assert(lists(ks, environment)); } }
//@endfn
//@fn Process::setEnvironment
    requires forall|ks: Seq<Str>| #[trigger] lists(ks, environment) ==> block(environment, ks, ks.len() as int).len() + 4 <= 0x7fff_ffff
    ensures final(this).m_environment == environment,
        !(environment@.dom() =~= Set::<Str>::empty()) ==> exists|ks: Seq<Str>| #[trigger] lists(ks, environment) && final(this).m_envBlock@ =~= block(environment, ks, ks.len() as int) + zeros()
//@endfn
