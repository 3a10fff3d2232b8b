//@sources src/jomlib/options.cpp:auto,QFile,QIODevice src/jomlib/helperfunctions.cpp:auto
//@cfg
{'structs': ['Options'], 'fields': {'Options': []}}
//@endcfg
// the arguments written in one line (unit C19: args)
pub uninterp spec fn args_of(s: Str) -> Seq<Str>;
//@extern splitCommandLine
    ensures res@ == args_of(commandLine@)
//@endfn
pub open spec fn is_at(a: Str) -> bool { a.len() > 0 && a[0] == 64 }
pub open spec fn no_at(s: Seq<Str>) -> Seq<Str> decreases s.len() { if s.len() == 0 { s } else { let r = no_at(s.drop_last()); if is_at(s.last()) { r } else { r.push(s.last()) } } }
// the name behind @, possibly in quotes
pub open spec fn file_name(a: Str) -> Str { if a[1] == 34 && a.last() == 34 { if a.len() < 3 { Seq::empty() } else { a.subrange(2, a.len() - 1) } } else { a.subrange(1, a.len() as int) } }
// the lines of a file, each with its line end
pub open spec fn lines_of(b: Seq<i8>) -> Seq<Str> decreases b.len() via lines_dec { if b.len() == 0 { Seq::empty() } else { let k = chunk(b, b.len() as int + 2); seq![of_local8(b.take(k))] + lines_of(b.skip(k)) } }
pub proof fn chunk_range(b: Seq<i8>) requires b.len() > 0 ensures 0 < chunk(b, b.len() as int + 2) <= b.len() { find_at_most(lat(b), 10, 0); }
pub proof fn find_at_most(s: Str, c: u16, i: int) requires 0 <= i ensures find_c(s, c, i) == -1 || i <= find_c(s, c, i) < s.len() decreases s.len() - i { if i < s.len() && s[i] != c { find_at_most(s, c, i + 1); } }
#[via_fn]
proof fn lines_dec(b: Seq<i8>) { if b.len() > 0 { chunk_range(b); } }
pub open spec fn words(l: Seq<Str>, k: int) -> Seq<Str> decreases k { if k <= 0 || k > l.len() { Seq::empty() } else { words(l, k - 1) + args_of(l[k - 1]) } }
pub open spec fn read_args(name: Str) -> Seq<Str> { let l = lines_of(qf_bytes(name)); words(l, l.len() as int) }
// what the command files among the first k arguments hold; command files named in command files are left out
pub open spec fn held(a: Seq<Str>, k: int) -> Seq<Str> decreases k { if k <= 0 || k > a.len() { Seq::empty() } else if is_at(a[k - 1]) { no_at(held(a, k - 1) + read_args(file_name(a[k - 1]))) } else { held(a, k - 1) } }
pub open spec fn readable(a: Seq<Str>, k: int) -> bool { forall|i: int| 0 <= i < k && is_at(#[trigger] a[i]) ==> qf_readable(file_name(a[i])) }
//@fn Options::expandCommandFiles
    requires forall|i: int| 0 <= i < old(arguments)@.len() && is_at(#[trigger] old(arguments)@[i]) ==> old(arguments)@[i].len() > 1
    ensures res == readable(old(arguments)@, old(arguments)@.len() as int), res ==> final(arguments)@ == no_at(old(arguments)@) + held(old(arguments)@, old(arguments)@.len() as int)
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost a = arguments@; let ghost mut k: int = 0; proof { assert(a.take(0) =~= Seq::empty()); assert(no_at(a.take(0)) + a.skip(0) =~= a); }
//@loop 1
    invariant 0 <= k <= a.len(), it as int == no_at(a.take(k)).len(), arguments@ == no_at(a.take(k)) + a.skip(k), newArguments@ == held(a, k), readable(a, k), it >= 0,
    decreases a.len() - k
//@body 1
    let ghost c = a[k]; let ghost na = newArguments@;
    proof { assert(arguments@[it as int] == c); assert(a.take(k + 1).drop_last() =~= a.take(k)); assert(a.take(k + 1).last() == c); assert(a.skip(k).skip(1) =~= a.skip(k + 1)); assert(a.skip(k)[0] == c); assert(arguments@.len() == it + a.len() - k); k = k + 1; }
//@call open 1
    proof { assert(fileName@ =~= file_name(c)); assert(is_at(a[k - 1])); }
//@before 2
    let ghost b = qf_bytes(file_name(c));
    proof { assert(fileName@ =~= file_name(c)); }
//@loop 2
    invariant rawCommandFileArgs@ + lines_of(file@.rest) == lines_of(b),
    decreases file@.rest.len()
//@body 2
    let ghost f0 = file@.rest; let ghost r0 = rawCommandFileArgs@; proof { if f0.len() > 0 { chunk_range(f0); } }
//@end 2
    proof { let q = chunk(f0, f0.len() as int + 2); assert(r0 + lines_of(f0) =~= (r0 + seq![of_local8(f0.take(q))]) + lines_of(f0.skip(q))); assert(rawCommandFileArgs@ =~= r0 + seq![of_local8(f0.take(q))]); }
//@after 2
    let ghost ls = lines_of(b);
    proof { assert(rawCommandFileArgs@ =~= ls); assert(na + words(ls, 0) =~= na); }
//@loop 3
    invariant 0 <= fe3_i <= ls.len(), fe3_c@ == ls, newArguments@ == na + words(ls, fe3_i as int),
    decreases ls.len() - fe3_i
//@end 3
    proof { let j = fe3_i as int; assert(newArguments@ =~= na + words(ls, j + 1)); }
//@before 4
    let ghost w = newArguments@; let ghost mut n: int = 0; proof { assert(w == na + read_args(file_name(c))); assert(w.take(0) =~= Seq::empty()); assert(no_at(w.take(0)) + w.skip(0) =~= w); }
//@loop 4
    invariant 0 <= n <= w.len(), it2 as int == no_at(w.take(n)).len(), newArguments@ == no_at(w.take(n)) + w.skip(n), it2 >= 0,
    decreases w.len() - n
//@body 4
    proof { assert(newArguments@[it2 as int] == w[n]); assert(w.take(n + 1).drop_last() =~= w.take(n)); assert(w.take(n + 1).last() == w[n]); assert(w.skip(n).skip(1) =~= w.skip(n + 1)); n = n + 1; }
//@end 4
    proof { assert(newArguments@ =~= no_at(w.take(n)) + w.skip(n)); }
//@after 4
    proof { assert(n == w.len()); assert(w.take(n) =~= w); assert(newArguments@ =~= no_at(w)); }
//@end 1
    proof { assert(arguments@ =~= no_at(a.take(k)) + a.skip(k)); assert(newArguments@ == held(a, k)); }
//@after 1
    proof { assert(k == a.len()); assert(a.take(k) =~= a); assert(arguments@ =~= no_at(a)); }
//@endfn
