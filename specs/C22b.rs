//@sources src/jomlib/commandexecutor.cpp:auto,QFile,QIODevice src/jomlib/makefile.cpp:auto
//@cfg
{'structs': ['Command', 'CommandExecutor::TempFile'], 'heap_bases': ['QIODevice', 'QFileDevice'], 'heap': ['CommandExecutor', 'DescriptionBlock', 'Makefile', 'Options', 'InlineFile', 'QFile'],
 'fields': {'Command': ['m_commandLine', 'm_inlineFiles'], 'CommandExecutor': ['m_pTarget', 'm_tempFiles'], 'DescriptionBlock': ['m_commands', 'm_targetName', 'm_pMakefile'], 'Makefile': ['m_options'], 'Options': ['dumpInlineFiles'], 'QFile': []},
 'ghost_fields': {'QFile': ['name: QString']}, 'heap_new': {'QFile.new_S': 'QFile { name: $1 }'},
 'globals': {'m_tempPath': ('temp_path()', 'QString'), 'm_startUpTickCount': ('startup_tick()', 'ulong')},
 'heap_ghost': ['fs: Map<Str, Seq<i8>>'], 'exceptions': {'Exception': 'QString'}}
//@endcfg
pub type H = HeapV;
pub open spec fn ce(h: H, p: u64) -> CommandExecutor { h.CommandExecutor[p] }
pub open spec fn fname(h: H, f: u64) -> Str { h.QFile[f].name@ }
// the directory for temporary files (set once)
pub uninterp spec fn temp_dir() -> Str;
#[verifier::external_body]
pub fn temp_path() -> (r: QString) ensures r@ == temp_dir() { unimplemented!() }
#[verifier::external_body]
pub fn startup_tick() -> (r: u64) { unimplemented!() }
pub open spec fn cs(h: H, p: u64) -> Seq<Command> { h.DescriptionBlock[ce(h, p).m_pTarget].m_commands@ }
pub open spec fn temps(h: H, p: u64) -> Seq<CommandExecutor_TempFile> { ce(h, p).m_tempFiles@ }
// the inline files of the first n commands
pub open spec fn files(c: Seq<Command>, n: int) -> Seq<u64> decreases n { if n <= 0 { Seq::empty() } else { files(c, n - 1) + c[n - 1].m_inlineFiles@ } }
pub proof fn files_at(c: Seq<Command>, n: int, j: int) requires 0 <= j < n <= c.len()
    ensures files(c, j).len() + c[j].m_inlineFiles@.len() <= files(c, n).len(), forall|i: int| 0 <= i < c[j].m_inlineFiles@.len() ==> files(c, n)[files(c, j).len() + i] == #[trigger] c[j].m_inlineFiles@[i]
    decreases n - j
{
    if j < n - 1 { files_at(c, n - 1, j); }
}
pub open spec fn all_files(h: H, p: u64) -> Seq<u64> { files(cs(h, p), cs(h, p).len() as int) }
// how the name of a file is written in a command
pub open spec fn shown(n: Str) -> Str { let m = native_name(n); if find_c(m, 32, 0) >= 0 || find_c(m, 9, 0) >= 0 { seq![34u16] + m + seq![34u16] } else { m } }
// the first << is replaced by the name of the file
pub open spec fn put_name(l: Str, n: Str) -> Str { let i = find_s(l, @"<<", 0); if i >= 0 { l.subrange(0, i) + shown(n) + l.subrange(i + 2, l.len() as int) } else { l } }
pub open spec fn put_names(l: Str, ns: Seq<Str>, a: int, k: int) -> Str decreases k { if k <= 0 { l } else { put_name(put_names(l, ns, a, k - 1), ns[a + k - 1]) } }
pub proof fn put_names_push(l: Str, ns: Seq<Str>, x: Str, a: int, k: int) requires 0 <= a, k <= 0 || a + k <= ns.len() ensures put_names(l, ns.push(x), a, k) == put_names(l, ns, a, k) decreases k { if k > 0 { put_names_push(l, ns, x, a, k - 1); } }
pub proof fn find_range(s: Str, p: Str, i: int) requires p.len() > 0 ensures find_s(s, p, i) >= 0 ==> i <= find_s(s, p, i) && 0 <= i && find_s(s, p, i) + p.len() <= s.len() decreases s.len() - i
{ if i < 0 || i + p.len() > s.len() { } else if s.subrange(i, i + p.len()) =~= p { } else { find_range(s, p, i + 1); } }
// the files on disk once those named ns have been written
pub open spec fn disk(h: H, fl: Seq<u64>, ns: Seq<Str>) -> Map<Str, Seq<i8>> decreases ns.len() { if ns.len() == 0 { h.fs } else { disk(h, fl, ns.drop_last()).insert(ns.last(), local8(h.InlineFile[fl[ns.len() - 1]].m_content@)) } }
// a file has the name it was given, or a new one in the temporary directory
pub open spec fn name_ok(h: H, f: u64, n: Str, d: Map<Str, Seq<i8>>) -> bool { if h.InlineFile[f].m_filename@.len() > 0 { n == h.InlineFile[f].m_filename@ } else { qstarts(n, temp_dir()) && !d.dom().contains(n) } }
pub open spec fn named(h: H, fl: Seq<u64>, ns: Seq<Str>) -> bool decreases ns.len() { if ns.len() == 0 { true } else { named(h, fl, ns.drop_last()) && name_ok(h, fl[ns.len() - 1], ns.last(), disk(h, fl, ns.drop_last())) } }
// what is remembered for the cleanup
pub open spec fn remembered(h0: H, h: H, p: u64, fl: Seq<u64>, ns: Seq<Str>) -> bool {
    temps(h, p).len() == ns.len() && (forall|i: int| 0 <= i < ns.len() ==> okf(h, (#[trigger] temps(h, p)[i]).file) && fname(h, temps(h, p)[i].file) == ns[i] && temps(h, p)[i].keep == h0.InlineFile[fl[i]].m_keep)
}
pub open spec fn distinct(t: Seq<CommandExecutor_TempFile>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).file != (#[trigger] t[j]).file }
pub open spec fn took(c: Seq<Command>, j: int, it: int, k: int) -> int { if j < it { c[j].m_inlineFiles@.len() as int } else if j == it { k } else { 0 } }
pub open spec fn lines(c0: Seq<Command>, c: Seq<Command>, ns: Seq<Str>, it: int, k: int) -> bool {
    c.len() == c0.len() && forall|j: int| 0 <= j < c.len() ==> (#[trigger] c[j]).m_inlineFiles == c0[j].m_inlineFiles && c[j].m_commandLine@ == put_names(c0[j].m_commandLine@, ns, files(c0, j).len() as int, took(c0, j, it, k))
}
pub open spec fn wf(h: H, p: u64) -> bool {
    p != 0 && h.CommandExecutor.dom().contains(p) && ({ let t = ce(h, p).m_pTarget; t != 0 && h.DescriptionBlock.dom().contains(t) && ({ let m = h.DescriptionBlock[t].m_pMakefile; m != 0 && h.Makefile.dom().contains(m) && h.Makefile[m].m_options != 0 && h.Options.dom().contains(h.Makefile[m].m_options) })
        && cs(h, p).len() < 0x7fff_ffff && (forall|j: int| 0 <= j < cs(h, p).len() ==> (#[trigger] cs(h, p)[j]).m_inlineFiles@.len() < 0x7fff_ffff)
        && (forall|i: int| 0 <= i < all_files(h, p).len() ==> (#[trigger] all_files(h, p)[i]) != 0 && h.InlineFile.dom().contains(all_files(h, p)[i])) })
}
pub open spec fn frame(h0: H, h: H, p: u64) -> bool {
    h.InlineFile == h0.InlineFile && h.Makefile == h0.Makefile && h.Options == h0.Options && h.CommandExecutor.dom() =~= h0.CommandExecutor.dom() && h.DescriptionBlock.dom() =~= h0.DescriptionBlock.dom()
    && ce(h, p).m_pTarget == ce(h0, p).m_pTarget && h.DescriptionBlock[ce(h0, p).m_pTarget].m_pMakefile == h0.DescriptionBlock[ce(h0, p).m_pTarget].m_pMakefile
}
pub open spec fn written(h0: H, h: H, p: u64, fl: Seq<u64>, ns: Seq<Str>) -> bool { frame(h0, h, p) && h.fs == disk(h0, fl, ns) && named(h0, fl, ns) && remembered(h0, h, p, fl, ns) && distinct(temps(h, p)) }
// everything a target needs is on disk, and its commands name the files
pub open spec fn done_all(h0: H, h: H, p: u64, ns: Seq<Str>) -> bool { ns.len() == all_files(h0, p).len() && written(h0, h, p, all_files(h0, p), ns) && lines(cs(h0, p), cs(h, p), ns, cs(h0, p).len() as int, 0) }
// the files that are removed: those without KEEP
pub open spec fn removes(h: H, p: u64, from: int, n: Str) -> bool { exists|i: int| from <= i < temps(h, p).len() && !(#[trigger] temps(h, p)[i]).keep && fname(h, temps(h, p)[i].file) == n }
// file f is alive
pub open spec fn okf(h: H, f: u64) -> bool { f != 0 && h.QFile.dom().contains(f) }
//@extern QFile::open(i)
//@flags heap
    requires okf(old(hp)@, this)
    ensures final(hp)@ == (if res { HeapV { fs: old(hp)@.fs.insert(fname(old(hp)@, this), Seq::empty()), ..old(hp)@ } } else { old(hp)@ })
//@endfn
//@extern QIODevice::write(B)
//@flags heap
    requires okf(old(hp)@, this)
    ensures final(hp)@ == (HeapV { fs: old(hp)@.fs.insert(fname(old(hp)@, this), old(hp)@.fs[fname(old(hp)@, this)] + data@), ..old(hp)@ })
//@endfn
//@extern QFileDevice::close
//@flags heap
    requires okf(old(hp)@, this)
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern QFile::fileName
//@flags heap
    requires okf(old(hp)@, this)
    ensures final(hp)@ == old(hp)@, res@ == fname(old(hp)@, this)
//@endfn
//@extern QFile::exists(S)
//@flags heap
    ensures final(hp)@ == old(hp)@, res == old(hp)@.fs.dom().contains(fileName@)
//@endfn
//@extern QFile::remove()
//@flags heap
    requires okf(old(hp)@, this)
    ensures final(hp)@ == (HeapV { fs: old(hp)@.fs.remove(fname(old(hp)@, this)), ..old(hp)@ })
//@endfn
//@extern CommandExecutor::writeToStandardOutput
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern fileNameFromFilePath
    ensures true
//@endfn
//@fn CommandExecutor::cleanupTempFiles
//@flags heap
    requires this != 0, old(hp)@.CommandExecutor.dom().contains(this), distinct(temps(old(hp)@, this)), forall|i: int| 0 <= i < temps(old(hp)@, this).len() ==> okf(old(hp)@, (#[trigger] temps(old(hp)@, this)[i]).file)
    ensures temps(final(hp)@, this).len() == 0, forall|n: Str| #[trigger] final(hp)@.fs.dom().contains(n) <==> old(hp)@.fs.dom().contains(n) && !removes(old(hp)@, this, 0, n),
        forall|n: Str| final(hp)@.fs.dom().contains(n) ==> #[trigger] final(hp)@.fs[n] == old(hp)@.fs[n]
//@entry
    let ghost h0 = hp@; let ghost mut k: int = temps(h0, this).len() as int;
//@loop 1
    invariant this != 0, hp@.CommandExecutor.dom().contains(this), 0 <= k <= temps(h0, this).len(), temps(hp@, this) =~= temps(h0, this).take(k), distinct(temps(h0, this)),
        forall|i: int| 0 <= i < k ==> okf(hp@, (#[trigger] temps(h0, this)[i]).file) && fname(hp@, temps(h0, this)[i].file) == fname(h0, temps(h0, this)[i].file),
        forall|n: Str| #[trigger] hp@.fs.dom().contains(n) <==> h0.fs.dom().contains(n) && !removes(h0, this, k, n), forall|n: Str| hp@.fs.dom().contains(n) ==> #[trigger] hp@.fs[n] == h0.fs[n]
    ensures k == 0
    decreases k
//@body 1
    proof { k = k - 1; let t = temps(h0, this); assert(t.take(k + 1).last() == t[k]); assert(t.take(k + 1).drop_last() =~= t.take(k));
        assert forall|n: Str| #[trigger] removes(h0, this, k, n) <==> removes(h0, this, k + 1, n) || (!t[k].keep && fname(h0, t[k].file) == n) by {
            if removes(h0, this, k, n) { let i = choose|i: int| k <= i < t.len() && !(#[trigger] t[i]).keep && fname(h0, t[i].file) == n; if i > k { assert(k + 1 <= i < t.len() && !t[i].keep); } }
            if removes(h0, this, k + 1, n) { let i = choose|i: int| k + 1 <= i < t.len() && !(#[trigger] t[i]).keep && fname(h0, t[i].file) == n; assert(k <= i < t.len() && !t[i].keep); }
        } }
//@endfn
//@fn CommandExecutor::createTempFiles
//@flags heap throws
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires wf(old(hp)@, this), temps(old(hp)@, this).len() == 0
    ensures res is Ok ==> exists|ns: Seq<Str>| done_all(old(hp)@, final(hp)@, this, ns)
//@entry
    let ghost h0 = hp@; let ghost fl = all_files(h0, this); let ghost c0 = cs(h0, this); let ghost mut ns: Seq<Str> = Seq::empty(); let ghost mut h1: H = h0; let ghost mut base: int = 0; let ghost mut cl: Seq<u64> = Seq::empty();
//@before 1
    proof { assert(lines(c0, cs(hp@, this), ns, 0, 0)); }
//@loop 1
    invariant wf(h0, this), c0 == cs(h0, this), fl == all_files(h0, this), 0 <= it <= itEnd, itEnd == c0.len(), ns.len() == files(c0, it as int).len(), written(h0, hp@, this, fl, ns), lines(c0, cs(hp@, this), ns, it as int, 0)
    ensures it == itEnd
//@body 1
    proof { files_at(c0, c0.len() as int, it as int); base = files(c0, it as int).len() as int; cl = c0[it as int].m_inlineFiles@; assert(cs(hp@, this)[it as int].m_inlineFiles == c0[it as int].m_inlineFiles); }
//@loop 2
    invariant wf(h0, this), c0 == cs(h0, this), fl == all_files(h0, this), 0 <= it < itEnd, itEnd == c0.len(), ix == it, px == ce(h0, this).m_pTarget, base == files(c0, it as int).len(), base + cl.len() <= fl.len(), cl == c0[it as int].m_inlineFiles@, fe2_c@ == cl, 0 <= fe2_i <= cl.len(),
        forall|i: int| 0 <= i < cl.len() ==> fl[base + i] == #[trigger] cl[i],
        ns.len() == base + fe2_i, written(h0, hp@, this, fl, ns), lines(c0, cs(hp@, this), ns, it as int, fe2_i as int)
    ensures fe2_i == cl.len()
//@body 2
    proof { h1 = hp@; assert(fl[base + fe2_i] == cl[fe2_i as int]); }
//@loop 3
    invariant wf(h0, this), hp@ == h1, h0.InlineFile[inlineFile].m_filename@.len() == 0, frame(h0, h1, this), h1.fs == disk(h0, fl, ns)
    ensures hp@ == h1, name_ok(h0, inlineFile, fileName@, disk(h0, fl, ns))
//@end 3
    proof { assert(fileName@.subrange(0, temp_dir().len() as int) =~= temp_dir()); }
//@end 2
    proof {
        let x = fileName@; let n2 = ns.push(x); assert(n2.drop_last() =~= ns); assert(n2[base + fe2_i] == x);
        let l0 = cs(h1, this)[it as int].m_commandLine@; find_range(l0, @"<<", 0);
        assert(cs(hp@, this)[it as int].m_commandLine@ =~= put_name(l0, x));
        assert(put_names(c0[it as int].m_commandLine@, n2, base, fe2_i + 1) == put_name(put_names(c0[it as int].m_commandLine@, n2, base, fe2_i as int), x));
        let lc = local8(h0.InlineFile[inlineFile].m_content@); assert(Seq::<i8>::empty() + lc =~= lc);
        assert(disk(h0, fl, n2) =~= hp@.fs);
        assert(named(h0, fl, n2));
        let t1 = temps(h1, this); let t2 = temps(hp@, this); assert(t2 =~= t1.push(tempFile)); assert(t2.len() == n2.len());
        assert forall|i: int| 0 <= i < n2.len() implies okf(hp@, (#[trigger] t2[i]).file) && fname(hp@, t2[i].file) == n2[i] && t2[i].keep == h0.InlineFile[fl[i]].m_keep by { if i < ns.len() { assert(t2[i] == t1[i]); assert(n2[i] == ns[i]); } }
        assert(remembered(h0, hp@, this, fl, n2));
        assert forall|i: int, j: int| 0 <= i < j < t2.len() implies (#[trigger] t2[i]).file != (#[trigger] t2[j]).file by { assert(t2[i] == t1[i]); assert(okf(h1, t1[i].file)); if j < ns.len() { assert(t2[j] == t1[j]); } }
        assert(distinct(temps(hp@, this))); assert(frame(h0, hp@, this));
        assert forall|j: int| 0 <= j < c0.len() implies (#[trigger] cs(hp@, this)[j]).m_inlineFiles == c0[j].m_inlineFiles && cs(hp@, this)[j].m_commandLine@ == put_names(c0[j].m_commandLine@, n2, files(c0, j).len() as int, took(c0, j, it as int, fe2_i + 1)) by {
            if j < it { files_at(c0, it as int, j); }
            put_names_push(c0[j].m_commandLine@, ns, x, files(c0, j).len() as int, took(c0, j, it as int, fe2_i as int));
        }
        ns = n2;
    }
//@exit
    proof { assert(done_all(h0, hp@, this, ns)); }
//@endfn
