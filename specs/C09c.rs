//@sources src/app/main.cpp:initJobServer,auto src/jomlib/jobserver.cpp
//@cfg
{'ghost_params': ['g_options: &mut GlobalOptions'], 'globals': {'g_options': ('g_options', 'globalstruct', 'GlobalOptions')}, 'structs': ['ProcessEnvironmentKey', 'GlobalOptions', 'Application'], 'fields': {'Application': ['m_bIsSubJOM'], 'JobServer': ['m_errorString'], 'GlobalOptions': ['maxNumberOfJobs', 'isMaxNumberOfJobsSet']}, 'own_view': ['ProcessEnvironmentKey'], 'heap': ['JobServer'],
 'owned': ['ProcessEnvironment', 'JobServer *'], 'heap_new': {'JobServer.*': 'nondet_JobServer()'}, 'heap_ghost': ['started: Seq<int>'],
 'types': {'ProcessEnvironment': 'QMap<NMakeFile::ProcessEnvironmentKey, QString>'}}
//@endcfg
impl View for ProcessEnvironmentKey { type V = Str; open spec fn view(&self) -> Str { uc_fold(self.m_key@) } }
//@fn Application::isSubJOM
    ensures res == this.m_bIsSubJOM, *final(g_options) == *old(g_options)
//@endfn
//@extern JobServer::start
//@flags heap
    ensures final(hp)@ == (HeapV { started: old(hp)@.started.push(maxNumberOfJobs as int), ..old(hp)@ }), *final(g_options) == *old(g_options)
//@endfn
// a process that was started by another jom shares its tokens, unless /J asks for another number of jobs
pub axiom fn axiom_no_number() ensures !str_to_int_ok(Seq::empty());
pub open spec fn inherited(e: Map<Str, Str>, jobs: int) -> int { let k = uc_fold(@"_JOMJOBCOUNT_"); if e.dom().contains(k) && str_to_int_ok(e[k]) && str_to_int(e[k]) > 0 { str_to_int(e[k]) as int } else { jobs } }
pub open spec fn own_server(sub: bool, e: Map<Str, Str>, g: GlobalOptions) -> bool { !sub || (g.isMaxNumberOfJobsSet && g.maxNumberOfJobs != inherited(e, g.maxNumberOfJobs as int)) }
//@fn initJobServer
//@flags heap
    ensures final(hp)@.started == (if own_server(app.m_bIsSubJOM, environment@, *old(g_options)) { old(hp)@.started.push(old(g_options).maxNumberOfJobs as int) } else { old(hp)@.started }),
        *final(g_options) == *old(g_options), !own_server(app.m_bIsSubJOM, environment@, *old(g_options)) ==> res
//@entry
    proof { axiom_qdefault(); axiom_no_number(); let k = uc_fold(@"_JOMJOBCOUNT_"); if environment@.dom().contains(k) && environment@[k].len() == 0 { assert(environment@[k] =~= Seq::empty()); } }
//@endfn
