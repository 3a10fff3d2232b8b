//@sources src/jomlib/jobserver.cpp:QSystemSemaphore,QCoreApplication,auto src/jomlib/filetime.cpp src/jomlib/jobclient.cpp:auto,QThread,QSystemSemaphore
//@cfg
{'structs': ['JobServer', 'JobClient', 'ProcessEnvironmentKey', 'FileTime'], 'heap_new': {'QSystemSemaphore.new_S': 'QSystemSemaphore { key: $1, tokens: 0, create: false }', 'QSystemSemaphore.new_S_i_i': 'QSystemSemaphore { key: $1, tokens: $2, create: $3 == 1 }', 'JobClientAcquireHelper.new_P': 'JobClientAcquireHelper { m_semaphore: $1 }'}, 'heap': ['QSystemSemaphore', 'JobClientAcquireHelper', 'QThread'], 'fields': {'JobClient': ['m_semaphore', 'm_environment', 'm_errorString', 'm_acquireHelper', 'm_acquireThread', 'm_isAcquiring'], 'JobClientAcquireHelper': ['m_semaphore'], 'QThread': [], 'JobServer': ['m_semaphore', 'm_environment', 'm_errorString'], 'QSystemSemaphore': [], 'FileTime': ['m_fileTime']}, 'own_view': ['ProcessEnvironmentKey'],
 'ghost_fields': {'QSystemSemaphore': ['key: QString', 'tokens: i32', 'create: bool']}, 'owned': ['ProcessEnvironment', 'NMakeFile::ProcessEnvironment'],
 'types': {'ProcessEnvironment': 'QMap<NMakeFile::ProcessEnvironmentKey, QString>', 'InternalType': 'quint64', 'FileTime::InternalType': 'quint64'}}
//@endcfg
impl View for ProcessEnvironmentKey { type V = Str; open spec fn view(&self) -> Str { uc_fold(self.m_key@) } }
//@extern FileTime::currentTime
    ensures true
//@endfn
//@fn FileTime::internalRepresentation
    ensures res == this.m_fileTime
//@endfn
//@extern QThread::start
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern QSystemSemaphore::error
//@flags heap
    requires this != 0, old(hp)@.QSystemSemaphore.dom().contains(this),
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern QSystemSemaphore::errorString
//@flags heap
    requires this != 0, old(hp)@.QSystemSemaphore.dom().contains(this),
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern QCoreApplication::applicationPid
    ensures true
//@endfn
//@fn JobServer::setError
    ensures *final(this) == (JobServer { m_errorString: errorMessage, ..*old(this) })
//@endfn
pub type Env = QHash<ProcessEnvironmentKey, QString>;
pub open spec fn told(e: Map<Str, Str>, key: Str, jobs: int) -> Map<Str, Str> { e.insert(uc_fold(@"_JOMSRVKEY_"), key).insert(uc_fold(@"_JOMJOBCOUNT_"), int_to_str(jobs)) }
// one token for every job but the server's own; the jobs get to know the server
//@fn JobServer::start
//@flags heap
    requires maxNumberOfJobs >= 1
    ensures ({ let q = final(hp)@.QSystemSemaphore[final(this).m_semaphore]; final(hp)@.QSystemSemaphore.dom().contains(final(this).m_semaphore) && q.tokens == maxNumberOfJobs - 1 && q.create
        && (res ==> q.key@.len() > 0 && final(this).m_environment@ =~= told(old(this).m_environment@, q.key@, maxNumberOfJobs as int)) })
//@exit
    proof { axiom_fold_len(@"_JOMSRVKEY_"); axiom_fold_len(@"_JOMJOBCOUNT_"); }
//@endfn
// a job takes its tokens from the server it was told about
//@fn JobClient::setError
    ensures *final(this) == (JobClient { m_errorString: errorMessage, ..*old(this) })
//@endfn
//@fn JobClient::start
//@flags heap
    ensures ({ let q = final(hp)@.QSystemSemaphore[final(this).m_semaphore]; res ==> final(hp)@.QSystemSemaphore.dom().contains(final(this).m_semaphore) && final(this).m_semaphore != 0
        && old(this).m_environment@.dom().contains(uc_fold(@"_JOMSRVKEY_")) && q.key@ == old(this).m_environment@[uc_fold(@"_JOMSRVKEY_")] && !q.create && q.key@.len() > 0 }),
        res ==> final(hp)@.JobClientAcquireHelper.dom().contains(final(this).m_acquireHelper) && final(hp)@.JobClientAcquireHelper[final(this).m_acquireHelper].m_semaphore == final(this).m_semaphore,
        final(this).m_isAcquiring == old(this).m_isAcquiring, final(this).m_environment@ == old(this).m_environment@
//@entry
    proof { axiom_qdefault(); }
//@endfn
