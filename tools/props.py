HOOKS = None
NA = []
P = []
def prop(**k): P.append(k)
T = "icl_core_thread/"

prop(id="C01", title="Mutex: mutual exclusion, recursion and truthful timed locking",
 statement="""At most one thread at a time is between a successful lock, tryLock, timed lock or ScopedMutexLock on a Mutex and
 the matching last unlock (or end of scope), the owner may lock again any number of times and only its last unlock releases the mutex, and once all
 holders have released it the mutex is free and every waiter gets on.
 A lock call reports true exactly if the caller now holds the mutex: tryLock is refused only while another thread holds it, a timed lock gives up only
 once its deadline has passed (an absolute one by the wall clock, a relative one counted from the call, none for a negative span or the maximum time
 stamp) and comes back promptly then, and the unlimited lock never gives up.
 A ScopedMutexLock created with force holds the mutex for its whole life even if a lock attempt fails, an unforced one releases it only if it did get it.
 The deprecated capitalised names (Lock, TryLock, Unlock, IsLocked) do the same; so it is with the other classes of the library.""",
 over=["schedules", "histories", "fault_sequences"],
 forall="""every interleaving of any number of threads using any mix of lock, tryLock, timed and scoped locking with any timeouts, recursion depth and
 hold times, under stalls, failing lock calls and jumps of the wall clock""",
 why="The tests call each method once or twice from one or two threads on one real schedule; exclusion and truthful results are about all interleavings and all deadlines.",
 files=[T+"Mutex.h", T+"Mutex.cpp", T+"MutexImplPosix.cpp", T+"ScopedMutexLock.cpp", T+"Common.h"],
 mech=[("recursive pthread mutex", T+"MutexImplPosix.cpp"), ("absolute deadline from relative timeout", T+"Common.h"), ("scope-bound unlock", T+"ScopedMutexLock.cpp")],
 observe=["return values of lock/tryLock/unlock", "ScopedMutexLock::isLocked()"],
 tech="concurrent lockers against an ownership model, timed results against simulated clocks", note="Random plans of 2-5 threads; every result is checked against an ownership model and, afterwards, the recorded hold intervals.")

prop(id="C02", title="RWLock: writers exclude everybody, readers share, results are truthful",
 statement="""While a thread holds the write lock of an RWLock no other thread holds a read or write lock, while only readers hold it further readers are let in,
 and data written under the write lock is never seen half-written by a reader; after all releases the lock is free.
 Every lock call reports true exactly if it was granted: a try variant is refused only while a conflicting holder exists, a timed variant gives up only after its
 deadline (absolute by the wall clock, relative from the call, never for a negative span) and promptly then.
 A ScopedRWLock takes the requested kind of lock, holds it until its end of life, retries until it has it when forced, and releases it only if it got it.""",
 over=["schedules", "histories", "fault_sequences"],
 forall="every interleaving of readers and writers using blocking, try, timed and scoped variants with any timeouts and hold times, under stalls and failing lock calls",
 why="The tests use one reader and one writer on a handful of fixed real-time schedules.",
 files=[T+"RWLock.h", T+"RWLock.cpp", T+"RWLockImplPosix.cpp", T+"ScopedRWLock.cpp", T+"Common.h"],
 mech=[("pthread rwlock", T+"RWLockImplPosix.cpp"), ("scope-bound unlock", T+"ScopedRWLock.cpp")],
 observe=["return values of the lock calls", "ScopedRWLock::isLocked()"],
 tech="readers and writers against an ownership model", note="Random plans of 2-6 threads with all twelve ways to take the lock.")

prop(id="C03", title="Semaphore: units are conserved and waits report truthfully",
 statement="""The number of successful waits on a Semaphore never exceeds its initial value plus the posts begun so far, and when everything is quiet exactly
 initial value plus posts minus successful waits units can still be taken; a thread waiting without limit proceeds once a unit is there.
 A wait returns true exactly if it took one unit: tryWait is refused only if no unit was available, a timed wait gives up only after its deadline or when interrupted
 by a signal, an unlimited wait (no timeout, or a negative span) only when interrupted, and a refused wait takes nothing.
 The Semaphore of the logging library conserves its units in the same way, its wait() always comes back with a unit, signals or not, and a ScopedSemaphore holds one unit for as long as it lives
 and gives it back at its end.""",
 over=["schedules", "histories", "fault_sequences"],
 forall="every interleaving of posts and waits of any kind by any number of threads, any initial value and timeouts, with signals interrupting waits, stalls and clock jumps",
 why="The tests post and wait a few times in one real schedule, without signals or contention.",
 files=[T+"Sem.h", T+"Sem.cpp", T+"SemaphoreImplPosix.cpp", T+"Common.h", "icl_core_logging/Semaphore.cpp", "icl_core_logging/SemaphoreImplPosix.cpp", "icl_core_logging/ScopedSemaphore.cpp"],
 mech=[("POSIX semaphore", T+"SemaphoreImplPosix.cpp"), ("deadline computation", T+"Common.h")],
 observe=["return values of post/wait/tryWait"],
 tech="conservation and refusal checks over the recorded history", note="Random plans of 2-5 threads with EINTR, stalls and clock jumps.")

prop(id="C04", title="SpinLock: mutual exclusion and a truthful tryLock",
 statement="""At most one thread at a time holds a SpinLock or a ScopedSpinLock on it, lock returns only when the caller holds it and always reports true, and unlock
 or the end of the scope frees it so that a spinning thread gets on.
 tryLock returns true exactly if it took the lock, false only while another thread holds it, and a refused tryLock changes nothing.""",
 over=["schedules", "histories"],
 forall="every interleaving, at single memory accesses, of any number of threads locking, try-locking and unlocking",
 why="There is no test of tryLock or of contention; exclusion is about interleavings of single memory accesses that a test run does not choose.",
 files=[T+"SpinLock.h", T+"ScopedSpinLock.h"],
 mech=[("atomic exchange", T+"SpinLock.h")], observe=["return values of lock/tryLock"],
 tech="scheduler interleaves single atomic operations", note="2-4 threads, preemption at every memory access.")

prop(id="C05", title="Thread lifecycle: every start runs once, join, stop, cancel and restart work",
 statement="""Each successful start of a Thread that is not running executes run() exactly once, in a thread of its own (threadSelf() is true there and only there, selfId() equals
 threadId()), starting a running thread changes nothing and reports true, and a start that cannot create a thread reports false and runs nothing; activations of one Thread never overlap.
 running() is true from the return of a successful start() until run() ends and false before the first start, after the end and after a failed start; execute() is true until stop() is called.
 join() and the destructor return only when run() has ended, also after cancel() at whatever point of the run it arrives; an ended, joined or cancelled thread can be started again.
 Every thread that was created is joined: when the Thread objects are gone no system thread or resource of one is left.""",
 over=["schedules", "histories", "fault_sequences"],
 forall="""every sequence of start, stop, cancel, join, query, destroy and restart at any moment of the life of threads that return at once, sleep, loop or spin, with failing thread creation and stalls""",
 why="The tests start one thread and join it; the windows between start, the first step of the thread, its last step and join are never hit on purpose.",
 files=[T+"Thread.h", T+"Thread.cpp", T+"ThreadImplPosix.cpp", T+"ThreadImpl.h"],
 mech=[("start and end handshake over m_mutex, m_starting, m_joining, m_finished", T+"Thread.cpp"), ("pthread_create, pthread_join and pthread_cancel", T+"ThreadImplPosix.cpp")],
 observe=["running(), execute(), threadSelf()", "activations of run()", "created and joined system threads"],
 tech="controllers drive threads through random lifecycles against a state model", note="1-3 controllers, 2-14 operations each.")

prop(id="C06", title="Thread::wait returns true only when run() has ended, false only at its deadline",
 statement="""wait() without a limit returns true, and only when run() has ended; a timed wait (by absolute wall-clock time or by a span) returns true only when run() has ended,
 false only if the thread had not finished before the call and the deadline has passed, comes back promptly after the end of run() or the deadline, and never gives up for a negative span.
 Waiting for a thread that was never started or was joined already succeeds at once, and a thread that was waited for successfully has been joined.""",
 over=["schedules", "histories", "fault_sequences"],
 forall="every interleaving of waits with any deadline (past, exactly at, just before or after the end of the thread) with the end of the thread, a stop by a third thread and wall-clock jumps",
 why="The tests wait once for a thread that takes a fixed time; the results near the deadline and near the end of the thread depend on the interleaving.",
 files=[T+"Thread.h", T+"Thread.cpp", T+"Common.h", T+"MutexImplPosix.cpp"],
 mech=[("timed lock of the mutex held by the running thread, then join", T+"Thread.cpp"), ("deadlines", T+"Common.h")],
 observe=["results of wait()", "simulated clocks"],
 tech="timed waits against the recorded end of the thread", note="Deadlines are biased to the neighbourhood of the end of the thread.")

prop(id="C07", title="Periodic threads keep their period",
 statement="""waitPeriod() of a PeriodicThread returns once per period: never more often than whole periods have passed since the start or the last change of the period, at the latest one period after the call
 plus scheduling latency, without accumulating drift as long as the work fits into the period, also when signals interrupt the wait and when the wall clock is set during the run.
 A period that ended during the work is not waited for again. period() reports the period in force and setPeriod() changes it also for a running thread.
 Restarting works; no timer descriptor is left open when the thread object is gone, and none is closed that is not its own. If the system has no timer to give, setPeriod() of the running thread returns false.
 The emulation for systems without periodic timers keeps at least one period between two returns and catches up at once after an overload.""",
 over=["schedules", "histories", "fault_sequences"],
 forall="any period from microseconds to minutes, any work time per period including overload, EINTR, late timers, period changes at any moment, clock jumps and restarts",
 why="The test runs one period length for a second of real time and checks it loosely; overload, signals, clock jumps and long periods are not reachable in real time.",
 files=[T+"PeriodicThread.h", T+"PeriodicThread.cpp", T+"PeriodicThreadImplTimerfd.cpp", T+"PeriodicThreadImplEmulate.cpp"],
 mech=[("timerfd", T+"PeriodicThreadImplTimerfd.cpp"), ("sleep until the next boundary", T+"PeriodicThreadImplEmulate.cpp")],
 observe=["times at which waitPeriod() is called and returns", "open descriptors"],
 tech="beats against the simulated clock", note="timerfd thread and emulation; simulated minutes per run.")

prop(id="C08", title="ActiveObject executes queued operations exactly once and in order",
 statement="""Every operation queued on a running ActiveObject is invoked exactly once, by the thread of the object, never two at a time, and is then deleted exactly once; if one operation was queued
 completely before another one, it is invoked first. While the object keeps running every operation is executed within bounded time.
 When the object is stopped, each operation is either executed or deleted unexecuted, none before it is dropped in favour of a later one, and none leaks or is left for the next activation;
 an operation queued on an object that is not running is deleted at once without being executed.
 onThreadStart() and onThreadStop() run once per activation in the thread of the object, before the first and after the last operation.""",
 over=["schedules", "histories", "fault_sequences"],
 forall="every interleaving of any number of producers with the object's thread, with stop() at any moment, restarts, interrupted semaphore waits and stalls",
 why="The test queues a few operations from one thread; losing, duplicating or reordering needs a particular interleaving of producers, consumer and stop.",
 files=[T+"ActiveObject.h", T+"ActiveObject.cpp", T+"ActiveOperation.h"],
 mech=[("queue under a mutex, counted by a semaphore", T+"ActiveObject.cpp")],
 observe=["invocations and destructions of operations"],
 tech="exactly-once and order checks over the recorded history", note="1-4 producers, up to 16 operations, stop in between, restart.")

prop(id="C09", title="Singleton with a locking threading model is created once and seen complete",
 statement="""However many threads call instance() of a Singleton for the first time at once, exactly one object is constructed and every caller gets a reference to that same, completely constructed
 object, also when constructors of earlier attempts threw (each exception reaches exactly the caller it was thrown for, and a later call creates the object).
 Its destruction is scheduled once per creation; after the destruction the lifetime policy decides: the default policy refuses every further access with an exception and creates nothing, a policy that
 permits it leads to exactly one new object; with the no-destroy policy and with static creation the object stays.""",
 over=["schedules", "histories", "fault_sequences"],
 forall="every interleaving, at single memory accesses, of any number of first callers, for all creation and lifetime policies, with throwing constructors",
 why="The test has one thread; double-checked locking is about interleavings of single memory accesses.",
 files=["icl_core/Singleton.h", "icl_core/Singleton.hpp", "icl_core/SingletonCreationPolicies.h", "icl_core/SingletonLifetimePolicies.h", T+"SingletonThreadingModels.h"],
 mech=[("double-checked locking", "icl_core/Singleton.hpp"), ("policies", "icl_core/SingletonLifetimePolicies.h")],
 observe=["constructions, destructions and references handed out"],
 tech="concurrent first calls, preempted at every memory access", note="2-5 threads; four policy combinations.")

L = "icl_core_logging/"
prop(id="C10", title="Logging delivers every enabled message exactly once to every subscribed output",
 statement="""Every message that was flushed on a log stream before shutdown begins is output exactly once by each log output that is subscribed to the stream (by name, or to all streams), provided the stream is active
 and the level of the message is at least that of the stream and of the output, and it is output by no other log output; while the program runs it comes out within bounded time, and whatever has not come out then comes out before
 shutdown() returns. An output is never called by two threads at once; a worker output is called only by its own worker thread between one onStart() and one onShutdown(), and when shutdown() returns
 all outputs are destroyed and all worker threads have been joined.""",
 over=["schedules", "histories", "fault_sequences"],
 forall="""every interleaving of any number of logging threads with any number of outputs with and without worker, fast or slow, every level and subscription, with messages written by <<, by format or in pieces,
 with signals interrupting the waits of the framework and with shutdown at once or later""",
 why="The tests log a few lines from one thread and do not look at what comes out; a lost or doubled message needs a particular interleaving of loggers, worker and shutdown.",
 files=[L+"LoggingManager.cpp", L+"LogStream.cpp", L+"LogOutputStream.cpp", L+"ThreadStream.cpp", L+"Semaphore.cpp"],
 mech=[("list of outputs and pool of thread streams", L+"LogStream.cpp"), ("worker thread with a queue", L+"LogOutputStream.cpp"), ("shutdown order", L+"LoggingManager.cpp")],
 observe=["calls of pushImpl(), onStart(), onShutdown() of a log output", "threads"],
 tech="exactly-once delivery over the recorded history", note="1-4 loggers, 1-3 outputs, up to 20 messages per run.")

prop(id="C11", title="Log messages come out whole, with their own fields, and in order",
 statement="""Each message comes out as exactly the text that one thread wrote to the stream at that level between two flushes, never mixed with pieces of other threads, streams or levels and carrying over nothing from an earlier user of
 the thread stream, with the level, stream, file, line, class, object, function and a time stamp of the message itself (over-long texts and identifiers cut at their documented buffer size, never read beyond it).
 If one message was flushed completely before the flush of another one began, every output outputs it first.""",
 over=["schedules", "histories", "inputs"],
 forall="every interleaving of any number of threads composing messages piece by piece on several streams and levels, every kind of value written, texts and identifiers of any length including the buffer sizes, and signals",
 why="The tests do not look at the content of the output, and mixing needs several threads inside the same stream at once.",
 files=[L+"ThreadStream.cpp", L+"ThreadStream.h", L+"LogStream.cpp", L+"LogOutputStream.cpp", L+"LogOutputStream.h"],
 mech=[("thread stream leased to one thread and level", L+"LogStream.cpp"), ("fixed-size buffers", L+"ThreadStream.cpp"), ("message copied into the queue of each output", L+"LogOutputStream.cpp")],
 observe=["the LogMessage handed to pushImpl()"],
 tech="each output message against what one thread wrote", note="1-8 threads; lengths around the buffer sizes.")

prop(id="C12", title="Each log line is one message rendered in exactly one format in force",
 statement="""An output of formatted lines emits for each message one line that is the message rendered in exactly one log format and one time format that were in force between the log call and the output: fixed texts of any length, the documented
 fields for class, object, function, message, file, line, level, stream, local time and milliseconds, C and D with their prefix and O with its brackets left out entirely when the name is empty, M padded with zeros to its width,
 an incomplete field at the end printing nothing. Concurrent changes of the format (setLogFormat, setTimeFormat) and concurrent outputs never mix or corrupt a line.""",
 over=["schedules", "inputs", "histories"],
 forall="every format string and time format, every message content, time zone and time of the message, while other threads log and change formats concurrently and the wall clock jumps",
 why="The format tests, where there are any, render one message in one format in one thread.",
 files=[L+"LogOutputStream.cpp", L+"LogOutputStream.h", "icl_core/TimeStamp.cpp"],
 mech=[("format parser and renderer", L+"LogOutputStream.cpp"), ("strfLocaltime", "icl_core/TimeStamp.cpp")],
 observe=["the line handed to pushImpl()"],
 tech="every line against an independent renderer", note="Formats are generated; the renderer follows the documentation.")

prop(id="C13", title="Changing outputs, levels and activity while logging takes effect cleanly",
 statement="""Adding or removing an output to or from a stream, changing the level of a stream, an output or of the whole framework, and switching a stream on or off may be done at any time while other threads log: a message flushed completely after a change
 has returned follows the new setting, one flushed before the change began follows the old one, one concurrent with it either; no message comes out twice. The getters report the setting in force.
 An output removed from all streams and shut down has output everything it was given and can be deleted, and receives nothing afterwards.""",
 over=["schedules", "histories"],
 forall="every interleaving of logging threads with threads that reconfigure streams and outputs, with slow outputs, signals and stalls",
 why="No test changes the configuration while anything is logged.",
 files=[L+"LogStream.cpp", L+"LogOutputStream.cpp", L+"LoggingManager.cpp"],
 mech=[("m_outputs and level of the stream", L+"LogStream.cpp"), ("shutdown of an output", L+"LogOutputStream.cpp")],
 observe=["messages per output", "getters"],
 tech="settings as intervals against the messages that came out", note="Every change is an interval in the history; each message must fit the settings possible at its time.")

prop(id="C14", title="Logging can be initialised, shut down and initialised again at any time",
 statement="""After every initialisation (initialize() with or without command line, LifeCycle, automatic start by the first log statement, initialising twice, which reads the configuration once) exactly the outputs, streams, subscriptions and levels configured at that time are in force, -l or --log-level
 on the first command line overriding the configured levels; an entry without a legal level has the default level; outputs of type Stdout and Stderr write to standard output and standard error, and if no output is configured a default output writes to standard output.
 -qd or --quick-debug adds exactly one output, besides those configured under whatever name: the given file, to which the stream QuickDebug writes from level Trace on. Streams registered dynamically and configured again work like the others.
 Every message logged while initialised is out when shutdown() returns, then all outputs are destroyed, all threads joined, and a later initialisation starts afresh with the configuration of its time.""",
 over=["histories", "schedules"],
 forall="every sequence of initialisations of every kind, shutdowns, registrations, configuration changes and log statements, with signals and stalls",
 why="The tests initialise once per process.",
 files=[L+"LoggingManager.cpp", L+"Logging.cpp", L+"Logging.h", L+"LogStream.cpp", L+"StdLogOutput.cpp", L+"StdErrorLogOutput.cpp"],
 mech=[("configure(), initialize(), shutdown()", L+"LoggingManager.cpp"), ("singleton streams", L+"LoggingMacros_SLOGGING.h")],
 observe=["outputs, levels and messages per cycle", "standard output", "threads"],
 tech="random lifecycles against a model of the configuration", note="1-4 cycles per run.")

prop(id="C16", title="A file log output keeps every line it was given",
 statement="""A file log output (also the quick-debug file and an online-zipped file) writes each line it outputs exactly once and whole to the end of its file, in the order of the output, and never changes what the file held before.
 With Flush (the default) a line is in the file within bounded time, so that a later crash of the process does not lose it and at most cuts the last line; without Flush every line is in the file when shutdown() returns.
 If opening or writing an uncompressed file fails (error, full disk), at most the lines whose own file operations failed are lost, and as soon as the operations succeed again later lines are written again.
 A zipped log file decompresses to exactly these lines. No file is left open after shutdown.""",
 over=["schedules", "fault_sequences", "crash_points", "histories"],
 forall="every interleaving of logging threads, any line lengths, existing content, failing, partial or interrupted writes, failing opens, full disk, and a crash at any system call",
 why="The tests write a few lines to a file and never read it back; none injects a failing write or a crash.",
 files=[L+"FileLogOutput.cpp", L+"FileLogOutput.h", L+"LoggingManager.cpp"],
 mech=[("append, flush, reopen after an error", L+"FileLogOutput.cpp")],
 observe=["content of the log file", "failed file operations", "open descriptors"],
 tech="simulated file system with faults and crashes against the lines logged", note="The file system keeps written data across a process crash (not a power failure, against which the code promises nothing).")

prop(id="C17", title="Log rotation and retention lose no log line and touch no other file",
 statement="""With Rotate, the log file is archived at the first line, or at the start, on another day than the one its lines are of (in UTC, also when the clock was set back): every archive <file>.<date> holds the lines of that date, the log file those of the current day, and each line is in exactly one of them.
 An archive is never overwritten. If renaming, compressing, opening, deleting or examining a file fails, or the process crashes at any point of a rotation, no line that was in the log file disappears from the log file and its archives.
 DeleteOlderThan deletes at each rotation exactly the archives of this log file last written before midnight that many days before the current day, and never any other file, whatever its name.""",
 over=["schedules", "fault_sequences", "crash_points", "histories"],
 forall="every sequence of log lines, day changes, clock jumps in both directions, restarts, earlier files and archives of any age, failing file operations and crashes, plain or zipped, with a relative or absolute file name",
 why="A test cannot wait for midnight or fail a rename.",
 files=[L+"FileLogOutput.cpp", "icl_core/os_fs.cpp", "icl_core/os_posix_fs.cpp", "icl_core/TimeStamp.cpp"],
 mech=[("rotateLogFile(), unusedExtension(), isArchive()", L+"FileLogOutput.cpp"), ("zipFile()", "icl_core/os_fs.cpp")],
 observe=["all files of the log directory"],
 tech="simulated days, file faults and crashes against the set of lines", note="Write errors are not injected for online-zipped files (a torn gzip member makes the rest unreadable; nothing is promised there).")

prop(id="C18", title="zipFile() succeeds only with a complete archive and leaves no other trace",
 statement="""os::zipFile() returns true exactly if the archive <file><extension>.gz exists and decompresses to exactly the content of the file (whatever its size, also empty); it succeeds whenever no operation fails, and replaces an earlier archive then.
 If anything fails (missing or unreadable file, failing read, write or close, full disk) it returns false and leaves no incomplete archive.
 The file itself is never changed, no other file is created and no descriptor is left open.""",
 over=["inputs", "fault_sequences", "crash_points"],
 forall="every content and size around the buffer size, every extension, short and interrupted reads and writes, every failing operation, a full disk, and a crash at any system call, two threads at once",
 why="There is no test of zipFile().",
 files=["icl_core/os_fs.cpp", "icl_core/os_fs.h"],
 mech=[("copy loop between two gzip files", "icl_core/os_fs.cpp")],
 observe=["result", "files afterwards"],
 tech="simulated file system with faults, archive inflated independently", note="Files that are themselves gzip files are excluded (zlib reads through them).")

prop(id="C19", title="The SQLite log output stores every message as one complete row",
 statement="""Each message handed to a SQLite log output becomes exactly one row with its own stream, level, file, line, class, object, function, local time and text (quotes and all), in the order of the output, and the databases stay
 intact also across a process crash at any point, which loses nothing that was flushed 15 seconds before. With Rotate the first message of another day (UTC) starts a new database, without it there is only one; rows and databases
 that existed before are never overwritten. If file operations fail, at most as many messages are lost as operations failed; after the faults have stopped messages are stored again (but for one), and no file is left open after shutdown.""",
 over=["schedules", "fault_sequences", "crash_points", "histories"],
 forall="every interleaving of logging threads, any texts and names, existing databases, day changes and clock jumps, failing, short and interrupted file operations, a locked database, a full disk, and a crash at any system call",
 why="The test writes a few rows into a fresh database and does not read them back.",
 files=[L+"SQLiteLogDb.cpp", L+"SQLiteLogOutput.cpp", L+"SQLiteLogDb.h"],
 mech=[("insert statement with bound values, reopening", L+"SQLiteLogDb.cpp"), ("rotation by renaming", L+"SQLiteLogDb.cpp")],
 observe=["rows of the databases, read back independently", "integrity check", "open descriptors"],
 tech="simulated file system under the real SQLite library, databases read back", note="The SQLite library runs as shipped on the simulated file system; a process crash, not a power failure, is injected.")

prop(id="C20", title="The UDP log output sends each message once as a list of SQL values",
 statement="""Each message handed to a UDP log output is sent exactly once, in the order of the output, as one datagram to the first address of the configured host that a socket can be connected to, at the configured port (60000 by default).
 The datagram is a list of eleven SQL values (system name, local time, nanoseconds, level, stream, file, line, class, object, function, text) which are exactly those of the message, quotes doubled.
 A failed send loses only that message; if no address can be reached nothing is sent and logging goes on; no socket is left open.""",
 over=["schedules", "fault_sequences", "inputs"],
 forall="every interleaving of logging threads, any texts and names, hosts with several addresses, failing name resolution, socket, connect and send",
 why="No test looks at a datagram or lets the network fail.",
 files=[L+"UdpLogOutput.cpp"],
 mech=[("getaddrinfo, connect, write", L+"UdpLogOutput.cpp"), ("escape()", L+"UdpLogOutput.cpp")],
 observe=["datagrams and their destination", "open sockets"],
 tech="simulated network, every datagram parsed as SQL and compared", note="The network only receives; drops and failures are injected.")

G = "icl_core_config/"
prop(id="C21", title="Configuration comes out of files, command line and defaults as documented",
 statement="""After a configuration file was loaded (initialize() with the file on the command line, or setting /configfile) every value in it and in the files it includes by relative path (with . and .. in it; from attribute trees also by absolute path, with ${variables} of the environment and with backslashes), directly or indirectly, can be read under its key, the last one winning;
 options, positional parameters and -o of the command line override the files and defaults only fill keys that are not set; --dump-config prints all entries. initialize() fails exactly if the file itself is missing, unreadable or malformed, and can be called again then; an included file that is missing,
 unreadable, malformed or includes itself keeps nothing else from being read, and loading always ends and leaves no file open. Each registration of an observer (for one key, or for all keys) is told exactly once of each change of its key and of each value that is already there at the registration,
 when the value can be read; an observer that is told may set values and register, unregister or delete itself and others, and is not called any more once it is unregistered or deleted.""",
 over=["inputs", "fault_sequences", "histories", "configurations"],
 forall="every set of XML and attribute tree files including each other in any way (also in cycles), files that are missing, not accessible, cut off or unreadable from some point on, short reads, any command line, and any sequence of changes and of reactions of observers",
 why="The tests load three fixed good files; none has a failing or cyclic include, a read error, or an observer that reacts.",
 files=[G+"ConfigManager.cpp", G+"ConfigManager.h", G+"AttributeTree.cpp", G+"ConfigObserver.h", G+"Config.cpp", "icl_core_config/GetoptParser.cpp"],
 mech=[("loading XML and attribute trees, includes", G+"ConfigManager.cpp"), ("parser of attribute trees", G+"AttributeTree.cpp"), ("observers per key", G+"ConfigManager.h")],
 observe=["values by key", "result of initialize()", "calls of valueChanged()", "open descriptors"],
 tech="simulated file system with faults; values and notifications against an independent reader", note="1-5 files, up to 12 entries; each run changes, includes and observes at random.")

prop(id="C22", title="An attribute tree keeps its entries in memory and when saved and loaded",
 statement="""save() of an attribute tree succeeds exactly if the file holds the whole tree, and loading it gives a tree with the same attributes at the same places (in the same order if that is asked for, with the comments, also multi-line ones, if they are loaded), whatever the depth from which braces are used
 and the length of names and texts; a file written by hand gives exactly the entries it names (with those of an include as an entry if includes are not processed), and its tree can be saved and loaded again in the same way. load() succeeds only if the whole file was read; it reports any read error, an unterminated comment or an unintelligible line, and always ends.
 A failed save() leaves the tree marked as changed, a successful save() or load() unmarks it if asked to; trees of different threads do not influence each other, and no file is left open.
 In memory as well nothing is lost: setAttribute(), getAttribute() with and without default, getOrSetDefault(), search(), isAttribute() and contains() agree about the entries; a copy holds what the original holds and is independent of it; a subtree that is unlinked, added elsewhere
 (addSubTree(), addNextTree()), renamed, removed or put in reverse order keeps its entries and leaves all others as they were, it gets a new, unused description only if its own is taken, and addNewSubTree() makes a node with an unused one; changed() notices each such change until the changes are unmarked, and unlinking a subtree does not alter what changed() says of any other.""",
 over=["inputs", "fault_sequences", "schedules", "histories"],
 forall="""every tree whose names hold none of . : { } # and no outer blanks and whose attributes are one line (comments any lines), every depth, failing, short and interrupted reads and writes, full disk, files unreadable from some point on, and threads saving and loading at once""",
 why="The test of attribute trees, where there is one, works on a fixed tree in memory.",
 files=[G+"AttributeTree.cpp", G+"AttributeTree.h"],
 mech=[("printSubTree()", G+"AttributeTree.cpp"), ("get()", G+"AttributeTree.cpp")],
 observe=["results of save() and load()", "contents of the trees", "changed()", "open descriptors"],
 tech="simulated file system with faults; round trips of random trees", note="1-3 threads with trees of their own, up to 40 operations.")

PL = "icl_core_plugin/"
prop(id="C23", title="The plugin manager offers the loadable plugins and owns their instances",
 statement="""An initialised plugin manager offers exactly the plugins whose library lies in a search directory (also below it if asked to), can be opened, and has an identifier, the base type of the manager and a load function, besides the static plugins that were added; any other library is skipped and closed again,
 and neither it nor an unreadable directory keeps the others from being offered; of libraries with the same identifier one stays open; errorMessages() names what failed. plugin() gives the same instance of the manager every time, a static plugin before a loaded one, made at the initialisation or with lazy loading at the first use, and
 createPluginInstance() gives a new one that belongs to the caller; for an unknown identifier, or a plugin that makes no instance, both return nothing and change nothing. Deleting the manager deletes each instance it owns once and then closes each library it opened once, and a new manager starts afresh.""",
 over=["inputs", "fault_sequences", "histories", "configurations"],
 forall="every set of libraries in nested directories with any identifiers, also duplicate or empty ones, missing functions, foreign types, failing dlopen() and directory reads, functions of the same names in the program, and every sequence of the calls of the manager",
 why="There is no test of the plugin manager.",
 files=[PL+"PluginManager.h", PL+"Plugin.h"],
 mech=[("search for libraries, checks, handles", PL+"PluginManager.h"), ("instances and static plugins", PL+"PluginManager.h")],
 observe=["availablePlugins(), plugin(), createPluginInstance()", "instances alive per library", "libraries opened and closed"],
 tech="simulated dynamic loader and directories with faults, against a reference model", note="The loader is a model: a library is a table of functions and a reference count; up to 8 libraries per run.")

DI = "icl_core_dispatch/"
prop(id="C24", title="A periodic dispatch thread executes all its operations in every period",
 statement="""While a PeriodicDispatchThread runs, it executes in each cycle every operation that was added before the cycle began exactly as often as it was added, in the order of the additions (which is the same in all cycles), one after another and only in its own thread; operations can be added at any time, from any thread and from an operation, and none is lost.
 The first cycle begins at the start, and the following ones with the periods, no more of them than periods have passed and none later than one period after the end of the one before (plus scheduling latency), also when signals interrupt the wait or the wall clock is set.
 stop(), also called by an operation, lets a cycle that has begun finish all its operations and ends the thread then; after join() or the destructor, which stops the thread, no operation is executed any more, the operations are not deleted, and a restarted thread executes all of them again.""",
 over=["schedules", "fault_sequences", "histories"],
 forall="every interleaving of adding, executing, stopping and destroying, any durations of the operations relative to the period, interrupted waits, clock jumps, failing thread creation, stalled threads",
 why="There is no test of the dispatch thread.",
 files=[DI+"PeriodicDispatchThread.cpp", DI+"PeriodicDispatchThread.h", DI+"CallbackOperation.cpp", DI+"Operation.h"],
 mech=[("dispatch loop", DI+"PeriodicDispatchThread.cpp"), ("addOperation()", DI+"PeriodicDispatchThread.cpp")],
 observe=["executions of each operation with time, thread and order", "join(), destructor"],
 tech="recorded executions and additions checked against a sequential queue", note="Up to 3 adding threads, 11 operations, 3 activations.")

PM = "icl_core_performance_monitor/"
prop(id="C25", title="The performance monitor measures and summarises exactly what happened",
 statement="""While the monitor is enabled (m_enabled) and a prefix is enabled (by enablePrefix(), or all of them by enableAll(true), which overrides single ones until enableAll(false)), measurement() returns the milliseconds by the system clock since the start of its running timer and lets it run, startStop()
 returns them since the last start and restarts the timer, or starts one that was not started and returns 0; each such value and each added (non-time, static) value is recorded under its prefix and description, and with m_print_stop each measured value is printed to the stream Performance, otherwise these calls return 0 and change nothing.
 A summary, of one description, one prefix or everything (each enabled prefix that has data, in sorted order), gives for exactly the events since the last initialize() their number, average, median, minimum and maximum, and the last value of each static datum, with 0 entries for a description without events, as far as one log message has room for it.
 Each PERF_MON_ macro is the call its name says, with the prefix "" if it takes none and at the level in its name (DEBUG and TRACE are printed by a debug build of the library only); without IC_PERFORMANCE_MONITOR all of them, without _IC_DEBUG_ those for DEBUG and TRACE, do nothing.""",
 over=["histories", "inputs", "fault_sequences"],
 forall="every sequence of calls, made one at a time by any threads, with any names without ::, any values, times between the calls and jumps of the system clock",
 why="There is no test of the performance monitor.",
 files=[PM+"PerformanceMonitor.cpp", PM+"PerformanceMonitor.h", PM+"PerformanceMonitorMacros.h"],
 mech=[("timers and events", PM+"PerformanceMonitor.cpp"), ("summaries", PM+"PerformanceMonitor.cpp")],
 observe=["results of measurement() and startStop()", "messages in the log stream Performance"],
 tech="simulated clock; results and printed summaries parsed and compared with a model", note="1-3 threads that take turns, up to 60 calls, made directly or by the macros in one of three builds, simulated times from nothing to hours.")

CO = "icl_core/"
prop(id="C26", title="Time stamps follow the clock, are shown right, and sleeps last",
 statement="""now() and fromNow() give the time (in us) which the system clock had at some moment of the call, futureMSec() that plus the given time, in every thread and also while the clock is set; nanosleep(), usleep() and sleep() of icl_core::os report success only once the whole time has passed, and if a signal interrupts them they report it, with the time left.
 Every time stamp of the years 1970 to 9999 is shown as its own date, time and nanoseconds, in UTC or in the local zone with its summer time, whatever other threads show at the same moment, and fromIso8601BasicUTC() reads the UTC form back as the same time stamp (a shortened one as its beginning); what does not fit or has no date gives an empty text.
 Time stamps and spans add, subtract, compare and convert exactly (also from boost times), scale up to rounding, and a span written to a stream or a log says its value.""",
 over=["inputs", "schedules", "fault_sequences"],
 forall="every time stamp and span, several threads formatting at once, clock jumps at any point, time zones with and without summer time, interrupted sleeps",
 why="The tests convert a handful of time stamps in one thread and one zone.",
 files=[CO+"TimeStamp.cpp", CO+"TimeStamp.h", CO+"TimeSpan.cpp", CO+"TimeSpan.h", CO+"TimeBase.cpp", CO+"os_posix_time.cpp", "icl_core_logging/Logging.cpp"],
 mech=[("reading the clock", CO+"os_posix_time.cpp"), ("gmtime_r(), localtime_r(), strftime()", CO+"TimeStamp.cpp"), ("normalizeTime()", CO+"TimeBase.cpp")],
 observe=["time stamps, texts, time spans", "simulated time a sleep took"],
 tech="simulated clock and signals, concurrent formatting, against an independent calendar", note="1-4 threads, up to 30 calls, four time zones.")

prop(id="C32", title="A scoped timer logs the time of its scope exactly once",
 statement="""A ScopedTimer (made directly or by the LOGGING_SCOPED_TIMER macros) writes the line "<description>: <n> ns" to its log stream exactly once when its scope is left, however it is left (at its end, by break or by an exception), unless stop() has already written it, and stop() writes it only once.
 print() writes the line at any time, also after stop(), and print(text) writes "<description> (<text>): <n> ns".
 n is the time by the system clock in nanoseconds (to a microsecond, negative if the clock was set back) from the making of the timer to that moment, in every thread and for nested timers, and the line has the level, file, line, class and object of the timer (and is subject to the levels of its stream like any message).""",
 over=["histories", "schedules", "fault_sequences"],
 forall="every nesting of timers in any threads, ended in any way after any time, with the clock set at any moment and stalls between the reading of the clock and the output",
 why="There is no test of the scoped timer.",
 files=["icl_core_logging/ScopedTimer.h", "icl_core/TimeStamp.cpp", "icl_core/TimeSpan.h"],
 mech=[("constructor, print(), stop() and destructor", "icl_core_logging/ScopedTimer.h")],
 observe=["lines in the log stream"],
 tech="simulated clock; the logged lines against the recorded scopes", note="1-3 threads, up to 20 operations, times from nothing to 40 days.")

prop(id="C33", title="A program reads its settings with their types, or is told that it cannot",
 statement="""Whatever file, command line, default value or setValue() a setting came from, it reads as the value its text means: config::get(), getDefault() and the entries of a batch (ConfigValue, ConfigEnum, their Default variants and ConfigList) give a decimal, hexadecimal (0x) or octal (0) integer that fits the type, a floating point number of its range, a bool for 1, yes, true, 0, no or false in any case, an enum for exactly one of its descriptions, and for a string the whole text, spaces included.
 Where the setting is missing or is not a value of the type, get() returns false and leaves the variable as it was, and a default is given exactly then.
 A batch reads all its entries in spite of failed ones, returns true exactly if there is one and none of them failed (an entry with a default never fails), logs one error per failed entry if asked to, and deletes its entries if asked to (and only then).
 A ConfigList has one element per name below its prefix (and no other prefix, even a similar one), in the order of the names, every member read from its own path below the element; it fails, and gives no element, if a member that is set cannot be read or there is no element at all.
 A value written by setValue() with any type reads back the same; find() gives exactly the matching keys in order, with their values and groups, and again after reset(). All this holds from several threads which read at once.""",
 over=["inputs", "histories", "schedules", "fault_sequences"],
 forall="every text, of any origin, read as any type by any number of threads, with short reads of the file",
 why="The tests read a few well-formed values in one thread; range limits, malformed texts, failing batches, similar list prefixes and concurrent reading are not tested.",
 files=["icl_core_config/Util.h", "icl_core_config/Config.h", "icl_core_config/ConfigHelper.h", "icl_core_config/ConfigManager.cpp", "icl_core_config/ConfigManager.h", "icl_core_config/ConfigValue.h", "icl_core_config/ConfigValueDefault.h", "icl_core_config/ConfigEnum.h", "icl_core_config/ConfigEnumDefault.h", "icl_core_config/ConfigList.h", "icl_core_config/MemberValue.h", "icl_core_config/MemberEnum.h", "icl_core/StringHelper.h", "icl_core/EnumHelper.cpp"],
 mech=[("hexical_cast and its specialisations", "icl_core_config/Util.h"), ("ConfigValue<T>::get()", "icl_core_config/ConfigValue.h"), ("ConfigList::get()", "icl_core_config/ConfigList.h"), ("batch get()", "icl_core_config/ConfigHelper.h")],
 observe=["values", "results", "logged errors", "deleted entries"],
 tech="the whole program start in the simulated world, then readers in several threads, against an independent reading of the texts", note="1-3 threads, 8 keys, three lists of up to 6 elements, batches of up to 5; char types, text behind a number and a minus before an unsigned number are not claimed.")

prop(id="C34", title="The command line is taken apart exactly as it was registered",
 statement="""After config::initialize() or logging::initialize() every argument has been given to exactly one of: a registered option (long "--name=value" or "--name", short "-n value" or "-n"; the last one counts), a registered prefix option (with its suffix and value, in order), the positional parameters in order (required before optional), the other parameters in order (with relaxed checking the unknown options too) and, after the delimiter, the extra parameters in order.
 initialize() fails exactly if an option that needs a value has none (nothing after "-n", no "=" after "--name"; an empty value is a value) or, with strict checking, an option is unknown; nothing starting with "-" and registered is ever taken for a parameter, nor the value of a short option for anything else, whatever it looks like.
 With cleanup, argc and argv keep exactly the program name and the other parameters, in order, even if their texts equal those of used arguments; without it they are untouched. A second initialisation, by any of the two functions and with any arguments, changes nothing.
 paramOpt(), paramOptDefault() and paramNonOpt() give the values with their types like config::get() does, and the options, their defaults and "-o<key> value" set their configuration keys, the command line before the file and the file before the defaults.""",
 over=["inputs", "histories", "fault_sequences"],
 forall="every registration of options and every sequence of arguments, with or without a configuration file (read in any pieces), cleanup, strict checking and extra parameters",
 why="The tests start with one fixed command line; the process-wide parser can be used only once per process, so a unit test cannot try many.",
 files=["icl_core_config/GetoptParser.cpp", "icl_core_config/GetoptParser.h", "icl_core_config/GetoptParameter.cpp", "icl_core_config/GetoptPositionalParameter.cpp", "icl_core_config/ConfigManager.cpp", "icl_core_config/ConfigParameter.cpp", "icl_core_config/ConfigPositionalParameter.cpp", "icl_core_config/Config.h"],
 mech=[("Getopt::initialize()", "icl_core_config/GetoptParser.cpp"), ("removal of used arguments", "icl_core_config/GetoptParser.cpp"), ("ConfigManager::initialize()", "icl_core_config/ConfigManager.cpp")],
 observe=["options, parameters, argc and argv", "configuration keys", "result of the initialisation"],
 tech="the whole program start in the simulated world, repeated and with failing starts, against an independent reader of command lines", note="Up to 12 arguments, 0-3 positional parameters; overlapping prefix options, --help and a missing required parameter (which end the program) are not claimed.")

LM = "icl_core_logging/"
prop(id="C35", title="Every logging macro logs exactly the message it names, or nothing",
 statement="""LOGGING, SLOGGING, MLOGGING and LLOGGING, each also with _FMT, for every level ERROR to TRACE, plain, with a class (_C) or with a class and an object (_CO), and the general forms _LOG, _LOG_C, _LOG_CO (MLOGGING: _LOG_COF) and _LOG_FLCO, give a message to the stream they name, at the level they name,
 with the text of their arguments, the file, line and function of the call (FLCO: the given file and line) and exactly the class and object given, or none. They do so if and only if the stream is active and its level permits it, and besides that for MLOGGING if Debug() is true, and for LLOGGING if ICL_CORE_LOCAL_LOGGING is defined; without _IC_DEBUG_ the macros named DEBUG and TRACE do nothing.
 The arguments are evaluated exactly once if the message is logged and not at all otherwise, and may log themselves to another stream.""",
 over=["inputs", "schedules", "histories"],
 forall="every macro, stream, level, sequence of level and activity changes, and every interleaving of threads that log to the same streams, in builds with and without _IC_DEBUG_ and ICL_CORE_LOCAL_LOGGING",
 why="The tests use a few of the macros in one build and look at no field of the message.",
 files=[LM+"LoggingMacros_LOGGING.h", LM+"LoggingMacros_LOGGING_FMT.h", LM+"LoggingMacros_SLOGGING.h", LM+"LoggingMacros_SLOGGING_FMT.h", LM+"LoggingMacros_MLOGGING.h", LM+"LoggingMacros_MLOGGING_FMT.h", LM+"LoggingMacros_LLOGGING.h", LM+"LoggingMacros_LLOGGING_FMT.h", LM+"LogStream.cpp", LM+"ThreadStream.cpp"],
 mech=[("the macros", LM+"LoggingMacros_LOGGING.h"), ("LogStream::isActive() and threadStream()", LM+"LogStream.cpp"), ("setters of ThreadStream", LM+"ThreadStream.cpp")],
 observe=["fields of every message at an output stream", "number of evaluations of the arguments"],
 tech="seeded schedules of threads that call every macro in four builds; every message at an output compared with its call", note="1-3 threads, two streams, 24 calls per run; 25000 runs cover every macro, level and build many times.")

# --- properties which this technique cannot decide: no schedule, time, input/output or fault has a part in them
PURE = " is a function of its arguments alone: no thread, clock, input/output or failing call takes part, so there is nothing to simulate or inject; a test over random inputs would be another technique."
prop(id="C27", title="Sha2 computes the digests of FIPS 180",
 statement="Sha2Hash gives for every input, in whatever pieces it is processed, the SHA-224, SHA-256, SHA-384 or SHA-512 digest that FIPS 180 defines, and its hexadecimal text is that digest.",
 over=["inputs"], forall="every message and every way to cut it", why="The tests hash a few fixed messages.", files=["icl_core_crypt/Sha2.hpp", "icl_core_crypt/Sha2Impl.hpp"],
 mech=[("block processing", "icl_core_crypt/Sha2Impl.hpp")], observe=["digest"], tech="", note="")
NA.append(("C27", "The digest" + PURE))
prop(id="C28", title="RingBuffer and UnionFind behave as their abstract data types",
 statement="A RingBuffer holds exactly the last capacity() written elements in their order, whatever was written, read, skipped or resized before; UnionFind joins exactly the sets that were merged.",
 over=["inputs", "histories"], forall="every sequence of operations", why="The tests use short fixed sequences.", files=["icl_core/RingBuffer.h", "icl_core/RingBuffer.hpp", "icl_core/UnionFind.h"],
 mech=[("wrap-around of the indices", "icl_core/RingBuffer.hpp")], observe=["elements"], tech="", note="")
NA.append(("C28", "These containers are documented for one thread; their behaviour" + PURE))
prop(id="C29", title="SchemeParser splits every URI into the parts of RFC 3986",
 statement="Parsing a URI gives its scheme, authority, path, query and fragment, or fails if it is malformed, and no input makes the parser fail otherwise.",
 over=["inputs"], forall="every text", why="The tests parse a list of examples.", files=["icl_core/SchemeParser.cpp", "icl_core/SchemeParser.h"],
 mech=[("regular expressions", "icl_core/SchemeParser.cpp")], observe=["parts"], tech="", note="")
NA.append(("C29", "The result of the parser" + PURE))
prop(id="C30", title="KeyValueDirectory finds what was inserted, also by pattern",
 statement="get() gives the last value inserted under a key, and find() iterates exactly over the keys that match the regular expression, with the sub-matches as results.",
 over=["inputs", "histories"], forall="every sequence of insertions, keys and patterns", why="The tests use a few keys.", files=["icl_core/KeyValueDirectory.h", "icl_core/KeyValueDirectory.hpp"],
 mech=[("regex iterator", "icl_core/KeyValueDirectory.hpp")], observe=["values and iterators"], tech="", note="")
NA.append(("C30", "The directory is a single-threaded map; what it returns" + PURE + " Its use by the configuration is covered by C21."))
prop(id="C31", title="String, number and enumeration helpers convert faithfully",
 statement="split(), join(), trim(), padLeft()/padRight(), string2Enum() and the bit field helpers give the documented result for every argument.",
 over=["inputs"], forall="every argument", why="The tests use examples.", files=["icl_core/StringHelper.cpp", "icl_core/EnumHelper.cpp", "icl_core/BitfieldHelper.h"],
 mech=[("helpers", "icl_core/StringHelper.cpp")], observe=["results"], tech="", note="")
NA.append(("C31", "The result of each helper" + PURE))
