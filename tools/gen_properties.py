import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
L='lib/fbuild/'
p('C01','A changed source file re-runs every cached call that read it',
 'After the contents of a file change (with its modification time), or the file disappears, the next execution of any cached call that used it as a source - through a source-annotated argument or registered while the call ran - runs the function again (or reports the missing declared source) instead of returning the stored result. This holds for every one of the calls that share the file, whichever of them is looked up first, and with each of the three database engines.',
 ['inputs','histories'],'All sets of cached calls, all ways of sharing source files between them (declared, registered while running, both), all orders of file edits, calls and reconnects, for the pickle, cache and sqlite engines; every content change moves the modification time, md5 is collision free.',
 'The tests contain no test of the database at all; the example builds check that one build succeeds, never an edit/rebuild sequence with several calls sharing a file.',
 [L+'db/backend.py',L+'db/cache_backend.py',L+'db/sqlite_backend.py',L+'db/database.py'],
 [('per-file modification time and digest records',L+'db/backend.py add_file'),('per-call file digests compared at look-up',L+'db/backend.py check_call_file, check_call_files, check_external_files'),('digests stored after a run',L+'db/backend.py cache, save_call_files; save_external_files in both engines'),('the hit test',L+'db/database.py Database.call')],
 ['return value of a cached call','whether the cached function body ran'],
 [('file table','last seen modification time and digest of each file',L+'db/cache_backend.py _files; sqlite table File'),('call-file table','digest of each source the last time the call ran',L+'db/cache_backend.py _call_files; sqlite table CallFile')])
p('C02','Changing a cached function re-runs its calls and its dependents',
 'When the source of a cached function changes, the stored results of that function and of every cached function that called it, directly or through other cached functions, are never returned again: their next call runs. This holds for any call graph including cycles, whichever dependent is executed first, and however many calls of each function are stored.',
 ['inputs','histories','programs'],'All call graphs between cached functions (chains, diamonds, cycles, calls made only for some arguments), all subsets of functions whose source changes between runs, all orders of calls afterwards, all three engines; any number of jobs.',
 'No test changes a function between runs; the example builds run once with fixed sources.',
 [L+'db/backend.py',L+'db/database.py',L+'db/cache_backend.py',L+'db/sqlite_backend.py'],
 [('digest comparison and walk over recorded dependents',L+'db/backend.py check_function'),('recording of called functions',L+'db/database.py Database.call call stack'),('invalidation when a changed function is stored again',L+'db/backend.py cache, delete_function in both engines')],
 ['return value of a cached call','whether the cached function body ran'],
 [('function table','digest and called functions of each cached function',L+'db/cache_backend.py _functions; sqlite table Function')])
p('C03','A missing destination file makes its cached call run again',
 'A cached call returns its stored result only if every destination of the call exists: destination-annotated arguments, destinations registered while it ran, and a destination-annotated return value (single, list or optional). If any of them is gone the function runs again.',
 ['inputs','histories'],'All combinations of destination kinds (argument, return value, registered, optional, list), any subset of them deleted, any earlier history of the call, all three engines.',
 'No test deletes an output and rebuilds.',
 [L+'db/database.py',L+'db/__init__.py',L+'db/cache_backend.py',L+'db/sqlite_backend.py'],
 [('existence test before a hit',L+'db/database.py Database.call'),('annotation conversion',L+'db/__init__.py SRC, SRCS, DST, DSTS, OPTIONAL_SRC, OPTIONAL_DST'),('stored registered destinations',L+'db/cache_backend.py save_external_files, find_external_dsts; same in sqlite_backend.py')],
 ['whether the cached function body ran'])
p('C04','An up-to-date cached call returns the stored result without running',
 'If neither the function, nor any cached function it calls, nor any source file it used changed since a call completed, and all its destinations exist, then calling it again with equal argument values does not run the function and returns the value it returned then, together with the same source and destination files. This survives closing and reopening the database, and calls of other functions or with other arguments in between.',
 ['inputs','histories'],'All functions, argument values, stored histories of other calls and intervening reconnects, for the pickle, cache (without reconnect) and sqlite engines.',
 'Doctests look at one call repeated at once in one process with the in-memory engine.',
 [L+'db/database.py',L+'db/backend.py',L+'db/cache_backend.py',L+'db/sqlite_backend.py',L+'db/pickle_backend.py'],
 [('hit test and returned file sets',L+'db/database.py Database.call'),('look-up by bound arguments',L+'db/cache_backend.py find_call; same in sqlite_backend.py'),('combined query',L+'db/backend.py prepare')],
 ['return value, reported sources and destinations of a cached call','whether the cached function body ran'])
p('C05','Cached calls bind arguments exactly as Python calls do',
 'For any function signature and any positional and keyword arguments, the values by which a cached call is identified map every parameter to the value that an actual Python call would give it, with defaults filled in, extra positional arguments in the star parameter and extra keywords in the double-star parameter. Arguments that Python itself would reject are rejected with a TypeError.',
 ['inputs','programs'],'All signatures (positional, defaults, star, keyword-only with and without defaults, double star, bound methods) and all argument lists.',
 'The test module tries a few dozen fixed signatures.',
 [L+'functools.py'],[('normalisation',L+'functools.py normalize_args'),('binding to names',L+'functools.py bind_args')],
 ['result of bind_args and normalize_args'])
p('C06','A failing cached call stores nothing and leaves recording intact',
 'If a cached function raises, no result is stored for that call, so the same call runs again next time, while results stored earlier for other calls remain. Later calls in the same process record their called functions, sources and destinations exactly as if the failing call had never been made.',
 ['inputs','histories','fault_sequences'],'All positions of failing calls in a nest of cached calls, whether the error is caught by an outer cached call or reaches the top, followed by any further calls.',
 'No test makes a cached function fail and then goes on using the database.',
 [L+'db/database.py',L+'db/backend.py'],[('call stack push and pop around the run',L+'db/database.py Database.call'),('store only after success',L+'db/database.py Database.call')],
 ['later hits and re-runs of cached calls','recorded called functions'])
p('C07','Storing one record never disturbs another',
 'After a function, call, file digest, or set of registered sources and destinations is stored, looking it up returns exactly what was stored, and every look-up of any other function, call, file or registered set returns what it returned before. This holds for any sequence of stores in each database engine.',
 ['inputs','histories'],'All database contents and all store operations with all keys (including two calls of one function, one file used by many calls, names that share prefixes).',
 'Nothing tests the storage layer directly.',
 [L+'db/cache_backend.py',L+'db/sqlite_backend.py',L+'db/backend.py'],
 [('store and look-up operations',L+'db/cache_backend.py find_*/save_*; '+L+'db/sqlite_backend.py find_*/save_*'),('tables and their foreign keys',L+'db/sqlite_backend.py _initialize_database')],
 ['results of the look-up operations of a database engine'])
p('C08','Deleting a function or file removes exactly its data and says so',
 'Deleting a function from the database removes its record and all its calls with their file records, deleting a file removes its record and the digests calls stored for it, and nothing belonging to other functions or files changes. The deletion reports true exactly when something was stored under that name; afterwards the affected calls run again.',
 ['inputs','histories'],'All database contents and all names, stored or not, in each engine; and the command-line delete options on top of them.',
 'No test deletes from a database.',
 [L+'db/cache_backend.py',L+'db/sqlite_backend.py',L+'db/database.py',L+'main.py'],
 [('delete operations',L+'db/cache_backend.py delete_function, delete_file; same in sqlite_backend.py'),('command-line options',L+'main.py build')],
 ['return value of the deletion','later look-ups'])
p('C09','Saving the state file is crash safe and lossless',
 'If the process dies at any point while the pickle database is being saved, a complete state - the previous one or the new one - is still on disk under the state file name or its backup name, and never a truncated file under the state file name. A save that completes leaves the new state under the state file name with no leftovers, and reconnecting yields exactly the saved records.',
 ['crash_points','histories'],'A crash before or after every file system operation of a save, with or without an earlier state file and leftovers of an earlier interrupted save.',
 'Tests never interrupt a save.',
 [L+'db/pickle_backend.py',L+'db/backend.py'],[('write to a temporary file, move the old file aside, rename, remove',L+'db/pickle_backend.py close'),('loading',L+'db/pickle_backend.py _connect')],
 ['files on disk at each file system operation','look-ups after reconnecting'])
p('C10','A database of another format version is discarded, a current one kept',
 'Connecting to a state file written under another format version, or before versions existed, starts from an empty database of the current version and never interprets the old records. Connecting to a state file of the current version keeps all its records.',
 ['inputs','histories'],'All stored version strings including a missing one, any content, pickle and sqlite engines.',
 'No test opens an old database.',
 [L+'db/backend.py',L+'db/pickle_backend.py',L+'db/sqlite_backend.py'],[('version gate',L+'db/backend.py connect'),('version stored and loaded',L+'db/pickle_backend.py _connect, close; '+L+'db/sqlite_backend.py _connect, close')],
 ['look-ups after connecting','state file on disk'])
p('C11','Dependencies registered in a call reach every enclosing cached call',
 'Source and destination files registered while a cached function runs are stored with that call and with every cached call enclosing it on the same thread, are reported among the sources and destinations the call returns, both when it runs and when it is answered from the database, and replace those stored by an earlier run of the call. Calls that are not enclosing are not affected.',
 ['inputs','histories'],'All nestings of cached calls, all files registered at any point of them, any number of registrations, re-runs with different registrations.',
 'Only builder examples use it, and only through one successful build.',
 [L+'db/database.py',L+'db/backend.py',L+'db/cache_backend.py',L+'db/sqlite_backend.py'],
 [('registration through the active calls',L+'db/database.py add_external_dependencies_to_call'),('fresh sets per run, merged into the result',L+'db/database.py Database.call'),('storage',L+'db/cache_backend.py save_external_files; same in sqlite_backend.py')],
 ['reported sources and destinations of a cached call','re-runs after a registered file changes'])
p('C12','A parallel map returns every result once, in input order',
 'Mapping a function over a list with the scheduler calls it exactly once for each element (also for equal elements) and returns the results in the order of the inputs, whatever order the worker threads finish in and also when the mapped function itself maps. If the function raises for an element the map raises that exception instead of returning.',
 ['inputs','schedules'],'All input lists, all functions including ones that raise or map recursively, all numbers of worker threads and completion orders.',
 'Tests run a few small lists under whatever schedule happens to occur.',
 [L+'sched.py'],[('task list, completion queue and count',L+'sched.py Scheduler._evaluate, map'),('worker loop',L+'sched.py WorkerThread.run, run_one; Task.run')],
 ['return value of map','calls of the mapped function'])
p('C13','Dependency map runs dependencies first and detects cycles',
 'A dependency-ordered map calls the function once per distinct source, never before the calls for all its listed dependencies (those that are sources themselves) have finished, and returns each result once with every result after the results it depends on, in an order that depends only on the inputs. If the dependencies contain a cycle it raises a dependency-loop error instead of hanging or running a member of the cycle.',
 ['inputs','schedules'],'All source lists, dependency functions (including duplicate, missing and self dependencies, diamonds, cycles of any length), completion orders.',
 'Tests cover about ten fixed graphs.',
 [L+'sched.py'],[('readiness test',L+'sched.py Task.can_run'),('release of dependents on completion',L+'sched.py Scheduler._evaluate'),('depth-first ordering of results',L+'sched.py Scheduler.map_with_dependencies')],
 ['return value of map_with_dependencies','order of calls'])
p('C14','Every database request gets its own answer or error',
 'Each request sent to the database server thread is executed exactly once, and its caller receives the value or the exception that this very request produced, also when many threads send requests, when earlier requests failed, and right after the server was started. After shutdown requests are refused with an error instead of hanging.',
 ['inputs','schedules','fault_sequences'],'All request sequences and interleavings of client threads, handlers that return or raise an Exception.',
 'No test addresses the server directly.',
 [L+'rpc.py'],[('request record with its own result slot',L+'rpc.py RPC.call'),('handler invocation and signalling',L+'rpc.py RPC._process, run'),('start and stop',L+'rpc.py start, join')],
 ['return value or exception of RPC.call'])
p('C15','Running a command reports its true outcome',
 'Executing a command returns its captured output when it exits with status zero (or errors are ignored), raises an execution error carrying the command, output and status when it exits non-zero, and raises a timed-out error when the time limit ended it. The command sees the current environment overridden by the given variables with the extra library paths appended, and a failing command is logged at the requested verbosity.',
 ['inputs','fault_sequences'],'All commands, exit statuses, outputs, environments, library paths, time limits and combinations of options.',
 'Example builds run commands that succeed with default options.',
 [L+'context.py'],[('process start, wait and outcome',L+'context.py Context.execute')],
 ['return value or exception of execute','environment passed to the process'])
p('C16','Platform-conditional options follow their matchers, in order',
 'An option set applies exactly when all its plain matcher names are in the platform and none of its negated ones are; the matching sets are applied in the order given, a plain key replacing the value, a key ending in plus appending the given string, list, tuple or set to it, and one ending in minus removing the given members, starting from an empty value when there is none. Options not mentioned stay as they were, and the wrapped function receives exactly the resulting options.',
 ['inputs'],'All platforms, matcher sets, option sequences and initial options, of all supported value types.',
 'Tests use a few fixed platforms and option lists.',
 [L+'builders/platform.py'],[('matching',L+'builders/platform.py platform_match'),('application of options',L+'builders/platform.py parse_platform_options'),('decorator',L+'builders/platform.py auto_platform_options')],
 ['options received by the decorated function'])
p('C17','Installation puts each registered file at its place, once, untouched',
 'A file registered for installation is copied to the destination root joined with the prefix and the sub-directory (or with the sub-directory alone when it is absolute) under its own or its new name, with its parent directories created; symbolic links are copied as links and the requested permissions are applied to the installed file. The file in the build tree, its permissions and the other registered files stay as they were.',
 ['inputs'],'All destination roots, prefixes, sub-directories, names, permissions, and sources that are files or links, with or without an existing target.',
 'One example installs two plain files.',
 [L+'context.py',L+'install.py'],[('target computation',L+'context.py Context.install'),('copying',L+'install.py LocalCommander.install, Installer._install')],
 ['files under the destination root','files in the build tree'])
p('C18','Command-line targets run in order, with install last',
 'The requested targets run once each in the order given. Install is refused unless it is last; when no target other than configure is requested beside it, build runs immediately before it and after configure; the hooks around installation run before and after the files are installed, and an unknown target is reported as an error.',
 ['inputs','configurations'],'All lists of requested targets and sets of registered targets, with or without the hooks.',
 'Examples use build and build-install only.',
 [L+'main.py',L+'target.py'],[('target list handling',L+'main.py build'),('look-up',L+'target.py find')],
 ['sequence of target functions called'])
p('C19','File name patterns match exactly the names they denote',
 'A pattern matches a name exactly when the name can be split according to the pattern: a star matches any text, a question mark any one character, a bracket expression one of (or none of) its characters and ranges, a brace group any of its comma-separated alternatives which may nest, and any other character itself. Filtering a list keeps exactly the matching names in order.',
 ['inputs'],'All patterns (including unclosed brackets and braces) and all names.',
 'Tests try a few dozen pairs.',
 [L+'fnmatch.py'],[('translation to a regular expression',L+'fnmatch.py translate, _translate, _translate_subexpression'),('compiled pattern cache',L+'fnmatch.py _compile_pattern'),('filtering',L+'fnmatch.py filter')],
 ['result of fnmatch, fnmatchcase and filter'])
p('C20','Path rewriting keeps the rest of the path',
 'Adding a root places a relative path under that root unchanged, leaves a path that already starts with it alone, and removing a root is its inverse; replacing an extension changes only the extension of the last component; adding a prefix changes only the start of the last component; splitting a path into all its components and joining them again gives the same path.',
 ['inputs'],'All path strings, roots, extensions and prefixes.',
 'Doctests try one or two paths per method.',
 [L+'path.py'],[('path methods',L+'path.py Path.addroot, removeroot, replaceext, replaceexts, addprefix, splitall, __new__')],
 ['returned paths'])
p('C21','Compiler command lines carry every setting, in linkable order',
 'The compiler or linker command contains every include path, macro, warning, library path and machine flag of the builder and of the call exactly once, the sources in the order given, and the output name. When linking, it also carries each library path and external library of the libraries it depends on; the libraries follow the sources with every library before the libraries it depends on; when only compiling no library appears.',
 ['inputs','configurations'],'All builder settings, call settings, source lists and acyclic library dependency graphs.',
 'Example builds use two libraries at most and small settings.',
 [L+'builders/c/gcc/__init__.py'],[('command assembly',L+'builders/c/gcc/__init__.py Gcc.__call__'),('library walk',L+'builders/c/gcc/__init__.py Gcc.__call__ inner function')],
 ['command passed to execute'])
p('C22','Template builders write exactly the substituted text',
 'A text substitution builder writes to the destination under the build root exactly the text of the source (line ends read as in text mode) with its patterns applied in the order given, and changes no other file; it returns the path it wrote. Header templates turn each undefined marker into a definition when the value is set, into a comment when it is false or empty, and fail without a stored result when a name has no value.',
 ['inputs'],'All source texts in the encoding of the platform, pattern sets and destination names.',
 'One example performs one substitution of each kind.',
 [L+'builders/text.py'],[('substitution',L+'builders/text.py substitute, regex_substitute, format_substitute, autoconf_config_file, autoconf_config_header')],
 ['contents of the destination file'])
p('C23','Program lookup and version requirements pick the right tool',
 'Program lookup returns the first existing regular file for the first name that has one, trying a name as given and then each directory of the search path in order, and reports a missing program only when no name has one. A version requirement accepts a tool exactly when its version, compared component by component, equals, is at least, or is at most the required one.',
 ['inputs','configurations'],'All name lists, search paths, file systems, version strings and combinations of requirements.',
 'Example builds look up programs that exist in one place.',
 [L+'builders/__init__.py'],[('lookup',L+'builders/__init__.py find_program'),('comparison',L+'builders/__init__.py check_version')],
 ['returned path','raised errors'])
p('C24','Every log message reaches the log file once, in order per thread',
 'Every message a thread logs is written to the log file exactly once and in the order that thread logged it, and to the console exactly when its level does not exceed the chosen verbosity, also when several worker threads log at the same time. Messages of a worker are flushed at the latest when its current task ends, also when the task fails.',
 ['inputs','schedules','configurations'],'All sequences of messages, levels and buffering modes on any number of threads.',
 'Nothing tests logging.',
 [L+'console.py'],[('per-thread buffering',L+'console.py Log.write, flush, log_from_thread'),('filtering by level',L+'console.py Log._write')],
 ['log file contents','console output'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
for d in P:
    assert len(d['title'])<=80,d['id']
    print(d['id'],len(d['title']))
