"""Which contracts and which bounded checks belong to which property."""
import importlib

# group -> (module, names of the contract classes)
GROUPS = {}


def groups():
    if GROUPS:
        return GROUPS
    import contracts.dbmodel as M
    import contracts.dbcore as C
    GROUPS['db'] = (C.COMPOSITES, M.PRIMITIVES + [C.PathDigest, C.DigestFromMap] + C.COMPOSITES)
    import contracts.cachedb as K
    GROUPS['cachedb'] = (K.CONTRACTS, K.USED)
    import contracts.binding as B
    GROUPS['binding'] = (B.CONTRACTS, B.USED)
    import contracts.platform as P
    GROUPS['platform'] = (P.CONTRACTS, P.USED)
    for g in ('statefile', 'rpcs', 'targets', 'tools', 'text', 'paths', 'installs', 'execs', 'logs', 'sched', 'depmap', 'patterns', 'dbcall'):
        m = importlib.import_module('contracts.' + g)
        GROUPS[g] = (m.CONTRACTS, m.USED)
    return GROUPS


def contracts_for(prop):
    """[(group, class name, variant index)]"""
    out = []
    for g, (cs, used) in groups().items():
        for c in cs:
            if prop in c.props and not c.trusted:
                for i in range(len(c.variants)):
                    out.append((g, c.__name__, i))
    return out


def find(group, name):
    cs, used = groups()[group]
    for c in cs:
        if c.__name__ == name:
            return c, used
    raise KeyError(name)


# property -> [(module, cases, processes)]
HARNESS = {
    'C01': [('db', 'src', 3)],
    'C02': [('db', 'fun', 3), ('db', 'parallel_fun', 1)],
    'C03': [('db', 'dst', 3)],
    'C04': [('db', 'hit', 2), ('db', 'mixed', 1)],
    'C05': [('pure', 'binding', 3)],
    'C06': [('db', 'fail', 3)],
    'C07': [('store', 'store', 3)],
    'C08': [('db', 'del', 2), ('store', 'delete', 2)],
    'C09': [('files', 'save', 3)],
    'C10': [('store', 'versions', 2)],
    'C11': [('db', 'ext', 2), ('db', 'parallel_enclosing', 1)],
    'C12': [('par', 'map', 3)],
    'C13': [('par', 'deps', 3)],
    'C14': [('par', 'rpc', 3)],
    'C15': [('cmd', 'exec', 4)],
    'C17': [('files', 'install', 3)],
    'C18': [('cmd', 'targets', 3)],
    'C21': [('cmd', 'gcc', 3)],
    'C22': [('files', 'text', 3)],
    'C23': [('files', 'find', 2), ('files', 'version', 2)],
    'C24': [('par', 'log', 3)],
    'C16': [('pure', 'platform', 3)],
    'C19': [('pure', 'pattern', 3)],
    'C20': [('pure', 'path', 3)],
}

BUDGET = {}                 # property -> seconds for the bounded part (quick)
LEVEL = {}                  # property -> level, when not 'proof'
COVERAGE = {}               # property -> further fields of the evidence
ASSUMPTIONS = {}
GENERAL_ASSUMPTIONS = (
    'Python integers, strings and floats are modelled as mathematical integers, opaque or z3 strings and reals',
    'no asynchronous exceptions, MemoryError or RecursionError; logging calls have no effect on the properties',
)
DEDUCTIVE = 'contracts on the real functions, discharged by z3 through pyvc; bounded history checks stand in for the SQL engine'
DBNOTE = ('The look-up, storing and invalidation code of Backend is proved for all states and inputs over contracts of the '
          'storage primitives; the primitives of the SQLite engine are checked only by bounded random histories against an '
          'independent oracle. Trusted: pyvc, z3, the operating system (file contents follow modification times).')
NOTES = {p: (DEDUCTIVE, 'proof', DBNOTE) for p in ('C01', 'C02', 'C03', 'C04', 'C06', 'C07', 'C08', 'C11')}
D2 = 'contracts on the real functions, discharged by z3 through pyvc; bounded checks of the real code beside them'
NOTES['C05'] = (D2, 'proof', 'Call.bind_args and its helpers are proved for every signature and argument list; the bounded check '
                'compares with actual Python calls. Trusted: inspect reports the signature truly, pyvc, z3.')
NOTES['C09'] = (D2, 'proof', 'PickleBackend.close is proved over a file system model with its crash invariant after every single '
                'change, and _connect as its inverse; the model of the operating system (atomic rename, the process dies and '
                'not the machine) and pickling are assumed and exercised by bounded crash tests.')
NOTES['C10'] = (D2, 'proof', 'Backend.connect is proved for any engine over an assumed contract of _connect and close; the pickle '
                'engine is proved to satisfy it; the sqlite engine (SQL) is checked by bounded histories only.')
NOTES['C16'] = (D2, 'proof', 'platform_match is proved for all platforms and matchers; parse_platform_options and '
                'auto_platform_options are checked bounded against an independent oracle.')
NOTES['C14'] = (D2, 'proof', 'The constructor, call with _process, run, start and join of RPC are proved, each over the others\' '
                'contracts; queue.Queue, threading.Event and Thread.start are assumed to work as documented, and interleavings '
                'of the real threads are checked bounded.')
NOTES['C18'] = (D2, 'proof', 'main.build is proved for every list of targets over the contract of target.find; the parsing of the '
                'command line and the targets themselves are checked bounded.')
NOTES['C23'] = (D2, 'proof', 'find_program and check_version are proved for all lists, search paths, file systems and versions; '
                'that LooseVersion-like splitting of a version string is right is checked bounded.')
NOTES['C17'] = (D2, 'proof', 'Context.install, LocalCommander.install, Installer._install and Installer.install are proved, over a '
                'model of names, regular files and links in which copying and chmod follow links; the privileged process of '
                'polkit is assumed to do what LocalCommander does. Real files are checked bounded.')
NOTES['C20'] = (D2, 'proof', 'The Path methods that rewrite text (construction and joining, addroot, removeroot, replaceext, replaceexts, '
                'addprefix, splitall) are proved over the string theories of z3 and cvc5; os.path functions are given by their '
                'documented POSIX meaning; globbing is checked bounded.')
NOTES['C22'] = (D2, 'proof', 'The five builders are proved for every file, pattern list and value over re.sub, str.replace and str.format as '
                'functions; what the fixed regular expressions match is checked bounded.')
NOTES['C15'] = (D2, 'proof', 'Context.execute is proved for every command, environment, limit and outcome, over assumed contracts of Popen, '
                'communicate, wait and Timer; the real processes and signals are checked bounded.')
NOTES['C24'] = (D2, 'proof', 'The methods of Log and the loop of a worker thread are proved with counters of what was logged and written, '
                'for one thread at a time (its buffer is thread local and every write holds the lock); threads that '
                'really run at the same time are checked bounded.')
NOTES['C12'] = (D2, 'proof', 'Task, Scheduler.map, _evaluate and the run of a queued task are proved, for the main and for a worker '
                'thread, over queues that hand out every element once; the bounded check runs the real threads.')
NOTES['C13'] = (D2, 'proof', 'map_with_dependencies is proved over the contract of _evaluate, which is proved with ghost state for what '
                'was submitted and what came back: no task before its dependencies, cycles are reported. The order of '
                'the results from one run to the next and real threads are checked bounded.')
NOTES['C19'] = (D2, 'proof', 'The cache of compiled patterns, fnmatch, fnmatchcase and filter are proved with the translation of a pattern '
                'as a function; what the translated expression matches (translate) is checked only bounded, against an independent '
                'matcher.')
NOTES['C21'] = ('bounded check of the real Gcc.__call__ (stands in for a contract) against an independent statement of the command line',
                'exploration', 'Bounded only: the generator expressions over sorted collections and the recursive inner function are '
                'outside the reach of pyvc; random settings and library graphs of up to 7 libraries are run and the command is judged.')
NOT_APPLICABLE = {}
