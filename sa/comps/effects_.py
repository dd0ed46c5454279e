"""Whole-library call-graph and effect analysis (no interpretation): who calls the system allocator, what mutable
process-wide state exists, which pointer parameters a function may write through."""
import re, os, subprocess, json
import build, llvmir
from llvmir import CGlobal, CExpr, Inst, Arg

SYSALLOC = set('malloc calloc realloc free reallocarray memalign posix_memalign aligned_alloc valloc pvalloc cfree malloc_usable_size '
               'strdup strndup __strdup __strndup wcsdup asprintf vasprintf __asprintf __asprintf_chk __vasprintf_chk getline getdelim __getdelim '
               'open_memstream fmemopen fopen fdopen tmpfile opendir realpath getcwd canonicalize_file_name tempnam scandir mmap munmap '
               'mremap brk sbrk obstack_free argz_create envz_add regcomp getaddrinfo setlocale newlocale tdelete tsearch hcreate qsort qsort_r bsearch_r '
               '_Znwm _Znam _ZdlPv _ZdaPv'.split())
STATEFUL = set('strtok strtok_r_ localtime gmtime ctime asctime localtime_r_ setlocale localeconv rand srand random srandom drand48 lrand48 mrand48 '
               'srand48 strerror strsignal tmpnam getenv setenv putenv unsetenv secure_getenv time gettimeofday clock_gettime clock times '
               'mktime tzset timelocal timegm strftime ctime_r localtime_r gmtime_r_ ecvt fcvt gcvt getlogin ttyname readdir gethostbyname inet_ntoa '
               'crypt l64a mblen mbtowc wctomb mbrtowc wcrtomb mbstowcs btowc towupper towlower iswalpha iswspace __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc '
               'tolower toupper isalpha isdigit isalnum isspace isupper islower isxdigit isprint ispunct iscntrl isgraph '
               'strcasecmp strncasecmp strcasestr strcoll strxfrm hcreate hsearch hdestroy signal sigaction printf puts putchar fprintf vprintf '
               'vfprintf __printf_chk __fprintf_chk perror syslog fputs fwrite write read open close socket getpid gettid pthread_self '
               'pthread_mutex_lock pthread_once pthread_getspecific pthread_setspecific strtod strtof strtold atof nl_langinfo'.split())
HOOKS = ['fs_set_reallocator', 'fs_get_reallocator', 'fs_set_reallocator_counter', 'fs_get_reallocator_counter', 'fs_reallocator_skew',
         'fsalloc', 'fsfree', 'fsrealloc', 'fscalloc']
_mod = None


def library():
    global _mod
    if _mod is None:
        gen = build.generate(list(build.GENERATED))
        _mod = build.module(build.LIB, extra=gen, cname='library')
        for f in _mod.functions.values(): _mod.load(f)
    return _mod


def globals_in(v, out):
    if isinstance(v, CGlobal): out.append(v.name)
    elif isinstance(v, CExpr):
        for o in v.ops: globals_in(o, out)


def refs(fn):
    """(instruction, global name, role) for every reference to a global symbol"""
    for b in fn.blocks:
        for i in b.insts:
            if i.op == 'call':
                if isinstance(i.extra, CGlobal): yield i, i.extra.name, 'call'
                else:
                    o = []; globals_in(i.extra, o)
                    for n in o: yield i, n, 'call'
                for a in i.ops:
                    o = []; globals_in(a, o)
                    for n in o: yield i, n, 'arg'
            elif i.op == 'phi':
                for v in i.extra.values():
                    o = []; globals_in(v, o)
                    for n in o: yield i, n, 'use'
            else:
                for a in i.ops:
                    o = []; globals_in(a, o)
                    for n in o: yield i, n, 'use'


def public_functions():
    return sorted(declared()[0])


_decl = None


def declared():
    """(functions, variables) declared by the public headers: name -> (header, decl json)"""
    global _decl
    if _decl is None:
        p = os.path.join(build.scratch(), 'allhdr.c')
        hs = headers()
        with open(p, 'w') as f: f.write(''.join('#include "%s"\n' % h for h in hs))
        out = build.run([build.CLANG, '-std=gnu11', '-fsyntax-only', '-w', '-I' + os.path.join(build.REPO, 'include'), '-Xclang', '-ast-dump=json', p])
        tu = json.loads(out)
        fns, vs = {}, {}
        cur = None
        for d in tu['inner']:
            loc = d.get('loc', {})
            for l in (loc, loc.get('expansionLoc', {}), loc.get('spellingLoc', {})):
                if 'file' in l: cur = l['file']
            if not cur or not os.path.realpath(cur).startswith(os.path.realpath(build.REPO)): continue
            if d['kind'] == 'FunctionDecl': fns.setdefault(d['name'], []).append((os.path.basename(cur), d))
            elif d['kind'] == 'VarDecl': vs.setdefault(d['name'], []).append((os.path.basename(cur), d))
        _decl = fns, vs
    return _decl


def headers(): return sorted(f for f in os.listdir(os.path.join(build.REPO, 'include')) if f.endswith('.h'))


def entry_points(m):
    fns, _ = declared()
    return [f for f in fns if f in m.functions and not m.functions[f].decl]


# ------------------------------------------------------------------------------------------------ C01
def run_alloc(res):
    m = library()
    from engine import AnchorMissing
    for f in ('fsalloc', 'fsfree', 'fsrealloc', 'fs_set_reallocator'):
        if f not in m.functions or m.functions[f].decl: raise AnchorMissing(f)
    direct = {}          # function -> [(inst, callee)]
    for f in m.functions.values():
        if f.decl: continue
        res.functions.add(f.name)
        for i, n, role in refs(f):
            if n in SYSALLOC and (n not in m.functions or m.functions[n].decl): direct.setdefault(f.name, []).append((i, n, role))
    # call graph by direct calls and address-taking inside function bodies
    edges = {}
    for f in m.functions.values():
        if f.decl: continue
        edges[f.name] = [(n, i, role) for i, n, role in refs(f) if n in m.functions and not m.functions[n].decl]
    # every global cell that holds a function: candidate indirect targets
    init_targets = set()
    for g in m.globals.values():
        if g.decl: continue
        for off, (sz, c) in m.global_cells(g.name).items():
            o = []; globals_in(c, o)
            for n in o:
                if n in m.functions and not m.functions[n].decl: init_targets.add((n, g.name))
                if n in SYSALLOC:
                    res.viol('sysalloc', 'system allocator %s stored in variable %s' % (n, g.name), 'src', 0, g.name)
    # the default reallocator: the initial value of the variable through which fsalloc() calls
    hookvars = set()
    for fn in ('fsalloc', 'fsrealloc', 'fsfree', 'fscalloc'):
        f = m.functions.get(fn)
        if f is None or f.decl: continue
        work = [f]; seen = set()
        while work:
            g = work.pop()
            if g.name in seen: continue
            seen.add(g.name)
            for b in g.blocks:
                for i in b.insts:
                    if i.op == 'call':
                        if isinstance(i.extra, Inst) and i.extra.op == 'load':
                            o = []; globals_in(i.extra.ops[0], o); hookvars |= set(o)
                        elif isinstance(i.extra, CGlobal) and i.extra.name in m.functions and not m.functions[i.extra.name].decl:
                            work.append(m.functions[i.extra.name])
    default = {n for n, g in init_targets if g in hookvars}
    res.extra['default_reallocator'] = sorted(default); res.extra['hook_variables'] = sorted(hookvars)
    allowed = set(default)
    # private helpers of the default reallocator: reachable from it
    work = list(default)
    while work:
        f = work.pop()
        for n, i, role in edges.get(f, ()):
            if n not in allowed: allowed.add(n); work.append(n)
    # reach from public entry points by direct calls / address-taking
    roots = [f for f in entry_points(m)] + [f for f in m.functions if not m.functions[f].decl and m.functions[f].linkage == 0 and f not in default]
    parent = {}; work = []
    for r in roots:
        if r not in parent: parent[r] = None; work.append(r)
    while work:
        f = work.pop(0)
        for n, i, role in edges.get(f, ()):
            if role != 'call' and n in default and f in HOOKS: continue       # e.g. resetting the hook to the default
            if n not in parent: parent[n] = f; work.append(n)
    ncalls = 0
    for f in sorted(parent):
        for i, n, role in direct.get(f, ()):
            path = []; x = f
            while x is not None: path.append(x); x = parent[x]
            res.viol('sysalloc', '%s %s the system allocator %s()' % (f, 'calls' if role == 'call' else 'passes on', n), i.file, i.line, f, path=list(reversed(path)))
    for f in m.functions.values():
        if f.decl: continue
        for i, n, role in refs(f):
            ncalls += 1
        if f.name not in direct or f.name in allowed: res.ok('functions that never reach the system allocator except through the installed hook')
    # fs_set_reallocator is not called by the library itself; the hook is not captured elsewhere
    for f in m.functions.values():
        if f.decl or f.name in HOOKS: continue
        for i, n, role in refs(f):
            if n in ('fs_set_reallocator', 'fs_get_reallocator', 'fs_set_reallocator_counter'):
                res.viol('sysalloc', '%s uses %s: the library itself captures or replaces the hook' % (f.name, n), i.file, i.line, f.name)
    res.extra['symbol_references_examined'] = ncalls
    res.extra['external_functions'] = sorted(n for n, f in m.functions.items() if f.decl and not n.startswith('llvm.'))
    res.roots |= set(roots)


# ------------------------------------------------------------------------------------------------ pointer effects
class Effects:
    """per function parameter (and per global): may it be written through / does it escape?"""
    READERS = set('memcmp strlen strcmp strncmp strchr strrchr strstr memchr strspn strcspn strpbrk __assert_fail strnlen '
                  'bcmp rawmemchr strtol strtoul strtoll strtoull'.split())
    DERIVE = set('strchr strrchr strstr memchr strpbrk rawmemchr'.split())
    WRITE0 = set('memcpy memmove memset strcpy strncpy strcat strncat sprintf snprintf vsnprintf vsprintf __memcpy_chk __memmove_chk '
                 '__memset_chk __snprintf_chk __vsnprintf_chk __sprintf_chk __vsprintf_chk stpcpy mempcpy strtok'.split())

    def __init__(self, m):
        self.m = m
        self.w = {}            # (fn, arg) -> (inst) first write site
        self.ret = {}          # fn -> set(args) that may be returned
        self.users = {}
        for f in m.functions.values():
            if f.decl: continue
            u = {}
            for b in f.blocks:
                for i in b.insts:
                    ops = list(i.extra.values()) if i.op == 'phi' else list(i.ops)
                    for k, o in enumerate(ops):
                        key = ('I', o.id) if isinstance(o, Inst) else ('A', o.idx) if isinstance(o, Arg) else None
                        if key: u.setdefault(key, []).append((i, k))
                        else:
                            g = []; globals_in(o, g)
                            for n in g: u.setdefault(('G', n), []).append((i, k))
            self.users[f.name] = u
        ch = True
        while ch:
            ch = False
            for f in m.functions.values():
                if f.decl: continue
                for a in f.args:
                    if a.type.text != 'ptr': continue
                    w, r = self.trace(f, ('A', a.idx))
                    if r and a.idx not in self.ret.setdefault(f.name, set()): self.ret[f.name].add(a.idx); ch = True
                    if w and (f.name, a.idx) not in self.w: self.w[(f.name, a.idx)] = w; ch = True

    def trace(self, f, key):
        """follow a pointer value through the function: returns (write site or None, returned?)"""
        u = self.users[f.name]
        seen = {key}; work = [key]; ret = False; site = None
        def add(i):
            k = ('I', i.id)
            if k not in seen: seen.add(k); work.append(k)
        while work:
            k = work.pop()
            for i, pos in u.get(k, ()):
                op = i.op
                if op == 'store':
                    if pos == 1: site = site or i
                    # storing the pointer itself: not followed (locals are in SSA form)
                elif op in ('gep', 'bitcast', 'phi', 'freeze'):
                    if op != 'gep' or pos == 0: add(i)
                elif op == 'select':
                    if pos > 0: add(i)
                elif op == 'ret': ret = True
                elif op.startswith('op') and pos == 0 and op not in ('op53',): site = site or i     # atomics
                elif op == 'call':
                    c = i.extra
                    if not isinstance(c, CGlobal): continue
                    n = c.name
                    g = self.m.functions.get(n)
                    if g is not None and not g.decl:
                        if (n, pos) in self.w: site = site or i
                        if pos in self.ret.get(n, ()): add(i)
                    elif n in self.WRITE0 or n.startswith('llvm.mem'):
                        if pos == 0:
                            site = site or i
                            add(i)
                    elif n in self.DERIVE and pos == 0: add(i)
        return site, ret


# ------------------------------------------------------------------------------------------------ C02
def run_state(res):
    m = library()
    eff = Effects(m)
    fns = [f for f in m.functions.values() if not f.decl]
    ctor_ok = lambda f: f.name.split('.')[0] == 'FSDYN_VERSION'
    calls = {f.name: {n for i, n, role in refs(f) if n in m.functions} for f in fns}
    pubs, _ = declared()
    def exposes(f):
        # a caller outside the library gets a pointer to the variable it may write through
        if f.name not in pubs: return False
        t = pubs[f.name][0][1]['type']['qualType'].split('(')[0].strip()
        return not t.startswith('const ')
    # closure of the hook functions: private helpers called by nobody else count as part of them
    hookset = set(HOOKS)
    for g in sorted(m.globals.values(), key=lambda g: g.name):
        if g.decl or g.const:
            continue
        if g.name.startswith('llvm.'): continue
        if g.name == 'fsdyn_version_tag': continue
        readers, writers = [], []
        for f in fns:
            if ctor_ok(f): continue
            uses = eff.users[f.name].get(('G', g.name))
            if not uses: continue
            w, r = eff.trace(f, ('G', g.name))
            if w or (r and exposes(f)): writers.append((f, w or uses[0][0]))
            else: readers.append((f, uses[0][0]))
        if not writers:
            res.ok('mutable variables that no function ever writes')
            continue
        setters = {'fs_set_reallocator', 'fs_set_reallocator_counter'}
        private = lambda f: f.linkage != 0 and all(c in hookset or ctor_ok(m.functions[c]) for c in calls if f.name in calls[c])
        hook_written = all(f.name in setters or private(f) for f, _ in writers)
        fptr = g.type.text == 'ptr' and any(n in m.functions for off, (sz, c) in m.global_cells(g.name).items() for n in _names(c))
        if hook_written and fptr:
            bad = [(f, i) for f, i in readers if f.name not in hookset and not private(f)]
            for f, i in bad:
                res.viol('hiddenstate', '%s reads hook variable %s directly' % (f.name, g.name), i.file, i.line, f.name)
            if not bad: res.ok('hook variables written only by their setters and read only by the allocation primitives')
            continue
        for f, i in writers:
            res.viol('hiddenstate', 'static or global variable %s%s is written by %s' % (g.name, ' (thread-local)' if g.tls else '', f.name), i.file, i.line, f.name)
    for f in fns:
        if ctor_ok(f): continue
        res.functions.add(f.name)
        bad = False
        for i, n, role in refs(f):
            if n in STATEFUL and (n not in m.functions or m.functions[n].decl):
                bad = True
                res.viol('hiddenstate', '%s uses %s(), which has hidden or environment-dependent state' % (f.name, n), i.file, i.line, f.name)
            g = m.globals.get(n)
            if g is not None and g.decl and not g.const and n not in ('fsdyn_version_tag',):
                bad = True
                res.viol('hiddenstate', '%s uses external variable %s' % (f.name, n), i.file, i.line, f.name)
        if not bad: res.ok('functions free of stateful library calls and external variables')
    res.extra['globals_examined'] = len(m.globals)
    res.extra['mutable_globals'] = sorted(g.name for g in m.globals.values() if not g.const and not g.decl)
    res.roots |= set(entry_points(m))


def _names(c):
    o = []; globals_in(c, o); return o


# ------------------------------------------------------------------------------------------------ C03 (const part)
def const_params():
    """public function -> [indexes of pointer-to-const parameters]"""
    fns, _ = declared()
    out = {}
    for n, ds in fns.items():
        d = ds[0][1]
        ps = [p for p in d.get('inner', []) if p['kind'] == 'ParmVarDecl']
        ix = []
        for k, p in enumerate(ps):
            t = p['type'].get('desugaredQualType', p['type']['qualType'])
            t = re.sub(r'\s*\b(restrict|volatile)\b', '', t).strip()
            if re.match(r'^const [\w ]+ \*\s*(const)?$', t) or re.match(r'^const [\w ]+\[\w*\]$', t): ix.append(k)
        out[n] = (ix, len(ps))
    return out


def run_const(res):
    m = library()
    eff = Effects(m)
    cp = const_params()
    n = 0
    for fn, (ix, np) in sorted(cp.items()):
        f = m.functions.get(fn)
        if f is None or f.decl or len(f.args) != np: continue
        res.functions.add(fn); res.roots.add(fn)
        for k in ix:
            n += 1
            w = eff.w.get((fn, k))
            if w:
                # follow to the function holding the store
                g, i = f, w
                path = [fn]
                while i.op == 'call' and isinstance(i.extra, CGlobal) and i.extra.name in m.functions and not m.functions[i.extra.name].decl:
                    nxt = i.extra.name; path.append(nxt)
                    cand = [eff.w[(nxt, j)] for j in range(len(m.functions[nxt].args)) if (nxt, j) in eff.w]
                    if not cand or len(path) > 8: break
                    i = cand[0]
                res.viol('constwrite', '%s may write through its const parameter %d' % (fn, k + 1), i.file, i.line, path[-1], path=path)
            else: res.ok('pointer-to-const parameters never written through')
    res.extra['const_parameters'] = n


def run(res, tier):
    if 'sysalloc' in res.kinds: run_alloc(res)
    if 'hiddenstate' in res.kinds: run_state(res)
    if 'constwrite' in res.kinds: run_const(res)
