"""Public headers: self-contained in C and C++, consistent with the definitions, right destructors in the C++ helpers."""
import os, json, subprocess, re
from concurrent.futures import ThreadPoolExecutor
import build, llvmir
from comps import effects_

CSTD = ['c99', 'c11']
CXXSTD = ['c++11', 'c++17']


def installed():
    return [h for h in effects_.headers()]


def compile_try(text, lang, std, name, extra=(), args=()):
    p = os.path.join(build.scratch(), name)
    with open(p, 'w') as f: f.write(text)
    cc = build.CLANG if lang == 'c' else build.CLANGXX
    r = subprocess.run([cc, '-std=' + std, '-fsyntax-only', '-w', '-Werror=implicit-function-declaration', '-I' + os.path.join(build.REPO, 'include')] + list(args) + [p],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return r.returncode == 0, r.stderr.decode('latin1')


def firsterr(e):
    for l in e.splitlines():
        if 'error:' in l: return l.replace(build.scratch() + '/', '')[:240]
    return e[:200]


def errloc(e):
    m = re.search(r'([^\s:]+\.(?:h|c)):(\d+):', e)
    return (m.group(1), int(m.group(2))) if m else ('', 0)


def ast(text, lang, std, name, flt=None):
    p = os.path.join(build.scratch(), name)
    with open(p, 'w') as f: f.write(text)
    cc = build.CLANG if lang == 'c' else build.CLANGXX
    out = build.run([cc, '-std=' + std, '-fsyntax-only', '-w', '-I' + os.path.join(build.REPO, 'include'), '-Xclang', '-ast-dump=json'] +
                    (['-Xclang', '-ast-dump-filter=' + flt] if flt else []) + [p])
    return out


def run(res, tier):
    # implementation headers describe private layouts and come after their public header
    allh = installed()
    pub = [h for h in allh if not h.endswith('_imp.h')]
    if not pub: raise build.BuildError('no public headers')
    jobs = []
    for h in allh:
        if h not in pub:
            jobs.append((pub + [h], 'c', 'c99', 'private header after the public ones'))
            continue
        for lang, stds in (('c', CSTD), ('cc', CXXSTD)):
            for s in stds:
                jobs.append((['%s' % h], lang, s, 'alone'))
                jobs.append((['%s' % h, h], lang, s, 'twice'))
    for a in pub:
        for b in pub:
            if a != b:
                jobs.append(([a, b], 'c', 'c99', 'pair'))
    jobs.append((pub, 'cc', 'c++11', 'all')); jobs.append((list(reversed(pub)), 'cc', 'c++11', 'all reversed'))
    if tier == 'thorough':
        for a in pub:
            for b in pub:
                if a != b: jobs.append(([a, b], 'cc', 'c++11', 'pair'))
        for s in ('gnu89', 'gnu11', 'c17'):
            for h in pub: jobs.append(([h], 'c', s if s != 'gnu89' else 'gnu99', 'alone'))
        for s in ('c++14', 'c++20', 'gnu++11'):
            for h in pub: jobs.append(([h], 'cc', s, 'alone'))

    def one(k):
        hs, lang, std, what = jobs[k]
        text = ''.join('#include "%s"\n' % h for h in hs)
        return compile_try(text, lang, std, 'h%d.%s' % (k, lang))
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, range(len(jobs))))
    bad = set()
    for (hs, lang, std, what), (ok, err) in zip(jobs, rs):
        if ok: res.ok('header sets compiled (%s)' % what)
        else:
            f, l = errloc(err)
            key = (f, l)
            if key in bad: continue
            bad.add(key)
            res.viol('header', 'including %s as %s fails: %s' % (' then '.join(hs), std, firsterr(err)), f or hs[-1], l, hs[-1])
    if bad: return
    # declarations against definitions
    fns, vs = effects_.declared()
    m = effects_.library()
    for n, ds in sorted(fns.items()):
        d = ds[0][1]
        inline = any(x[1].get('inline') or x[1].get('storageClass') == 'static' for x in ds)
        if inline:
            res.ok('inline functions in headers'); continue
        f = m.functions.get(n)
        line = d.get('loc', {}).get('line', 0) or d.get('range', {}).get('begin', {}).get('line', 0)
        if f is None or f.decl or f.linkage != 0:
            res.viol('header', '%s() is declared but the library does not define it' % n, 'include/' + ds[0][0], line, n)
        else: res.ok('declared functions that the library defines')
    for n, ds in sorted(vs.items()):
        g = m.globals.get(n)
        if g is None or g.decl: res.viol('header', 'variable %s is declared but the library does not define it' % n, 'include/' + ds[0][0], 0, n)
        else: res.ok('declared variables that the library defines')
    # types: every source compiled with all public headers in scope
    build.generate(list(build.GENERATED))
    srcs = [build.src(x + '.c') for x in build.LIB if os.path.exists(build.src(x + '.c'))] + [build.src(x + '.c') for x in build.extra_sources()] + \
           [os.path.join(build.scratch(), x + '.c') for x in build.GENERATED]

    def two(k):
        p = os.path.join(build.scratch(), 'd%d.c' % k)
        text = open(srcs[k]).read()
        with open(p, 'w') as f: f.write('#include "%s"\n' % srcs[k] + ''.join('#include "%s"\n' % h for h in pub))
        r = subprocess.run([build.CLANG, '-std=gnu11', '-fsyntax-only', '-w'] + build.incs() + [p], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return r.returncode == 0, r.stderr.decode('latin1')
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(two, range(len(srcs))))
    for sfile, (ok, err) in zip(srcs, rs):
        if ok: res.ok('source files whose definitions agree with every public declaration')
        else:
            f, l = errloc(err)
            res.viol('header', '%s disagrees with the public headers: %s' % (os.path.basename(sfile), firsterr(err)), f, l, os.path.basename(sfile))
    # types again at IR level for functions defined in sources that include no header: compare parameter counts
    for n, ds in sorted(fns.items()):
        f = m.functions.get(n)
        d = ds[0][1]
        if f is None or f.decl: continue
        np = sum(1 for p in d.get('inner', []) if p['kind'] == 'ParmVarDecl')
        agg = any('struct' in p['type']['qualType'] and '*' not in p['type']['qualType'] for p in d.get('inner', []) if p['kind'] == 'ParmVarDecl')
        if len(f.args) != np and not agg and '()' not in d['type']['qualType'] and not f.rtype.text.startswith('{'):
            res.viol('header', '%s() is declared with %d parameters and defined with %d' % (n, np, len(f.args)), 'include/' + ds[0][0], 0, n)
        else: res.ok('parameter counts agree')
    linkage_and_helpers(res, pub, fns, vs)
    res.roots |= set(fns)


def walk(n):
    yield n
    for c in n.get('inner', ()) or ():
        if isinstance(c, dict): yield from walk(c)


def linkage_and_helpers(res, pub, fns, vs):
    text = ''.join('#include "%s"\n' % h for h in pub)
    # C linkage: an unmangled name in C++
    use = text + 'extern const void *const probe_[];\nconst void *const probe_[] = {\n'
    for n, ds in sorted(fns.items()):
        if any(x[1].get('inline') or x[1].get('storageClass') == 'static' for x in ds): continue
        use += '  (const void *) &%s,\n' % n
    for n in sorted(vs): use += '  (const void *) &%s,\n' % n
    use += '};\n'
    p = os.path.join(build.scratch(), 'linkage.cc')
    with open(p, 'w') as f: f.write(use)
    try:
        build.run([build.CLANGXX, '-std=c++11', '-w', '-O0', '-emit-llvm', '-c', '-I' + os.path.join(build.REPO, 'include'), p, '-o', p + '.bc'])
    except build.BuildError as e:
        err = str(e)
        f, l = errloc(err)
        res.viol('header', 'a public symbol is not usable from C++: ' + firsterr(err), f, l, 'linkage'); return
    m = llvmir.Module(p + '.bc')
    names = set(m.functions) | set(m.globals)
    for n, ds in sorted(fns.items()):
        if any(x[1].get('inline') or x[1].get('storageClass') == 'static' for x in ds): continue
        if n in names: res.ok('functions with C linkage in C++')
        else: res.viol('header', '%s() does not have C linkage when included from C++' % n, 'include/' + ds[0][0], 0, n)
    for n, ds in sorted(vs.items()):
        if n in names: res.ok('variables with C linkage in C++')
        else: res.viol('header', 'variable %s does not have C linkage when included from C++' % n, 'include/' + ds[0][0], 0, n)
    # smart pointer helpers
    raw = ast(text, 'cc', 'c++11', 'helpers.cc', flt='fsecure').decode()
    dec = json.JSONDecoder(); i = 0; tops = []
    raw = '\n'.join(l for l in raw.splitlines() if not l.startswith('Dumping '))
    while i < len(raw):
        while i < len(raw) and raw[i] != '{': i += 1
        if i >= len(raw): break
        o, j = dec.raw_decode(raw, i); tops.append(o); i = j
    # destructors by object type: void destroy_*(T *) / *_destroy_*(T *)
    dtor = {}
    for n, ds in fns.items():
        d = ds[0][1]
        ps = [p for p in d.get('inner', []) if p['kind'] == 'ParmVarDecl']
        if len(ps) == 1 and 'destroy' in n and d['type']['qualType'].startswith('void (') and ps[0]['type']['qualType'].endswith('*'):
            dtor.setdefault(ps[0]['type']['qualType'].rstrip('* ').replace('struct ', ''), set()).add(n)
    seen = set()
    for t in tops:
        for n in walk(t):
            if n['kind'] not in ('FunctionDecl',) or n.get('name') in seen: continue
            body = [c for c in n.get('inner', ()) if c.get('kind') == 'CompoundStmt']
            ps = [p for p in n.get('inner', ()) if p.get('kind') == 'ParmVarDecl']
            if not body or len(ps) != 1 or not ps[0]['type']['qualType'].endswith('*'): continue
            seen.add(n['name'])
            ty = ps[0]['type']['qualType'].rstrip('* ')
            want = dtor.get(ty, {'fsfree'} if ty == 'void' else None)
            used = set()
            for x in walk(body[0]):
                if x.get('kind') in ('DeclRefExpr',) and x.get('referencedDecl', {}).get('kind') == 'FunctionDecl':
                    used.add(x['referencedDecl']['name'])
            used = {u for u in used if u in fns}
            line = n.get('loc', {}).get('line', 0)
            if want is None:
                res.viol('header', 'helper %s: no destructor is declared for %s' % (n['name'], ty), 'include', line, n['name'])
            elif not (used and used <= want):
                res.viol('header', 'helper %s releases a %s with %s instead of %s' % (n['name'], ty, ', '.join(sorted(used)) or 'nothing', '/'.join(sorted(want))), 'include', line, n['name'])
            else: res.ok('smart pointer helpers releasing with the right destructor')
