"""Compile the current /repo sources to LLVM IR (never executed) in a scratch directory."""
import os, subprocess, tempfile, shutil, atexit, re
import llvmir

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang-18'
CLANGXX = '/usr/bin/clang++-18'
LLVMBIN = '/usr/lib/llvm-18/bin/'
LIB = ['avltree', 'bytearray', 'date', 'float', 'hashtable', 'integer', 'intset', 'list', 'base64', 'charstr',
       'charstr_puny', 'charstr_unicode', 'charstr_decompose', 'charstr_recompose', 'fsalloc', 'priority_queue']
_scratch = None


class BuildError(Exception): pass


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='fsdyn-sa-')
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr.decode('latin1')[-4000:]))
    return p.stdout


def src(name): return os.path.join(REPO, 'src', name)


CFLAGS = ['-std=gnu11', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-D_FILE_OFFSET_BITS=64']


def incs(): return ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-I' + scratch()]


def compile_bc(path, out=None, extra=()):
    out = out or os.path.join(scratch(), os.path.basename(path).rsplit('.', 1)[0] + '.bc')
    run([CLANG] + CFLAGS + list(extra) + incs() + ['-c', '-emit-llvm', path, '-o', out])
    return out


def link(bcs, name='all', passes='mem2reg'):
    o = os.path.join(scratch(), name + '.l.bc'); o2 = os.path.join(scratch(), name + '.m.bc')
    run([LLVMBIN + 'llvm-link'] + bcs + ['-o', o])
    if passes: run([LLVMBIN + 'opt', '-passes=' + passes, o, '-o', o2])
    else: o2 = o
    return o2


def extra_sources():
    """library sources added to src/ beyond the known ones (helpers moved to a new file)"""
    known = set(LIB) | {'gen_idna_table', 'fsdyn_version', 'idna_table'}
    out = []
    try:
        for f in sorted(os.listdir(os.path.join(REPO, 'src'))):
            if f.endswith('.c') and f[:-2] not in known and not f.startswith('unicode_'): out.append(f[:-2])
    except OSError: pass
    return out


def module(names, extra=(), cname='all', defs=(), passes='mem2reg'):
    """IR of the given library sources (+ absolute extra C files), linked, in SSA form"""
    bcs = []
    for n in list(names):
        p = src(n + '.c')
        if not os.path.exists(p): raise BuildError('source file missing: ' + p)
        bcs.append(compile_bc(p, extra=defs))
    for n in extra_sources(): 
        try: bcs.append(compile_bc(src(n + '.c'), extra=defs))
        except BuildError: pass
    for p in extra: bcs.append(compile_bc(p, extra=defs))
    return llvmir.Module(link(bcs, cname, passes))


# generated source -> (generator script, data files); as in src/SConscript
GENERATED = {
    'unicode_categories': ('categorize.py', ['unicode/UnicodeData.txt']),
    'unicode_lower_case': ('lower_case.py', ['unicode/UnicodeData.txt']),
    'unicode_upper_case': ('upper_case.py', ['unicode/UnicodeData.txt']),
    'unicode_canonical_combining_classes': ('canonical_combining_classes.py', ['unicode/UnicodeData.txt']),
    'unicode_allowed_in_normal_form': ('allowed_in_normal_form.py', ['unicode/DerivedNormalizationProps.txt']),
    'unicode_decomposition': ('decomposition.py', ['unicode/UnicodeData.txt']),
    'unicode_recomposition': ('recomposition.py', ['unicode/UnicodeData.txt', 'unicode/CompositionExclusions.txt']),
    'idna_table': (None, ['idna/IdnaMappingTable.txt']),
}


def generate(names):
    """regenerate the build's generated sources from the current tree, in the scratch directory"""
    import sys
    procs = []
    for n in names:
        out = os.path.join(scratch(), n + '.c')
        if os.path.exists(out): continue
        script, data = GENERATED[n]
        data = [os.path.join(REPO, d) for d in data]
        if script is None:
            v = os.path.join(scratch(), 'fsdyn_version.c')
            with open(v, 'w') as f: f.write('const char *fsdyn_version_tag = "F-S_v:: fsdyn";\n')
            exe = os.path.join(scratch(), 'gen_idna_table')
            run([CLANG, '-std=gnu11', '-O1', '-w'] + incs() + [src('gen_idna_table.c'), src('charstr.c'), src('list.c'), src('fsalloc.c')]
                + [src(x + '.c') for x in extra_sources()] + [v, '-o', exe])
            cmd = [exe] + data
        else: cmd = [sys.executable, src(script)] + data
        fo = open(out + '.tmp', 'wb')
        procs.append((out, cmd, subprocess.Popen(cmd, stdout=fo, stderr=subprocess.PIPE), fo))
    bad = None
    for out, cmd, p, fo in procs:
        _, err = p.communicate(); fo.close()
        if p.returncode: bad = '%s: %s' % (cmd, err.decode('latin1')[-500:])
        else: os.rename(out + '.tmp', out)
    if bad: raise BuildError('generator failed: ' + bad)
    return [os.path.join(scratch(), n + '.c') for n in names]


def probe(includes, exprs):
    """evaluate constant expressions (offsetof/sizeof/enum) from the current sources, at compile time"""
    p = os.path.join(scratch(), 'probe.c')
    with open(p, 'w') as f:
        f.write('#include <stddef.h>\n#include <stdint.h>\n')
        for i in includes: f.write('#include "%s"\n' % i)
        for k, e in enumerate(exprs):
            f.write('const long long __probe_%d = (long long) (%s);\n' % (k, e))
    bc = compile_bc(p)
    m = llvmir.Module(bc)
    out = []
    for k in range(len(exprs)):
        c = m.global_cells('__probe_%d' % k).get(0)
        v = c[1].v if c else 0
        if v >= 1 << 63: v -= 1 << 64
        out.append(v)
    return out


def layout(includes, struct, fields):
    ex = ['sizeof(struct %s)' % struct]
    for f in fields:
        ex.append('offsetof(struct %s, %s)' % (struct, f)); ex.append('sizeof(((struct %s *) 0)->%s)' % (struct, f))
    v = probe(includes, ex)
    d = {'__size': v[0]}
    for i, f in enumerate(fields): d[f] = v[1 + 2 * i]; d[f + '.size'] = v[2 + 2 * i]
    return d
