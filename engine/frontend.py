"""Front end: /repo's current sources -> one linked, normalised LLVM module per program.

The compilation database comes from running the repository's own CMake configuration
(both CI configurations) in a scratch directory.  Every translation unit is compiled by
clang-18 to unoptimised IR with debug information, the units of each program are linked,
and the result is normalised:

  * functions with internal linkage (and any other function named in `inline`) are
    inlined, so that extracting or merging a static helper does not change the analysed
    form;  recursive functions and functions in `keep` stay;
  * locals are promoted to SSA values (sroa), redundant loads are merged (early-cse).

Nothing of /repo is executed.
"""
import concurrent.futures, hashlib, json, os, re, shlex, subprocess, sys, tempfile, shutil, glob

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, '.cache')
CLANG, LINK, OPT, DIS = 'clang-18', 'llvm-link-18', 'opt-18', 'llvm-dis-18'


class AnalysisBroken(Exception):
    """An anchor vanished or the sources cannot be analysed: an error exit, never a verdict."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise AnalysisBroken('command failed: %s\n%s' % (
            ' '.join(cmd)[:400], p.stderr.decode('utf-8', 'replace')[-3000:]))
    return p.stdout


def source_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        for f in sorted(fs):
            files.append(os.path.join(root, f))
    files += [os.path.join(REPO, 'CMakeLists.txt'), os.path.join(REPO, 'config.h.in')]
    files += sorted(glob.glob(os.path.join(REPO, 'cmake', '**'), recursive=True))
    files.append(os.path.abspath(__file__))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode())
            with open(f, 'rb') as fd:
                h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()[:24]


CONFIGS = {
    'split': ['-DBUILD_BLOGC_GIT_RECEIVER=ON', '-DBUILD_BLOGC_MAKE=ON', '-DBUILD_BLOGC_RUNSERVER=ON'],
    'embedded': ['-DBUILD_BLOGC_MAKE_EMBEDDED=ON'],
}

# program -> (configuration, cmake targets that make it up)
PROGRAMS = {
    'blogc': ('split', ['blogc', 'libblogc', 'libblogc_common']),
    'blogc-embedded': ('embedded', ['blogc', 'libblogc', 'libblogc_make', 'libblogc_common']),
    'make': ('split', ['blogc-make', 'libblogc_make', 'libblogc_common']),
    'runserver': ('split', ['blogc-runserver', 'libblogc_runserver', 'libblogc_common']),
    'receiver': ('split', ['blogc-git-receiver', 'libblogc_git_receiver', 'libblogc_common']),
}


def _configure(name, out):
    # a private copy of the tree without build products; version.cmake is what release
    # tarballs carry instead of a git tag
    src = os.path.join(out, 'src-' + name)
    bld = os.path.join(out, 'bld-' + name)
    os.makedirs(src)
    for e in ('CMakeLists.txt', 'config.h.in', 'LICENSE', 'README.md'):
        p = os.path.join(REPO, e)
        if os.path.exists(p):
            os.symlink(p, os.path.join(src, e))
    for e in ('src', 'man', 'cmake', 'tests'):
        os.symlink(os.path.join(REPO, e), os.path.join(src, e))
    with open(os.path.join(src, 'version.cmake'), 'w') as f:
        f.write('set(BLOGC_VERSION "0.0.0")\n')
    env = dict(os.environ, CC='gcc')
    run(['cmake', '-S', src, '-B', bld, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
         '-DBUILD_TESTING=OFF', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'] + CONFIGS[name], env=env)
    with open(os.path.join(bld, 'compile_commands.json')) as f:
        db = json.load(f)
    res = []
    for e in db:
        m = re.search(r'CMakeFiles/([^/]+)\.dir/', e['command'])
        args = shlex.split(e['command'])
        flags = [a for a in args if a.startswith(('-D', '-I', '-std', '-U'))]
        path = e['file']
        if path.startswith(src + '/'):
            path = REPO + path[len(src):]
        path = os.path.normpath(path)
        res.append((m.group(1), path, flags))
    return res


def _compile(job):
    path, flags, out = job[:3]
    flags = list(flags) + list(job[3] if len(job) > 3 else ())
    run([CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names',
         '-w', '-S', '-emit-llvm', '-o', out] + flags + [path])
    with open(out) as f:
        t = f.read()
    t = re.sub(r'^(attributes #\d+ = \{.*?)\bnoinline ', r'\1', t, flags=re.M)
    with open(out, 'w') as f:
        f.write(t)


def base_modules(extra=()):
    """compile everything; returns directory with <program>.ll (linked, not normalised)"""
    os.makedirs(CACHE, exist_ok=True)
    key = source_hash()
    if extra:
        key += '-' + hashlib.sha256(repr(extra).encode()).hexdigest()[:8]
    final = os.path.join(CACHE, key)
    if os.path.exists(os.path.join(final, 'ok')):
        return final
    tmp = tempfile.mkdtemp(prefix='fe-', dir=CACHE)
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            dbs = dict(zip(CONFIGS, ex.map(lambda n: _configure(n, tmp), CONFIGS)))
            jobs, seen = [], {}
            for cfg, db in dbs.items():
                for tgt, path, flags in db:
                    # the include path of config.h differs per configuration, its content does not
                    k = (path, tuple(f for f in flags if not f.startswith('-I')))
                    if k not in seen:
                        seen[k] = os.path.join(tmp, 'u%d.ll' % len(seen))
                        jobs.append((path, flags, seen[k], extra))
            list(ex.map(_compile, jobs))
            units = {}
            cmds = []
            for prog, (cfg, tgts) in PROGRAMS.items():
                us = []
                for tgt, path, flags in dbs[cfg]:
                    if tgt in tgts:
                        k = (path, tuple(f for f in flags if not f.startswith('-I')))
                        us.append((path, seen[k]))
                if not us:
                    raise AnalysisBroken('no translation units for program ' + prog)
                units[prog] = [os.path.relpath(p, REPO) for p, _ in us]
                cmds.append([LINK, '-S', '-o', os.path.join(tmp, prog + '.ll')] + [u for _, u in us])
            list(ex.map(run, cmds))
        with open(os.path.join(tmp, 'units.json'), 'w') as f:
            json.dump(units, f)
        for d in glob.glob(os.path.join(tmp, 'src-*')) + glob.glob(os.path.join(tmp, 'bld-*')):
            shutil.rmtree(d)
        open(os.path.join(tmp, 'ok'), 'w').close()
        try:
            os.rename(tmp, final)
        except OSError:
            shutil.rmtree(tmp)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    # keep the cache small
    ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE)]
    ds = sorted((d for d in ds if d != final and os.path.isdir(d) and not os.path.basename(d).startswith('fe-')),
                key=os.path.getmtime)
    for d in ds[:-4]:
        shutil.rmtree(d, ignore_errors=True)
    return final


PASSES = 'function(sroa,early-cse<memssa>)'
# (with recognisable initial values nothing may be folded)
PLAIN = 'function(sroa)'

# the functions with external linkage of the pinned tree: these stay call boundaries; a function that
# somebody extracts later is inlined whether or not it is static
with open(os.path.join(HERE, 'engine', 'public-functions.txt')) as _f:
    PUBLIC = set(_f.read().split())


def _scc_recursive(defs, calls):
    # functions on a call cycle (direct calls only)
    index, low, st, on, res = {}, {}, [], set(), set()
    sys.setrecursionlimit(10000)

    def dfs(v):
        index[v] = low[v] = len(index)
        st.append(v); on.add(v)
        for w in calls[v]:
            if w not in defs:
                continue
            if w not in index:
                dfs(w); low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            comp = []
            while True:
                w = st.pop(); on.discard(w); comp.append(w)
                if w == v:
                    break
            if len(comp) > 1 or v in calls[v]:
                res.update(comp)
    for v in defs:
        if v not in index:
            dfs(v)
    return res


def normalised(prog, mode='static', keep=(), inline=(), extra=()):
    """mode: 'none' (no inlining), 'static' (inline internal-linkage functions),
    'all' (inline every non-recursive defined function except `keep`)."""
    base = base_modules(tuple(extra))
    tag = hashlib.sha256(repr((prog, mode, sorted(keep), sorted(inline), PASSES)).encode()).hexdigest()[:12]
    out = os.path.join(base, '%s-%s.ll' % (prog, tag))
    if not os.path.exists(out):
        with open(os.path.join(base, prog + '.ll')) as f:
            text = f.read()
        _normalise(text, out, mode, keep, inline, PLAIN if extra else None)
    return out


def _normalise(text, out, mode, keep, inline, passes=None):
    if True:
        defs, cur = {}, None
        lines = text.split('\n')
        calls = {}
        for ln in lines:
            if ln.startswith('define '):
                m = re.search(r'@([\w.$]+)\(', ln)
                cur = m.group(1)
                defs[cur] = ' internal ' in ln.split('@')[0]
                calls[cur] = set()
            elif ln == '}':
                cur = None
            elif cur and ' call ' in ln:
                m = re.search(r'call [^@]*@([\w.$]+)\(', ln)
                if m:
                    calls[cur].add(m.group(1))
        rec = _scc_recursive(defs, calls)
        todo = set()
        for f, internal in defs.items():
            if f in rec or f in keep or f == 'main' or mode == 'none':
                continue
            if f in inline or mode == 'all' or (mode == 'static' and (internal or f not in PUBLIC)):
                todo.add(f)
        res = []
        for ln in lines:
            if ln.startswith('define '):
                m = re.search(r'@([\w.$]+)\(', ln)
                if m.group(1) in todo:
                    ln = re.sub(r'(\) )(#\d+)', r'\1alwaysinline \2', ln, count=1)
            res.append(ln)
        tmp = '%s.%d.tmp' % (out, os.getpid())
        with open(tmp, 'w') as f:
            f.write('\n'.join(res))
        passes = ('always-inline,' if todo else '') + (passes or PASSES)
        run([OPT, '-S', '-passes=' + passes, '-o', tmp + '2', tmp])
        os.unlink(tmp)
        os.rename(tmp + '2', out)
    return out


def snippet(code, name='snippet', extra=()):
    """compile a small C text (the positive examples of the rules) to a normalised module"""
    os.makedirs(CACHE, exist_ok=True)
    d = tempfile.mkdtemp(prefix='fe-', dir=CACHE)
    try:
        src = os.path.join(d, name + '.c')
        with open(src, 'w') as f:
            f.write(code)
        o = os.path.join(d, name + '.ll')
        _compile((src, ['-std=gnu99', '-D_GNU_SOURCE', '-I', os.path.join(REPO, 'src')], o, extra))
        with open(o) as f:
            text = f.read()
        _normalise(text, o + '.n', 'static', (), (), PLAIN if extra else None)
        from . import ir
        return ir.Module(o + '.n', 'snippet')
    finally:
        shutil.rmtree(d)
