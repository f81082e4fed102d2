"""Rendering depends on nothing but its inputs: what varies between runs is reachable only through the documented variables."""
import os, re
from engine import frontend, ir, lib, flow, ditypes, uninit
from engine.paths import Rule, Engine, Sym
from engine.ir import walk

VARY = set('''time clock clock_gettime gettimeofday ftime timespec_get times getrusage rand random srand srandom rand_r drand48 lrand48 mrand48
erand48 nrand48 jrand48 srand48 initstate arc4random arc4random_uniform arc4random_buf getrandom getentropy getpid getppid gettid pthread_self
thrd_current getuid geteuid getgid getegid getlogin getlogin_r cuserid getpwuid getpwnam getpwent getpwuid_r getpwnam_r getgrgid getgrnam
gethostname gethostid gethostbyname gethostbyaddr getaddrinfo getnameinfo getdomainname uname sysinfo sysconf getloadavg getcwd
get_current_dir_name getenv secure_getenv mkstemp mkdtemp tmpnam tmpfile tempnam mktemp stat lstat fstat fstatat statx stat64 lstat64 fstat64
readdir readdir_r scandir glob ftw nftw fts_open opendir localtime localtime_r ctime ctime_r isatty ttyname getpgrp getsid mallinfo sbrk
__rdtsc llvm.readcyclecounter llvm.returnaddress llvm.frameaddress system popen fork vfork getppid getpriority backtrace readlink
nrand48_r getauxval confstr pathconf __xstat __lxstat __fxstat'''.split())
OPEN = {'fopen': 0, 'fopen64': 0, 'open': 0, 'open64': 0, 'freopen': 0, 'openat': 1}
MAN = 'man/blogc-template.7.ronn'


def cstr(mod, op):
    if op[0] == 'g':
        g = mod.globals.get(op[1])
        if g is not None and g.const and g.init is not None and g.init[0] == 'str':
            return g.init[1].split(b'\0')[0].decode('utf-8', 'replace')
    return None


def tables(mod):
    """{global: [(name, function)]} constant tables of names with functions"""
    r = {}
    for g in mod.globals.values():
        if g.init is None or g.init[0] != 'agg' or not g.const:
            continue
        for e in g.init[1]:
            if e[0] != 'agg':
                continue
            n = [cstr(mod, x) for x in e[1] if x[0] == 'g' and cstr(mod, x) is not None]
            f = [x[1] for x in e[1] if x[0] == 'g' and x[1] in mod.fns]
            if n and f:
                r.setdefault(g.name, []).append((n[0], f[0]))
    return r


def guarded(mod, only=None):
    """direct calls on the condition that a text equals a constant: {instruction: name}"""
    r = {}
    for fn in lib.own(mod):
        for i in fn.calls():
            if i.callee not in mod.fns:
                continue
            for op, c in lib.const_guards(fn, i.block):
                d = fn.defs.get(op[1]) if op[0] == 'l' else None
                if c == 0 and d is not None and d.callee == 'strcmp':
                    for a in d.args:
                        n = cstr(mod, a)
                        if n and re.fullmatch(r'[A-Z][A-Z0-9_]*', n):
                            r[i] = n
    return r


def reach(mod, roots, cut, cutcalls):
    """functions reachable without passing through the tables or the guarded calls"""
    seen, par = set(roots), {}
    work = list(roots)
    while work:
        f = work.pop()
        fn = mod.fns.get(f)
        if fn is None:
            continue
        nxt = set()
        names = set()
        for i in fn.instrs():
            if i.op == 'call' and i.extra['name'] and i not in cutcalls:
                names.add(i.extra['name'])
            ops = list(ir.operands(i))
            if i.op == 'call':
                ops = list(i.args) + ([i.extra['fnop']] if i.callee is None else [])
            for a in ops:
                for x in walk(a):
                    if x[0] == 'g':
                        names.add(x[1])
        done = set()
        while names:
            n = names.pop()
            if n in done or n in cut:
                continue
            done.add(n)
            if n in mod.fns or n in mod.decls:
                nxt.add(n)
            elif n in mod.globals and mod.globals[n].init is not None:
                names |= {x[1] for x in walk(mod.globals[n].init) if x[0] == 'g'}
        for n in sorted(nxt):
            if n not in seen:
                seen.add(n)
                par[n] = f
                work.append(n)
    return seen, par


# ---- what a variable function stores

def keys_of(mod, f, seen=None):
    """[(name or None, call)] under which the function stores something in the map it is given"""
    seen = set() if seen is None else seen
    if f in seen or f not in mod.fns:
        return []
    seen.add(f)
    r = []
    fn = mod.fns[f]
    for i in fn.calls():
        if i.callee == 'bc_trie_insert':
            for o in sorted(lib.origins(fn, i.args[1]), key=repr):
                r.append((cstr(mod, o), i))
        elif i.callee in mod.fns and not i.callee.startswith('bc_'):
            r += keys_of(mod, i.callee, seen)
    return r


# ---- the dispatch

class Dispatch(Rule):
    """items: ('look', Sym, map, key) result of a lookup; ('cmp', Sym, a, b) result of a comparison; settled to
    ('absent', map, key), ('equal', a, b)"""

    def __init__(s, mod, fn, tabs, calls):
        s.mod, s.f, s.tabs, s.calls = mod, fn, tabs, calls
        s.bad, s.sites, s.wait, s.apart = {}, set(), {}, False

    def init(s, fn):
        return frozenset()

    def settle(s, ts, cx):
        out = set()
        for x in ts:
            if x[0] == 'look':
                n = cx.null(('s', x[1]))
                if n is True:
                    out.add(('absent', x[2], x[3]))
                elif n is None:
                    out.add(x)
            elif x[0] == 'cmp':
                n = cx.null(('s', x[1]))
                if n is True:
                    out.add(('equal', x[2], x[3]))
                elif n is None:
                    out.add(x)
            else:
                out.add(x)
        return frozenset(out)

    def edge(s, ts, frm, to, cx):
        return s.settle(ts, cx)

    def after(s, ts, ins, cx):
        v = cx.val(('l', ins.res)) if ins.res is not None else None
        if ins.callee == 'bc_trie_lookup' and v is not None and v[0] == 's':
            return ts | {('look', v[1], cx.val(ins.args[0]), cx.val(ins.args[1]))}
        if ins.callee in ('strcmp',) and v is not None and v[0] == 's':
            out = set(ts)
            for k in (0, 1):
                e = s.index(ins.args[k])
                if e is not None:
                    out.add(('cmp', v[1], s.at(e, cx), cx.val(ins.args[1 - k])))
            return frozenset(out)
        return ts

    def instr(s, ts, ins, cx):
        if ins not in s.calls:
            return ts
        ts = s.settle(ts, cx)
        s.sites.add(ins)
        name = s.calls[ins]
        m = cx.val(ins.args[0]) if ins.args else None
        absent = [x for x in ts if x[0] == 'absent' and x[1] == m]
        if not absent:
            s.wait.setdefault(ins, (m, cx.trace()))
        if name is None:
            # through the table: the name of the same entry must be equal to the requested one
            e = s.index(ins.extra['fnop'])
            d = s.f.defs.get(e[0][1]) if e is not None and e[0][0] == 'l' else None
            ok = d is not None and d.op == 'call' and not e[1]
            if ok:
                s.apart = True
            at = s.at(e, cx) if e is not None else None
            for x in ts:
                if x[0] == 'equal' and x[1] == at and (not absent or any(y[2] == x[2] for y in absent)):
                    ok = True
            if not ok:
                s.bad.setdefault(('entry', ins), (ins, 'the function of a table entry is called although the requested name was not found '
                                                  'to equal the name of that entry (or another name was looked up before)', cx.trace()))
        return ts

    def at(s, e, cx):
        return (cx.val(e[0]), e[1])

    def index(s, op):
        d = s.f.defs.get(op[1]) if op[0] == 'l' else None
        return s.elem(d.args[0]) if d is not None and d.op == 'load' else None

    def elem(s, op):
        n = 0
        idx = ()
        while op[0] == 'l' and n < 10:
            n += 1
            d = s.f.defs.get(op[1])
            if d is None or d.op != 'getelementptr':
                break
            v = tuple(x for x in d.args[1:] if x[0] == 'l')
            if v:
                idx = v + idx
            op = d.args[0]
        return (op, idx)


# ---- state that outlives a call

def strip(fn, v):
    """the value behind width conversions: ('c', n) | instruction"""
    n = 0
    while n < 20:
        n += 1
        if v[0] == 'c':
            return v
        if v[0] == 'i':
            return ('c', v[1])
        if v[0] == 'null':
            return ('c', 0)
        nm = v[1] if v[0] in 'ls' else None
        d = fn.defs.get(nm)
        if d is None:
            return v
        if d.op in ('zext', 'trunc', 'sext', 'freeze', 'bitcast'):
            v = d.args[0]
            continue
        return ('d', d)
    return v


class Memo(Rule):
    def __init__(s, fn, glob):
        s.f, s.glob = fn, glob
        s.carried, s.rets = {}, []

    def init(s, fn):
        return frozenset()

    def cell(s, op):
        b, off = ditypes.base_off(s.f, op)
        return (b[1], off) if b[0] == 'g' and b[1] in s.glob else None

    def instr(s, ts, ins, cx):
        if ins.op == 'store':
            c = s.cell(ins.args[1])
            if c:
                v = cx.val(ins.args[0])
                ts = frozenset(x for x in ts if x[0] != 'st' or x[1] != c) | {('st', c, v if v[0] == 'c' or v[1] in s.f.defs else ('?', ins.res))}
        elif ins.op == 'load':
            c = s.cell(ins.args[0])
            if c and not any(x[0] == 'st' and x[1] == c for x in ts):
                s.carried.setdefault(c, ins)
        elif ins.op == 'call':
            # a call that is handed the cell may set it
            for a in ins.args:
                c = s.cell(a) if a[0] in ('g', 'gep', 'l') else None
                if c:
                    ts = frozenset(x for x in ts if x[0] != 'st' or x[1] != c) | {('st', c, ('?', None))}
        elif ins.op == 'ret' and ins.args:
            s.rets.append((ins, strip(s.f, cx.val(ins.args[0])), ts, cx.trace()))
        return ts


def statics(rep, prog, mod, fns, tonly):
    glob = {g.name for g in mod.globals.values() if not g.const and not g.extern and not g.name.startswith('.str')}
    used = set()
    for f in sorted(fns):
        fn = mod.fns.get(f)
        if fn is None:
            continue
        if not any(x[0] == 'g' and x[1] in glob for i in fn.instrs() for a in i.args for x in walk(a)):
            continue
        m = Memo(fn, glob)
        Engine(fn, m, 100000).run()
        used |= {c[0] for c in m.carried}
        rep.count('functions that use static variables', 1, f)
        if not m.carried:
            continue
        if f not in tonly:
            for c, i in sorted(m.carried.items(), key=repr):
                rep.violation('%s:state:%s:%s' % (prog, f, c[0]), i.loc(),
                              'what an earlier call left in %s is used, so that the result depends on what happened before' % c[0])
            continue
        # cached results: what is returned when the cache is used must be what was returned when it was filled
        ret = {}
        for ins, v, ts, tr in m.rets:
            if v[0] == 'd' and v[1].op == 'load' and m.cell(v[1].args[0]) in m.carried:
                ret.setdefault(m.cell(v[1].args[0]), ins)
        for c in ret:
            for ins, v, ts, tr in m.rets:
                if not any(x[0] == 'st' for x in ts):
                    continue
                st = [x[2] for x in ts if x[0] == 'st' and x[1] == c]
                rep.count('ways out of caching functions', 1)
                if v[0] == 'd' and v[1].op == 'load' and m.cell(v[1].args[0]) == c:
                    continue
                if st and st[0][0] == '?':
                    continue
                if not st or strip(fn, st[0]) != v:
                    rep.violation('%s:memo:%s' % (prog, f), ins.loc(), 'the value that is returned is not the one that is kept in %s for '
                                  'the next call' % c[0], tr)


# ---- the check

def analyse(rep, prog, mod, man=None, root='main'):
    tabs = tables(mod)
    if not any(i.callee is None and i.op == 'call' for fn in lib.own(mod) for i in fn.instrs()):
        tabs = {}
    gd = guarded(mod)
    # only functions that lead to something that varies count as variable functions
    tf = {}
    for t, es in tabs.items():
        for n, f in es:
            tf.setdefault(f, set()).add(n)
    vary = {}
    for f in mod.fns:
        r, _ = reach(mod, [f], set(), set())
        if r & VARY:
            vary[f] = 1
    gcalls = {i: n for i, n in gd.items() if i.callee in vary and i.fn.name != 'main'}
    for i, n in gcalls.items():
        tf.setdefault(i.callee, set()).add(n)
    cut = {t for t in tabs if any(f in vary for n, f in tabs[t])}
    normal, par = reach(mod, [root], cut, set(gcalls))
    all_, _ = reach(mod, [root], set(), set())
    var = {f for t in cut for n, f in tabs[t]} | {i.callee for i in gcalls}
    rep.count('functions reached without a variable function', len([f for f in normal if f in mod.fns]))
    rep.count('documented variable functions', len(var))

    # sources of variation
    for f in sorted(normal):
        if f not in mod.fns:
            continue
        fn = mod.fns[f]
        for i in fn.instrs():
            if i.op == 'call':
                rep.count('calls examined', 1)
                if i.callee in VARY:
                    rep.violation('%s:vary:%s:%s' % (prog, f, i.callee), i.loc(), '%s() gives something else in every run and is called outside of '
                                  'the documented variables (%s)' % (i.callee, ' -> '.join(lib.chain(par, f))))
                for k, a in enumerate(i.args):
                    t = cstr(mod, a)
                    if t and re.search(r'%[-+ #0-9.]*p', t):
                        rep.violation('%s:address:%s' % (prog, f), i.loc(), 'an address is printed')
            for a in ir.operands(i):
                for x in walk(a):
                    if x[0] == 'g' and x[1] in ('environ', '__environ', '_environ', 'program_invocation_name'):
                        rep.violation('%s:environ:%s' % (prog, f), i.loc(), 'the environment is read')
    m = mod.fns.get(root)
    if m is not None and root == 'main' and len(m.params) > 2:
        rep.violation('%s:environ:main' % prog, next(m.instrs()).loc() if hasattr(m.instrs(), '__next__') else list(m.instrs())[0].loc(), 'the environment is read')

    # files with fixed names
    fl = flow.Flow(mod)
    for f in sorted(normal):
        if f not in mod.fns:
            continue
        fn = mod.fns[f]
        for i in fn.instrs():
            if i.op != 'call' or i.callee is None:
                continue
            k = OPEN.get(i.callee)
            if k is None and i.callee in ('bc_file_get_contents',):
                k = 0
            if k is None:
                continue
            rep.count('file names traced', 1)
            for o in sorted(lib.origins(fn, i.args[k], lib.COPIES), key=repr):
                t = cstr(mod, o)
                if t is not None and t not in ('-', ''):
                    rep.violation('%s:file:%s' % (prog, f), i.loc(), 'the file %s is read although it is not named by the user' % t)

    # variable functions
    doc = None
    if man is not None:
        doc = set(re.findall(r'`([A-Z][A-Z0-9_]*)`', man))
    for f in sorted(var):
        ks = keys_of(mod, f)
        names = tf[f]
        for k, i in ks:
            rep.count('stored variables compared with the table', 1, k)
            if k is None:
                rep.violation('%s:name:%s' % (prog, f), i.loc(), 'a variable is stored under a name that is not fixed')
            elif k not in names and f in mod.fns:
                rep.violation('%s:name:%s:%s' % (prog, f, k), i.loc(), '%s is stored by a function that is registered for %s' % (k, ', '.join(sorted(names))))
        have = {k for k, i in ks}
        for n in sorted(names - have):
            if ks:
                rep.violation('%s:unset:%s' % (prog, n), ks[0][1].loc(), 'the function registered for %s never stores it' % n)
        if doc is not None:
            for n in sorted(names):
                rep.count('variables looked up in the manual', 1, n)
                if n not in doc:
                    fn = mod.fns[f]
                    rep.violation('%s:undocumented:%s' % (prog, n), list(fn.instrs())[0].loc(), 'the variable %s varies between runs but is not documented as such' % n)

    # dispatch
    for fn in lib.own(mod):
        calls = {}
        for i in fn.calls():
            if i in gcalls:
                calls[i] = gcalls[i]
            elif i.callee is None:
                op = i.extra['fnop']
                d = fn.defs.get(op[1]) if op[0] == 'l' else None
                if d is not None and d.op == 'load':
                    b = ditypes.base_off(fn, d.args[0])[0]
                    for _, o in fl.roots(fn, b):
                        n = 0
                        while o[0] == 'gep' and n < 5:
                            n, o = n + 1, o[1]
                        if o[0] == 'g' and o[1] in cut:
                            calls[i] = None
        if not calls:
            continue
        d = Dispatch(mod, fn, tabs, calls)
        Engine(fn, d, 100000).run()
        rep.count('calls of variable functions', len(d.sites))
        if d.apart:
            rep.count('searches of the table in another function (not decided)')
        for k, (ins, msg, tr) in d.bad.items():
            rep.violation('%s:dispatch:%s' % (prog, fn.name), ins.loc(), msg, tr)
        for ins, (m, tr) in d.wait.items():
            if callers_guard(mod, fn, ins):
                continue
            rep.violation('%s:again:%s' % (prog, fn.name), ins.loc(), 'a variable is evaluated although it may have a value already', tr)

    statics(rep, prog, mod, all_, all_ - normal)
    return var


class Absent(Dispatch):
    pass


def callers_guard(mod, fn, ins):
    """do all callers look the name up before?"""
    cs = list(lib.callers(mod, fn.name))
    if not cs:
        return False
    for cf, ci in cs:
        d = Dispatch(mod, cf, {}, {ci: ''})
        Engine(cf, d, 200000).run()
        if ci in d.wait:
            return False
    return True


def run(rep, tier):
    rep.rule("Library calls whose result differs between runs (time, randomness, process, user, host, environment, directory listings, "
             "file status) and files with fixed names are reachable from main only through the functions that the table of variables "
             "names. Each of these functions stores exactly the variables it is registered for, each of them documented, and is called only "
             "when the name has no value yet and equals the name of its entry. No other function uses what an earlier call left in a static "
             "variable; a cached result is the one that was returned. No address is printed; no value is used before it is set.")
    rep.assumption('the locale and the timezone are inputs, as documented (see C16 for the declared time)')
    mod = ir.load('blogc')
    p = os.path.join(frontend.REPO, MAN)
    man = open(p, encoding='utf-8').read() if os.path.exists(p) else None
    analyse(rep, 'blogc', mod, man)
    rep.floor('documented variable functions', 3)
    rep.floor('functions reached without a variable function', 40)
    rep.floor('calls of variable functions', 1)
    uninit.analyse(rep, 'blogc', ir.load('blogc', extra=uninit.FLAGS))

    def ex(**kw):
        q = lib.Quiet()
        analyse(q, 'x', frontend.snippet(BASE % dict(GOOD, **kw)), '`BLOGC_A` `BLOGC_B`')
        return q.v

    def has(x, v):
        return any(x in k for k in v)
    rep.selftest('clean', ex() == [])
    rep.selftest('time', has('vary:', ex(body='srand(1); if (argc > 3) return rand();')))
    rep.selftest('file', has('file:', ex(body='fopen("/etc/hostname", "r");')))
    rep.selftest('address', has('address:', ex(body='printf("%%p", argv);'.replace('%%', '%'))))
    rep.selftest('name', has('name:', ex(key='BLOGC_C')) and has('unset:', ex(key='BLOGC_C')))
    rep.selftest('doc', has('undocumented:', ex(entry='BLOGC_C')))
    rep.selftest('again', has('again:', ex(look='0')))
    rep.selftest('entry', has('dispatch:', ex(cmp='strncmp(name, funcs[i].name, 4)')) and has('dispatch:', ex(idx='i + 1')))
    rep.selftest('memo', has('memo:', ex(memo='bool inside')))
    rep.selftest('state', has('state:', ex(body='static int n; n++; return n;')))
    rep.selftest('buffer', ex(body='static int n; n = argc; n++; return n;') == [])


GOOD = dict(body='', key='BLOGC_A', entry='BLOGC_A', look='bc_trie_lookup(global, name) != NULL', cmp='strcmp(name, funcs[i].name)', idx='i',
            memo='inside')
BASE = r"""
#include <stdlib.h>
#include <stdbool.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
typedef struct bc_trie bc_trie_t;
void bc_trie_insert(bc_trie_t *t, const char *k, void *v);
void *bc_trie_lookup(bc_trie_t *t, const char *k);
char *bc_strdup(const char *s);
static bool evaluated = false, inside = false;
__attribute__((noinline)) bool blogc_sysinfo_get_inside_docker(void) { if (evaluated) return inside; evaluated = true; const char *e = getenv("X");
  if (e == NULL) { inside = false; return false; } %(memo)s = e[0] != 0; return inside; }
void blogc_sysinfo_inject_datetime(bc_trie_t *g) { bc_trie_insert(g, "%(key)s", bc_strdup(time(NULL) > 3 ? "a" : "b")); }
void blogc_sysinfo_inject_inside_docker(bc_trie_t *g) { if (blogc_sysinfo_get_inside_docker()) bc_trie_insert(g, "BLOGC_B", bc_strdup("1")); }
static const struct { const char *name; void (*f)(bc_trie_t *); } funcs[] = { {"%(entry)s", blogc_sysinfo_inject_datetime}, {"BLOGC_B", blogc_sysinfo_inject_inside_docker}, {NULL, NULL} };
void blogc_funcvars_eval(bc_trie_t *global, const char *name)
{
    if (%(look)s) return;
    for (size_t i = 0; funcs[i].name != NULL; i++) {
        if (0 == %(cmp)s) {
            funcs[%(idx)s].f(global);
            return;
        }
    }
}
int main(int argc, char **argv)
{
    %(body)s
    blogc_funcvars_eval((bc_trie_t*) argv[0], argv[1]);
    return 0;
}
"""
