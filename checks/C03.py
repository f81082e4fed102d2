"""Every file the server opens for a request has been resolved and compared with the resolved document root."""
import re
from engine import frontend, ir, lib, ditypes
from engine.paths import Rule, Engine, Sym

OPENS = {'open': 0, 'open64': 0, 'fopen': 0, 'fopen64': 0, 'opendir': 0, 'scandir': 0, 'openat': 1, 'openat64': 1, 'freopen': 0,
         'readlink': 0, 'mmap': None}
# write through the first argument
WRITERS = set('''strcat strncat strcpy strncpy stpcpy sprintf snprintf vsprintf vsnprintf memcpy memmove memset strtok strtok_r
strsep strlcpy strlcat bcopy'''.split())
PREFIXCMP = {'strncmp', 'memcmp', '__strncmp', 'bcmp'}
INPUT = {'read', 'recv', 'recvfrom', 'recvmsg', 'fgets', 'getline', 'fread', 'fgetc', 'getc'}


def reads_input(mod, memo={}):
    """functions that (transitively) read from a descriptor"""
    r = set()
    for f in mod.fns:
        seen, _ = lib.reachable(mod, [f])
        if seen & INPUT and 'open' not in seen and 'fopen' not in seen:
            r.add(f)
    return r | INPUT


def taint(fn, sources):
    """values that carry text of the request"""
    t = set()
    ch = True
    while ch:
        ch = False
        for i in fn.instrs():
            if i.res is None or i.res in t:
                continue
            hot = i.op == 'call' and i.callee in sources
            if not hot and i.op != 'icmp':
                for a in (ir.operands(i) if i.op != 'phi' else [v for v, _ in i.extra]):
                    if any(x[0] == 'l' and x[1] in t for x in ir.walk(a)):
                        hot = True
            if hot:
                t.add(i.res)
                ch = True
            if i.op == 'call' and i.callee in sources | WRITERS and hot is not None:
                for a in i.args:
                    if a[0] == 'l' and a[1] in fn.defs and fn.defs[a[1]].op == 'alloca' and (
                            i.callee in sources or any(b[0] == 'l' and b[1] in t for b in i.args)):
                        if a[1] not in t:
                            t.add(a[1])
                            ch = True
    return t


def summaries(mod):
    """{function: set of parameters it opens as they are}; open calls whose path is anything else stay obligations"""
    s = {f: set() for f in mod.fns}
    ch = True
    while ch:
        ch = False
        for f, fn in mod.fns.items():
            ps = [p for p, _ in fn.params]
            for i, a in open_args(mod, fn, s):
                for o in lib.origins(fn, a, lib.COPIES, geps=False):
                    if o[0] == 'l' and o[1] in ps and ps.index(o[1]) not in s[f]:
                        s[f].add(ps.index(o[1]))
                        ch = True
    return s


def open_args(mod, fn, summ):
    for i in fn.instrs():
        if i.op != 'call' or i.callee is None:
            continue
        if i.callee in OPENS and OPENS[i.callee] is not None:
            yield i, i.args[OPENS[i.callee]]
        elif i.callee in summ:
            for k in sorted(summ[i.callee]):
                if k < len(i.args):
                    yield i, i.args[k]


def offset_of(cx, fn, idx, base_len):
    """idx - base_len as a constant, if the index is the length plus a constant"""
    off = 0
    n = 0
    while n < 8:
        n += 1
        v = cx.val(idx)
        if v == base_len:
            return off
        d = fn.defs.get(idx[1]) if idx[0] == 'l' else None
        if d is None:
            return None
        if d.op in ('zext', 'sext', 'trunc'):
            idx = d.args[0]
        elif d.op == 'add' and d.args[1][0] == 'i':
            off += d.args[1][1]
            idx = d.args[0]
        elif d.op == 'sub' and d.args[1][0] == 'i':
            off -= d.args[1][1]
            idx = d.args[0]
        else:
            return None
    return None


class Contain(Rule):
    """typestate: what is known about path values on this path
    ('canon', p)        p was returned by realpath
    ('root', r, slash)  r is the resolved document root (with '/' appended)
    ('len', n, r)       n = strlen(r)
    ('cmp', v, r, p)    v = strncmp(r, p, strlen(r))
    ('eq', v, r, p)     v = strcmp(r, p)
    ('byte', c, p, n)   c = p[n];  ('last', c, r)  c = last byte of r
    ('in', p, r)        p starts with r;  ('bound', p, r)  the match ends at a path component"""

    def __init__(s, fn, rep, summ, tainted):
        s.f, s.rep, s.summ, s.t = fn, rep, summ, tainted
        s.mod = fn.module
        s.obl = {}
        for i, a in open_args(s.mod, fn, summ):
            s.obl.setdefault(i, []).append(a)
        s.ps = [p for p, _ in fn.params]

    def init(s, fn):
        return frozenset()

    def pure_call(s, ins):
        return True if ins.callee in ('realpath', 'stat', 'lstat', 'access', 'stat64') else None

    def hot(s, op):
        return any(x[0] == 'l' and x[1] in s.t for x in ir.walk(op))

    def dirty(s, ts, ins, cx):
        """calls that may change the text behind a path value"""
        drop = set()
        for k, a in enumerate(ins.args):
            v = cx.val(a)
            if v[0] != 's':
                continue
            if ins.callee in WRITERS and k == 0:
                drop.add(v)
            elif ins.callee == 'realpath' and k == 1:
                drop.add(v)
            elif ins.callee in s.mod.fns:
                ty = ditypes.subprogram(s.mod, s.mod.fns[ins.callee])
                if ty and len(ty) > k + 1:
                    p = ditypes.pointee(s.mod, ty[k + 1])
                    d = s.mod.md_get(p) if p else None
                    if d is not None and d.get('tag') != 'DW_TAG_const_type' and ditypes.typename(s.mod, p) == 'char':
                        drop.add(v)
        if not drop:
            return ts
        return frozenset(x for x in ts if not any(y in drop for y in x[1:]))

    def instr(s, ts, ins, cx):
        if ins.op == 'store' and not isinstance(cx.val(ins.args[1]), type(None)):
            b, off = ditypes.base_off(s.f, ins.args[1])
            v = cx.val(b) if b[0] == 'l' else None
            if v and any(v in x[1:] for x in ts) and cx.val(ins.args[0])[0] in ('c', 's'):
                ts = frozenset(x for x in ts if v not in x[1:])
        if ins.op != 'call':
            return ts
        for a in s.obl.get(ins, ()):
            s.check(ts, ins, a, cx)
        return s.dirty(ts, ins, cx)

    def check(s, ts, ins, a, cx):
        if all(o[0] == 'l' and o[1] in s.ps or o[0] in ('null', 'undef') for o in lib.origins(s.f, a, lib.COPIES, geps=False)):
            return      # the caller's obligation
        if a[0] in ('g', 'gep') and s.mod.string(a) is not None:
            s.rep.count('constant paths opened', 1, ins.line)
            return
        v = cx.val(a)
        if v == ('c', 0):
            return
        s.rep.count('open sites and paths checked', 1, '%s:%s' % (lib.fname(ins), ins.callee))
        key = '%s:%s:' % (lib.fname(ins), ins.callee)
        if ('canon', v) not in ts:
            s.rep.violation(key + 'unresolved', ins.loc(), '%s() is given a path that was not resolved with realpath() on this path' %
                            ins.callee, cx.trace())
            return
        ins_ = {x[2] for x in ts if x[0] == 'in' and x[1] == v}
        if not ins_:
            s.rep.violation(key + 'unchecked', ins.loc(), '%s() is given a resolved path that was not compared with the resolved '
                            'document root' % ins.callee, cx.trace())
            return
        if not any(('bound', v, r) in ts or ('bound', v, None) in ts for r in ins_):
            s.rep.violation(key + 'boundary', ins.loc(), '%s() is given a path that may continue the last component of the document '
                            'root (siblings with the same prefix)' % ins.callee, cx.trace())

    def after(s, ts, ins, cx):
        c = ins.callee
        v = cx.val(('l', ins.res)) if ins.res else None
        if v is not None and v[0] == 's' and v[1] != '?':
            ts = frozenset(x for x in ts if v not in x[1:])
        else:
            return ts
        if c == 'realpath':
            add = {('canon', v)}
            w = cx.val(ins.args[1])
            if w[0] == 's':
                add.add(('canon', w))
            if not s.hot(ins.args[0]):
                add.add(('root', v, False))
                if w[0] == 's':
                    add.add(('root', w, False))
            return ts | add
        if c in ('canonicalize_file_name',):
            return ts | {('canon', v)} | (set() if s.hot(ins.args[0]) else {('root', v, False)})
        if c in ('bc_strdup', 'strdup'):
            w = cx.val(ins.args[0])
            return ts | {tuple(v if y == w else y for y in x) for x in ts if x[0] in ('canon', 'root', 'in', 'bound') and x[1] == w}
        if c == 'bc_strdup_printf' and len(ins.args) == 2 and s.mod.string(ins.args[0]) == b'%s/':
            w = cx.val(ins.args[1])
            if ('root', w, False) in ts:
                return ts | {('root', v, True)}
        if c == 'strlen':
            w = cx.val(ins.args[0])
            for x in ts:
                if x[0] == 'root' and x[1] == w:
                    return ts | {('len', v, w)}
            return ts
        if c in PREFIXCMP:
            a, b, n = (cx.val(x) for x in ins.args[:3])
            for r, p in ((a, b), (b, a)):
                if ('len', n, r) in ts and ('canon', p) in ts and p != r:
                    ts = ts | {('cmp', v, r, p)}
            return ts
        if c in ('strcmp',):
            a, b = (cx.val(x) for x in ins.args[:2])
            for r, p in ((a, b), (b, a)):
                if any(x[0] == 'root' and x[1] == r for x in ts) and ('canon', p) in ts:
                    ts = ts | {('eq', v, r, p)}
                if any(x[0] == 'root' and x[1] == r for x in ts) and p[0] == 's' and \
                        any(s.mod.string(q) == b'/' for q in ins.args[:2]):
                    ts = ts | {('isroot', v, r)}
            return ts
        if c == 'bc_str_starts_with':
            p, r = (cx.val(x) for x in ins.args[:2])
            if any(x[0] == 'root' and x[1] == r for x in ts) and ('canon', p) in ts:
                return ts | {('pre', v, r, p)}
        return ts

    def loaded(s, ts, ins, cx):
        v = cx.val(('l', ins.res))
        if ins.type != 'i8' or v[0] != 's' or v[1] == '?':
            return ts
        d = s.f.defs.get(ins.args[0][1]) if ins.args[0][0] == 'l' else None
        if d is None or d.op != 'getelementptr' or d.extra != 'i8' or len(d.args) != 2:
            return ts
        extra = 0
        if d.args[1][0] == 'i' and d.args[0][0] == 'l' and d.args[0][1] in s.f.defs and \
                s.f.defs[d.args[0][1]].op == 'getelementptr':
            extra = d.args[1][1]
            d = s.f.defs[d.args[0][1]]
        p = cx.val(d.args[0])
        add = set()
        for x in ts:
            if x[0] != 'len':
                continue
            o = offset_of(cx, s.f, d.args[1], x[1])
            if o is None:
                continue
            if o + extra == 0 and ('canon', p) in ts:
                add.add(('byte', v, p, x[2]))
            if o + extra == -1 and p == x[2]:
                add.add(('last', v, p))
        return ts | add

    def edge(s, ts, frm, to, cx):
        add = set()
        for x in ts:
            if x[0] in ('cmp', 'eq') and cx.null(x[1]) is True:
                add.add(('in', x[3], x[2]))
                if x[0] == 'eq' or ('root', x[2], True) in ts:
                    add.add(('bound', x[3], x[2]))
            elif x[0] == 'isroot' and cx.null(x[1]) is True:
                for y in ts:
                    if y[0] == 'canon':
                        add |= {('in', y[1], x[2]), ('bound', y[1], x[2])}
            elif x[0] == 'pre' and cx.null(x[1]) is False:
                add.add(('in', x[3], x[2]))
                if ('root', x[2], True) in ts:
                    add.add(('bound', x[3], x[2]))
            elif x[0] in ('byte', 'last'):
                for val in (x[1], s.wide(x[1], cx)):
                    lo, hi, ex = cx.rng(val) if val else (0, 1, ())
                    if lo == hi and (lo == 47 or lo == 0 and x[0] == 'byte'):
                        if x[0] == 'byte':
                            add.add(('bound', x[2], x[3]))
                        else:
                            for y in ts:
                                if y[0] == 'canon':
                                    add.add(('bound', y[1], x[2]))
        return ts | frozenset(add) if add else ts

    def wide(s, v, cx):
        for y, e in cx.st.expr.items():
            if e[0] in ('sext', 'zext') and e[1] == v:
                return ('s', y)
        return None


def analyse(rep, mod, roots):
    seen, par = lib.reachable(mod, roots)
    summ = summaries(mod)
    src = reads_input(mod)
    n = 0
    for f in sorted(seen):
        if f not in mod.fns:
            continue
        fn = mod.fns[f]
        rep.count('functions of the request thread')
        if any(True for _ in open_args(mod, fn, summ)):
            n += 1
            rep.count('functions that open files', 1, f)
            r = Contain(fn, rep, summ, taint(fn, src))
            Engine(fn, r).run()
    return n


def thread_roots(mod):
    r = set()
    for fn in lib.own(mod):
        for i in fn.calls('pthread_create'):
            for o in lib.origins(fn, i.args[2]):
                if o[0] == 'g':
                    r.add(o[1])
    return sorted(r)


def run(rep, tier):
    rep.rule('Every function reachable from the start routine of a request thread is explored path-sensitively. A path given to a '
             'file-opening call (directly or through a function that opens its parameter) must, on every path, be the unmodified '
             'result of realpath(), have been found equal to the resolved document root over its whole length, and be known to end '
             'or continue with "/" there (or the root to end with "/").')
    rep.assumption('no links are changed between resolution and open (the property is about request text, not about a hostile '
                   'owner of the document root); probes (stat, access) are not opens')
    mod = ir.load('runserver')
    roots = thread_roots(mod)
    if not roots:
        raise frontend.AnalysisBroken('no thread start routine')
    rep.count('thread start routines', len(roots), roots)
    analyse(rep, mod, roots)
    rep.floor('open sites and paths checked', 1)
    base = r'''#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <pthread.h>
char *br_readline(int); char *br_urldecode(const char*); char* bc_strdup_printf(const char*,...);
char* bc_file_get_contents(const char *p){ FILE *f=fopen(p,"r"); return f? "x":NULL;}
static void *h(void *a){ char *q=br_readline(3); char *p=bc_strdup_printf("%%s/%%s",(char*)a,br_urldecode(q));
char *rp=realpath(p,NULL); char *rr=realpath(a,NULL); if(!rp||!rr) return NULL; %s return NULL;}
int main(){pthread_t t; pthread_create(&t,NULL,h,NULL);return 0;}'''

    def ex(body):
        m = frontend.snippet(base % body)
        q = lib.Quiet()
        analyse(q, m, thread_roots(m))
        return q.v
    tail = lambda c: 'if(%s) bc_file_get_contents(rp);' % c
    rep.selftest('no check', ex('bc_file_get_contents(rp);') == ['h:bc_file_get_contents:unchecked'])
    rep.selftest('not resolved', ex('bc_file_get_contents(p);') == ['h:bc_file_get_contents:unresolved'])
    rep.selftest('no boundary', ex(tail('!strncmp(rr,rp,strlen(rr))')) == ['h:bc_file_get_contents:boundary'])
    rep.selftest('short prefix', ex(tail('!strncmp(rr,rp,strlen(rr)-1)&&rp[strlen(rr)]==47')) == ['h:bc_file_get_contents:unchecked'])
    rep.selftest('appended later', ex('size_t n=strlen(rr); if(!strncmp(rr,rp,n)&&(rp[n]==47||!rp[n])){strcat(rp,q);'
                                      'bc_file_get_contents(rp);}') == ['h:bc_file_get_contents:unresolved'])
    for ok in ('size_t n=strlen(rr); if(strncmp(rp,rr,n)) return NULL; if(rp[n]&&rp[n]!=47) return NULL; fopen(rp,"r");',
               'char *x=bc_strdup_printf("%s/",rr); if(!strncmp(rp,x,strlen(x))||!strcmp(rp,rr)) fopen(rp,"r");',
               'size_t n=strlen(rr); if(!memcmp(rp,rr,n)&&(rr[n-1]==47||rp[n]==47||rp[n]==0)) bc_file_get_contents(rp);'):
        v = ex(ok.replace('%', '%'))
        rep.selftest('accepted: ' + ok, v == [])
