"""Failures of reads, writes and file operations are never ignored."""
from engine import frontend, ir, lib, ditypes, failure
from engine.paths import Engine, Rule, Sym
from engine.failure import Handled, reports, retkind, ERRS, is_stream

OPS = {
    'open': 'neg', 'open64': 'neg', 'openat': 'neg', 'creat': 'neg', 'mkstemp': 'neg', 'fopen': 'zero', 'fopen64': 'zero', 'fdopen': 'zero',
    'freopen': 'zero', 'opendir': 'zero', 'read': 'neg', 'pread': 'neg', 'write': 'neg', 'pwrite': 'neg', 'send': 'neg', 'sendfile': 'neg',
    'recv': 'neg',
    'mkdir': 'status', 'rmdir': 'status', 'unlink': 'status', 'remove': 'status', 'rename': 'status', 'symlink': 'status',
    'link': 'status', 'chdir': 'status', 'fchdir': 'status', 'chmod': 'status', 'ftruncate': 'status', 'truncate': 'status',
    'fsync': 'status', 'getcwd': 'zero', 'mkdtemp': 'zero', 'pipe': 'status', 'pipe2': 'status', 'ferror': 'nonzero',
}
SHORT = {'write': 2, 'pwrite': 2, 'send': 2}
BUFREAD = {'fread', 'fgetc', 'getc', 'fgets', 'getline', 'getdelim', '_IO_getc'}
BUFWRITE = {'fprintf': ('neg', 0), 'vfprintf': ('neg', 0), 'fputs': ('neg', 1), 'fputc': ('neg', 1), 'putc': ('neg', 1), 'fwrite': ('short', 3)}
WRFLAGS = 3       # O_WRONLY | O_RDWR
REMOVE = {'unlink', 'rmdir', 'remove'}


NETREAD = {'read', 'recv'}


def not_pipe(mod):
    """the program accepts network connections"""
    return any(True for fn in lib.own(mod) for i in fn.calls('accept', 'accept4'))


def fd_opened(fn, op):
    return any(o[0] == 'l' and o[1] in fn.defs and fn.defs[o[1]].op == 'call' and fn.defs[o[1]].callee in OPS
               for o in lib.origins(fn, op))


def stream_files(mod, fn, op, depth=3):
    """for a stream operand: set of 'file:w' | 'file:r' | 'stdout' | 'stderr' | 'stdin' | '?'"""
    r = set()
    for o in lib.origins(fn, op):
        d = fn.defs.get(o[1]) if o[0] == 'l' else None
        if d is not None and d.op == 'load' and d.args[0][0] == 'g' and d.args[0][1] in ('stdout', 'stderr', 'stdin'):
            r.add(d.args[0][1])
        elif d is not None and d.op == 'call' and d.callee in ('fopen', 'fopen64', 'fdopen', 'freopen'):
            m = mod.string(d.args[1])
            r.add('file:r' if m is not None and not set(m) & set(b'wa+') else 'file:w')
        elif o == ('null',):
            pass
        elif depth and o[0] == 'l' and o[1] in [p for p, t in fn.params]:
            # a stream that the callers opened
            k = [p for p, t in fn.params].index(o[1])
            c = [(g, i) for g in lib.own(mod) for i in g.calls(fn.name) if k < len(i.args)]
            for g, i in c:
                r |= stream_files(mod, g, i.args[k], depth - 1)
            if not c:
                r.add('?')
        else:
            r.add('?')
    return r


def finishers(mod):
    """(function, parameter): the stream is flushed or closed by the function"""
    r = {('fclose', 0), ('fflush', 0)}
    ch = True
    while ch:
        ch = False
        for fn in lib.own(mod):
            ps = [p for p, t in fn.params]
            for i in fn.calls(*{c for c, k in r}):
                for c, k in list(r):
                    if c != i.callee or k >= len(i.args):
                        continue
                    for o in lib.origins(fn, i.args[k]):
                        if o[0] == 'l' and o[1] in ps and (fn.name, ps.index(o[1])) not in r:
                            r.add((fn.name, ps.index(o[1])))
                            ch = True
    return r


def fd_written(mod, fn, op):
    for o in lib.origins(fn, op):
        d = fn.defs.get(o[1]) if o[0] == 'l' else None
        if d is not None and d.op == 'call' and d.callee in ('open', 'open64', 'creat', 'mkstemp', 'openat'):
            k = {'open': 1, 'open64': 1, 'openat': 2}.get(d.callee)
            if k is None:
                return True
            f = d.args[k]
            if f[0] != 'i' or f[1] & WRFLAGS:
                return True
    return False


def progress(fn, ins):
    """the number of bytes written is compared with, or subtracted from, the number requested"""
    same, derived = {ins.res}, set()
    ch = True
    while ch:
        ch = False
        for i in fn.instrs():
            if i.res is None or i.res in derived:
                continue
            a = {x[1] for x in ir.operands(i) if x[0] == 'l'}
            if i.op in ('zext', 'sext', 'trunc', 'freeze') and a & same and i.res not in same:
                same.add(i.res)
                ch = True
            elif a & derived and i.op in ('zext', 'sext', 'trunc', 'phi', 'freeze', 'add', 'sub', 'getelementptr', 'select') or \
                    a & same and i.op in ('add', 'sub', 'getelementptr') and not any(x[0] == 'i' for x in i.args):
                derived.add(i.res)
                ch = True
    n = ins.args[SHORT[ins.callee]]
    for i in fn.instrs():
        if i.op != 'icmp':
            continue
        for k in (0, 1):
            x, y = i.args[k], i.args[1 - k]
            if x[0] != 'l':
                continue
            if x[1] in derived:
                return True
            if x[1] in same and (y[0] == 'l' or y[0] == 'i' and y == n and y[1] > 0):
                return True
    return False


def sites(mod, fn, rep, silent):
    r = {}
    wr = set()
    for i in fn.calls():
        if i.res is None:
            continue
        k = OPS.get(i.callee)
        if k:
            if i.callee in NETREAD and not fd_opened(fn, i.args[0]) and not_pipe(mod):
                continue
            r[i.res] = (i, k)
        elif i.callee in BUFREAD:
            r[i.res] = (i, 'none')
        elif i.callee in BUFWRITE:
            k, a = BUFWRITE[i.callee]
            f = stream_files(mod, fn, i.args[a])
            if 'file:w' in f:
                r[i.res] = (i, 'neg' if k == 'neg' else 'none')
        elif i.callee in ('fclose', 'fflush'):
            if 'file:w' in stream_files(mod, fn, i.args[0]):
                r[i.res] = (i, 'nonzero')
        elif i.callee == 'close' and fd_written(mod, fn, i.args[0]):
            r[i.res] = (i, 'status')
        elif i.callee in silent:
            r[i.res] = (i, silent[i.callee])
    return r


def plain(fn, op):
    while op[0] == 'l' and op[1] in fn.defs and fn.defs[op[1]].op in ('zext', 'sext', 'trunc', 'freeze'):
        op = fn.defs[op[1]].args[0]
    return op


class IO(Handled):
    def __init__(s, mod, fn, st, rep, prog, lost):
        super().__init__(fn, st, lost, retkind(fn))
        s.rep = rep
        s.errp = {p for p, t in fn.params}
        s.full = {}
        for b in fn.blocks.values():
            t = b.term
            c = fn.defs.get(t.args[0][1]) if t.op == 'br' and t.args and t.args[0][0] == 'l' else None
            if c is None or c.op != 'icmp':
                continue
            x, y = plain(fn, c.args[0]), plain(fn, c.args[1])
            pr = c.extra
            if y[0] == 'l' and y[1] in st and st[y[1]][0].callee in SHORT:
                x, y = y, x
                pr = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pr, pr)
            if x[0] != 'l' or x[1] not in st or st[x[1]][0].callee not in SHORT:
                continue
            w = st[x[1]][0]
            if plain(fn, w.args[SHORT[w.callee]]) != y or t.extra[0] == t.extra[1]:
                continue
            if pr in ('eq', 'sge'):
                s.full[b.name, t.extra[0]] = x[1]
            elif pr in ('ne', 'slt'):
                s.full[b.name, t.extra[1]] = x[1]

    def edge(s, ts, frm, to, cx):
        k = s.full.get((frm.name, to.name))
        if k is not None:
            # everything that was requested has been written
            ts = frozenset(x for x in ts if x[1] != k)
        return super().edge(ts, frm, to, cx)

    def acks(s, ins, cx):
        if ins.op == 'store' and ins.args[0][0] == 'l':
            d = s.f.defs.get(ins.args[0][1])
            if d is not None and d.op == 'call' and d.callee in ERRS:
                return True
        if ins.op == 'call' and ins.callee in ('bc_error_print',):
            return True
        return reports(s.mod, s.f, ins) is not None

    def extra(s, ts, ins, cx):
        if ins.op != 'call':
            return ts
        if ins.callee == 'ferror':
            return frozenset(x for x in ts if s.sites[x[1]][0].callee not in BUFREAD)
        if ins.callee in ('fclose', 'fflush'):
            # buffered output whose outcome is tested through the stream
            pass
        return ts


def written_streams(mod, fn, rep, prog):
    """every stream that user data is written to is flushed or closed with a tested result"""
    for i in fn.calls(*BUFWRITE):
        k, a = BUFWRITE[i.callee]
        f = stream_files(mod, fn, i.args[a])
        if 'file:w' not in f:
            continue
        src = lib.origins(fn, i.args[a])
        ps = {('l', p) for p, t in fn.params}
        done = [c for n, a in finishers(mod) for c in fn.calls(n) if lib.origins(fn, c.args[a]) & src]
        if not done and not src <= ps:
            yield i


class Flush(Rule):
    """what was written to a stream that can be a file is flushed or closed before success is returned
    ts: the writes that are still in the buffer"""

    def __init__(s, mod, fn, found):
        s.f, s.found = fn, found
        s.writes, s.fin = {}, finishers(mod)
        ps = {('l', p) for p, t in fn.params}
        for i in fn.calls(*BUFWRITE):
            a = BUFWRITE[i.callee][1]
            if 'file:w' in stream_files(mod, fn, i.args[a]) and not lib.origins(fn, i.args[a]) <= ps:
                s.writes[id(i)] = (i, lib.origins(fn, i.args[a]))

    def init(s, fn):
        return frozenset()

    def instr(s, ts, ins, cx):
        if ins.op == 'call':
            for c, k in s.fin:
                if c == ins.callee and k < len(ins.args):
                    o = lib.origins(s.f, ins.args[k])
                    ts = frozenset(w for w in ts if ins.args[k] != ('null',) and not s.writes[w][1] & o)
        if id(ins) in s.writes:
            return ts | {id(ins)}
        return ts

    def exit(s, ts, ins, cx):
        if ins.op != 'ret' or not ts:
            return
        if ins.args and s.f.rettype.startswith('i'):
            z = cx.null(cx.val(ins.args[0]))
            ok = z is not False if s.f.rettype != 'i1' else z is not True
            if not ok:
                return
        elif ins.args and cx.null(cx.val(ins.args[0])) is True:
            return
        for k in ts:
            s.found.setdefault(k, (s.writes[k][0], cx.trace()))


def analyse(rep, prog, mod):
    silent = {}
    viol = {}
    while True:
        n = dict(silent)
        viol = {}
        for fn in lib.own(mod):
            st = sites(mod, fn, rep, silent)
            if not st:
                continue
            void = fn.rettype == 'void'

            def lost(ins, site, how, cx, fn=fn, void=void):
                if site.callee in REMOVE and void:
                    return
                if site.callee in silent and fn.name == 'main':
                    return
                viol.setdefault((site.loc(), site.callee), (fn, ins, site, how, cx.trace()))
            r = IO(mod, fn, st, rep, prog, lost)
            Engine(fn, r).run()
            if r.silent and retkind(fn) and fn.name != 'main':
                n[fn.name] = retkind(fn)
        if n == silent:
            break
        silent = n
    for fn in lib.own(mod):
        for i, k in sites(mod, fn, rep, silent).values():
            rep.count('operations whose failure was followed', 1, '%s:%s:%s' % (prog, lib.fname(i), i.callee))
    rep.count('functions that only tell failure by their result', len(silent))
    for fn, ins, site, how, tr in viol.values():
        rep.violation('%s:%s:%s' % (prog, lib.fname(site), site.callee), site.loc(),
                      'a failure of %s() %s (function returns at line %d)' % (
                          site.callee, 'is never looked at' if how == 'pend' else 'is found but neither reported nor returned', ins.line), tr)
    for fn in lib.own(mod):
        for i in fn.calls(*SHORT):
            rep.count('writes checked for short counts')
            if not progress(fn, i):
                rep.violation('%s:short:%s' % (prog, lib.fname(i)), i.loc(),
                              'the number of bytes %s() wrote is not compared with the number requested' % i.callee)
        found = {}
        r = Flush(mod, fn, found)
        if r.writes:
            rep.count('functions that write to files through a buffer')
            Engine(fn, r).run()
        for i, tr in found.values():
            rep.violation('%s:unflushed:%s' % (prog, lib.fname(i)), i.loc(),
                          'success can be returned while what was written is still in the buffer of the stream', tr)
        for i in written_streams(mod, fn, rep, prog):
            rep.violation('%s:flush:%s' % (prog, lib.fname(i)), i.loc(), 'output is never flushed with a tested result')


def run(rep, tier):
    rep.rule('For every read, write, open, directory and link operation, every path from the call is followed: once the result means '
             'failure, or if it is never tested, the path must report it, store an error or return a failing value; functions that tell '
             'failure only by their result are treated like the operation itself in their callers. Written byte counts must be compared '
             'with the requested count; buffered output must be flushed with a tested result, on every path that returns success.')
    rep.assumption('messages and progress output on stdout/stderr, closing what was only read, removal in functions without a result and '
                   'existence queries (stat, access, realpath), and the end of a request read from a client connection are not covered')
    for prog, mod in lib.progs():
        analyse(rep, prog, mod)
    rep.floor('operations whose failure was followed', 30)
    rep.floor('writes checked for short counts', 1)
    m = frontend.snippet(r'''#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
int cp(const char*b,size_t n){ int fd=open("/x",O_WRONLY); if(fd<0) return 0; ssize_t w=write(fd,b,n); if(w<0){ close(fd); return 1;} close(fd); return 0; }
int ok(const char*b,size_t n){ int fd=open("/x",O_WRONLY); if(fd<0) return 1; ssize_t w=write(fd,b,n); if(w!=(ssize_t)n){ close(fd); return 1;} return close(fd); }''')
    q = lib.Quiet()
    analyse(q, 's', m)
    rep.selftest('ignored open, short write and close', {'s:cp:open', 's:cp:close', 's:short:cp'} <= set(q.v) and not any(':ok' in x for x in q.v))
    src = r'''#include <stdio.h>
#include <stdbool.h>
int out(const char *o, const char *text){ bool std = o == NULL; FILE *fp = stdout; int rv = 0;
 if(!std){ fp=fopen(o,"w"); if(fp==NULL) return 1; } if(0>fprintf(fp,"%%s",text)) rv = 1; if(%s && rv == 0) rv = 1; return rv; }'''
    for name, c, hit in (('flushed', '0 != (std ? fflush(fp) : fclose(fp))', False), ('not flushed', '!std && 0 != fclose(fp)', True)):
        q = lib.Quiet()
        analyse(q, 's', frontend.snippet(src % c))
        rep.selftest(name, ('s:unflushed:out' in q.v) == hit)
