"""Recursive deletion never follows links; deleted paths have a known owner; clean stays below the output directory."""
from engine import frontend, ir, lib, facts, ditypes
from engine.paths import Sym

from engine.lib import DELETE, LISTING
FOLLOW = {'stat', 'stat64', '__xstat'}
NOFOLLOW = {'lstat', 'lstat64'}


def stat_kind(i):
    if i.callee in FOLLOW:
        return 'follow', i.args[0], i.args[1]
    if i.callee in NOFOLLOW:
        return 'nofollow', i.args[0], i.args[1]
    if i.callee in ('fstatat', 'fstatat64') and len(i.args) == 4:
        fl = i.args[3]
        return ('nofollow' if fl[0] == 'i' and fl[1] & 0x100 else 'follow'), i.args[1], i.args[2]
    return None


def root(fn, op):
    """identity of a path value: the base it is computed from (not through copies)"""
    o = lib.origins(fn, op)
    return o


class Guard(facts.Known):
    """facts: ('dir', path identity) a link-aware test said directory; ('.',..) name comparisons"""

    def __init__(s, fn, self_fns, rep, prog):
        s.f, s.self_fns, s.rep, s.prog = fn, self_fns, rep, prog
        tr = {}
        # S_ISDIR tests:  (load st_mode & S_IFMT) == S_IFDIR, or dirent type == DT_DIR
        for i in fn.instrs():
            if i.op == 'icmp' and i.extra in ('eq', 'ne') and i.args[1][0] == 'i' and i.args[0][0] == 'l':
                d = fn.defs.get(i.args[0][1])
                if d is not None and d.op == 'and' and d.args[1] == ('i', 0o170000):
                    buf = s.buffer(d.args[0])
                    if buf is not None:
                        tr[i.res] = ('mode', buf, i.args[1][1], i.extra)
                if i.args[1][1] in (4, 8, 10, 0) and s.is_dtype(i.args[0]):
                    tr[i.res] = ('dtype', i.args[1][1], i.extra)
            if i.op == 'call' and i.callee in ('strcmp', 'strcoll') and i.res is not None:
                for k in (0, 1):
                    lit = fn.module.string(i.args[k])
                    if lit in (b'.', b'..'):
                        tr[i.res] = ('name', lit)
            if i.op == 'switch':
                pass
        super().__init__(tr)

    def buffer(s, op):
        for o in lib.origins(s.f, op):
            if o[0] != 'l':
                continue
            d = s.f.defs.get(o[1])
            if d is not None and d.op == 'load':
                b = lib.origins(s.f, d.args[0])
                if len(b) == 1:
                    return next(iter(b))
        return None

    def is_dtype(s, op):
        for o in lib.origins(s.f, op):
            d = s.f.defs.get(o[1]) if o[0] == 'l' else None
            if d is None or d.op != 'load':
                continue
            for b in lib.origins(s.f, d.args[0]):
                e = s.f.defs.get(b[1]) if b[0] == 'l' else None
                if e is not None and e.op == 'call' and e.callee in ('readdir', 'readdir64'):
                    return True
        return False

    def event(s, ts, ins, cx):
        if ins.op != 'call':
            return ts
        k = stat_kind(ins)
        if k:
            buf = lib.origins(s.f, k[2])
            b = next(iter(buf)) if len(buf) == 1 else None
            ts = frozenset(x for x in ts if not (isinstance(x[0], tuple) and x[0][0] == 'mode' and x[0][1] == b)
                           and not (x[0] == 'stat' and x[1] == b))
            for p in lib.origins(s.f, k[1]):
                ts |= {('stat', b, k[0], p)}
            return ts
        if ins.callee in ('readdir', 'readdir64'):
            return frozenset(x for x in ts if not (isinstance(x[0], tuple) and x[0][0] in ('name', 'dtype')))
        s.check(ts, ins)
        return ts

    def isdir(s, ts, path):
        for l, v in [x for x in ts if len(x) == 2]:
            if l[0] == 'mode':
                holds = (v == 'nonzero') == (l[3] == 'eq')
                if l[2] == 0o040000 and holds:
                    for x in ts:
                        if x[0] == 'stat' and x[1] == l[1] and x[2] == 'nofollow' and x[3] in path:
                            return True
            if l[0] == 'dtype' and l[1] == 4 and (v == 'nonzero') == (l[2] == 'eq'):
                return True
        return False

    def check(s, ts, ins):
        if ins.callee in s.self_fns:
            s.rep.count('recursive descents checked', 1, '%s:%s' % (s.prog, lib.fname(ins)))
            path = set()
            for a in ins.args:
                path |= lib.origins(s.f, a)
            if not s.isdir(ts, path):
                s.rep.violation('%s:descend:%s' % (s.prog, lib.fname(ins)), ins.loc(),
                                'descends into a directory entry that was not shown to be a real directory by a test '
                                'that does not follow symbolic links', None)
            names = {l[1] for l, v in [x for x in ts if len(x) == 2] if l[0] == 'name' and v == 'nonzero'}
            if not {b'.', b'..'} <= names:
                s.rep.violation('%s:dots:%s' % (s.prog, lib.fname(ins)), ins.loc(), 'descends into "." or ".."')
        if ins.callee in ('opendir',):
            s.rep.count('directory listings in deleting recursions', 1, '%s:%s' % (s.prog, lib.fname(ins)))
            if not s.isdir(ts, lib.origins(s.f, ins.args[0])):
                s.rep.violation('%s:list:%s' % (s.prog, lib.fname(ins)), ins.loc(),
                                'lists a directory for deletion that was not shown to be a real directory by a test '
                                'that does not follow symbolic links')


def recursion(rep, prog, mod):
    dels = lib.recursive_deleters(mod)
    for f in sorted(dels):
        fn = mod.fns[f]
        rep.count('recursive deletions found', 1, '%s:%s' % (prog, f))
        facts.run(fn, Guard(fn, dels, rep, prog))
    for fn in lib.own(mod):
        for i in fn.instrs():
            if i.op == 'call' and i.callee in ('nftw', 'nftw64', 'ftw', 'ftw64', 'fts_open'):
                flags = i.args[3] if i.callee.startswith('nftw') and len(i.args) > 3 else ('i', 0)
                if i.callee != 'fts_open' and not (flags[0] == 'i' and flags[1] & 1):
                    rep.violation('%s:walk:%s' % (prog, lib.fname(i)), i.loc(), 'tree walk follows symbolic links')
    return dels


def path_class(mod, fn, op, dels, seen=()):
    """what a deleted path is"""
    out = set()
    if (fn.name, op) in seen:
        return out
    seen = seen + ((fn.name, op),)
    s = mod.string(op)
    if s is not None:
        return {('literal', s)}
    for o in lib.origins(fn, op, lib.COPIES):
        s = mod.string(o)
        d = fn.defs.get(o[1]) if o[0] == 'l' else None
        if o[0] in ('null', 'undef'):
            continue
        if s is not None:
            out.add(('literal', s))
        elif o[0] == 'l' and o[1] in [p for p, _ in fn.params]:
            out.add(('param', fn.name, [p for p, _ in fn.params].index(o[1])))
        elif d is not None and d.op == 'alloca':
            tmp = any(i.op == 'call' and i.callee in ('mkdtemp', 'mkstemp') and o in lib.origins(fn, i.args[0])
                      for i in fn.instrs())
            out.add(('temp',) if tmp else ('local', o[1]))
        elif d is not None and d.op == 'call':
            if d.callee in ('mkdtemp',):
                out.add(('temp',))
            elif d.callee == 'bc_strdup_printf':
                tmp = any(i.op == 'call' and i.callee in ('mkdtemp', 'mkstemp') and o in lib.origins(fn, i.args[0])
                          for i in fn.instrs())
                if tmp:
                    out.add(('temp',))
                    continue
                fmt = mod.string(d.args[0]) or b'?'
                if fmt.startswith(b'%s') and len(d.args) > 1:
                    for b in path_class(mod, fn, d.args[1], dels, seen):
                        out.add(('below', fmt) + (b,))
                else:
                    out.add(('format', fmt))
            elif d.callee == 'dirname':
                for b in path_class(mod, fn, d.args[0], dels, seen):
                    out.add(b if b[0] == 'dirname' else ('dirname', b))
            elif d.callee == 'realpath':
                for b in path_class(mod, fn, d.args[0], dels, seen):
                    out.add(('realpath', b))
            else:
                out.add(('result', d.callee))
        elif d is not None and d.op == 'load':
            out.add(('field', field_of(mod, fn, d)))
        else:
            out.add(('unknown', repr(o)))
    return out


def field_of(mod, fn, d):
    m = ditypes.member_at(fn, d.args[0])
    return '%s.%s' % (m[0], m[1]) if m else '?'


def provenance(rep, prog, mod, dels):
    """every deletion names something the program itself created or was told to remove"""
    for fn in lib.own(mod):
        for i in fn.instrs():
            if i.op != 'call' or not i.callee:
                continue
            if i.callee in DELETE:
                path = i.args[DELETE[i.callee]]
            elif i.callee in dels and fn.name not in dels:
                path = i.args[0]
            else:
                continue
            rep.count('deletion sites classified', 1, '%s:%s:%s' % (prog, lib.fname(i), i.callee))
            todo = sorted(path_class(mod, fn, path, dels), key=repr)
            while todo:
                c = todo.pop(0)
                if c[0] == 'param' and fn.name not in dels and not ok_class(c, fn, i, dels):
                    # look at every caller
                    sites = list(lib.callers(mod, fn.name))
                    for cf, ci in sites:
                        rep.count('callers of deleting helpers classified', 1, '%s:%s' % (prog, lib.fname(ci)))
                        for k in sorted(path_class(mod, cf, ci.args[c[2]], dels), key=repr):
                            if not ok_class(k, cf, ci, dels):
                                rep.violation('%s:owner:%s:%s:%s' % (prog, lib.fname(ci), fn.name, short(k)), ci.loc(),
                                              'passes a path of unknown owner to %s(): %s' % (fn.name, short(k)))
                            elif k[0] == 'field':
                                temp_flag(rep, prog, mod, cf, ci, ci.args[c[2]])
                    if sites:
                        continue
                if not ok_class(c, fn, i, dels):
                    rep.violation('%s:owner:%s:%s:%s' % (prog, lib.fname(i), i.callee, short(c)), i.loc(),
                                  '%s() on a path that is neither a literal, a temporary name, an output of a rule, an entry of '
                                  'the tree being removed nor a build directory: %s' % (i.callee, short(c)))


class Flag(facts.Known):
    def __init__(s, fn, site, rep, prog):
        s.site, s.rep, s.prog = site, rep, prog
        super().__init__({i.res: 'temporary' for i in fn.instrs() if i.op == 'load' and
                          (ditypes.member_at(fn, i.args[0]) or ('', ''))[1] == 'atom_template_tmp'})

    def event(s, ts, ins, cx):
        if ins is s.site:
            s.rep.count('removals of the feed template behind its flag')
            if ('temporary', 'nonzero') not in ts:
                s.rep.violation('%s:template:%s' % (s.prog, lib.fname(ins)), ins.loc(),
                                'removes the feed template without knowing that it is the temporary one', cx.trace())
        return ts


def temp_flag(rep, prog, mod, fn, site, path):
    """the template of the feed is removed only when it is the generated one"""
    for o in lib.origins(fn, path):
        d = fn.defs.get(o[1]) if o[0] == 'l' else None
        if d is not None and d.op == 'load':
            b, _ = ditypes.base_off(fn, d.args[0])
            e = fn.defs.get(b[1]) if b[0] == 'l' else None
            if e is not None and e.op == 'load' and (ditypes.member_at(fn, e.args[0]) or ('', ''))[1] == 'atom_template_fctx':
                facts.run(fn, Flag(fn, site, rep, prog))


def list_source(fn, op, seen=None):
    """calls and parameters a list element comes from (through data/next loads)"""
    seen = seen if seen is not None else set()
    r = set()
    for o in lib.origins(fn, op):
        if o in seen:
            continue
        seen.add(o)
        d = fn.defs.get(o[1]) if o[0] == 'l' else None
        if d is not None and d.op == 'load':
            m = ditypes.member_at(fn, d.args[0])
            b, _ = ditypes.base_off(fn, d.args[0])
            if m and m[0].endswith('slist_t') or m is None:
                r |= list_source(fn, b, seen)
            else:
                r.add(('field', m[0], m[1]))
        elif d is not None and d.op == 'call':
            r.add(('call', d.callee))
        elif o[0] not in ('null', 'undef'):
            r.add(o)
    return r


def cleaning(rep, prog, mod):
    """clean removes elements of the list of built files only"""
    for fn, i in lib.callers(mod, 'bm_exec_native_rm'):
        rep.count('clean removal sites')
        src = list_source(fn, i.args[1])
        if src != {('call', 'bm_rule_list_built_files')}:
            rep.violation('%s:clean:%s' % (prog, lib.fname(i)), i.loc(),
                          'removes files that do not come from the list of built files: %s' % sorted(map(str, src)))
        lim = lib.origins(fn, i.args[0])
        for o in lim:
            d = fn.defs.get(o[1]) if o[0] == 'l' else None
            m = ditypes.member_at(fn, d.args[0]) if d is not None and d.op == 'load' else None
            if not m or m[1] != 'output_dir':
                rep.violation('%s:limit:%s' % (prog, lib.fname(i)), i.loc(), 'the limit of the upward removal is not the output directory')


def short(c):
    return '/'.join(x.decode('latin1') if isinstance(x, bytes) else short(x) if isinstance(x, tuple) else str(x) for x in c)


def base_class(c):
    while c[0] in ('below', 'dirname', 'realpath'):
        c = c[-1]
    return c


def ok_class(c, fn, i, dels):
    if c[0] == 'literal':
        return not c[1].startswith(b'/') and b'..' not in c[1] and c[1] not in (b'', b'.')
    if c[0] == 'temp':
        return True
    if fn.name in dels:
        # the tree itself or an entry of it
        b = base_class(c)
        return c[0] in ('param', 'below') and b[0] == 'param'
    if i.callee in dels:
        b = base_class(c)
        # the new build directory, or what the live link points to
        return (c[0] == 'below' and b == ('result', 'bgr_settings_get_builds_dir') and c[1].count(b'%') > 1) or \
               (c[0] == 'below' and base_ok(c)) or c[0] == 'realpath'
    if i.callee == 'rmdir':
        b = base_class(c)
        return c[0] == 'dirname' and b[0] == 'field' and b[1].endswith('.path')
    if c[0] == 'field':
        return c[1].endswith('filectx_t.path')
    if i.callee == 'unlink' and fn.name == 'bgr_pre_receive_hook':
        # the live link itself
        return c[0] == 'below' or c[0] == 'result' and c[1] in ('bc_config_get', 'bc_config_get_with_default')
    return False


def base_ok(c):
    # a name below a name below the builds directory
    n = 0
    while c[0] == 'below':
        n += c[1].count(b'%s') + c[1].count(b'%l') - 1
        c = c[-1]
    return c == ('result', 'bgr_settings_get_builds_dir') and n > 0


class Climb(facts.Known):
    """between two rmdir calls of an upward walk the directory was compared with the limit"""

    def __init__(s, fn, rep, prog):
        s.f, s.rep, s.prog = fn, rep, prog
        tr = {}
        ps = {p for p, _ in fn.params}
        for i in fn.instrs():
            if i.op == 'call' and i.callee == 'strcmp' and i.res:
                for a in i.args:
                    for o in lib.origins(fn, a):
                        if o[0] == 'l' and o[1] in ps:
                            tr[i.res] = ('limit', o[1])
        super().__init__(tr)

    def event(s, ts, ins, cx):
        if ins.op == 'call' and ins.callee == 'rmdir':
            s.rep.count('upward removals checked')
            if ('armed', 1) in ts and not any(isinstance(x[0], tuple) and x[0][0] == 'limit' and x[1] == 'nonzero' for x in ts):
                s.rep.violation('%s:climb:%s' % (s.prog, lib.fname(ins)), ins.loc(),
                                'removes parent directories without having compared the last one with the output directory',
                                cx.trace())
            ts = frozenset(x for x in ts if not isinstance(x[0], tuple)) | {('armed', 1)}
        return ts


def climbing(rep, prog, mod):
    for fn in lib.own(mod):
        if any(i.callee == 'dirname' for i in fn.calls()) and any(True for i in fn.calls('rmdir')):
            facts.run(fn, Climb(fn, rep, prog))


def run(rep, tier):
    rep.rule('Functions on a call cycle that delete files descend and list only what a non-following stat (or the directory entry '
             'type) showed to be a directory and never "." or ".."; every path given to unlink, rmdir or the recursive removal is '
             'classified by provenance (literal, temporary name, rule output, entry of the tree, build directory, live link); an '
             'upward removal compares with its limit between two removals.')
    rep.assumption('directory contents do not change between the test and the removal; bm_filectx paths of clean are the rule outputs (C26)')
    for name, mod in lib.progs():
        dels = recursion(rep, name, mod)
        provenance(rep, name, mod, dels)
        climbing(rep, name, mod)
        cleaning(rep, name, mod)
    rep.floor('deletion sites classified', 8)
    m = frontend.snippet(r'''#include <sys/stat.h>
#include <dirent.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
void rmr(const char *d){struct stat b; if(stat(d,&b))return; if(!S_ISDIR(b.st_mode))return; DIR*D=opendir(d);struct dirent*e;
while((e=readdir(D))){if(!strcmp(e->d_name,"."))continue;char f[999];snprintf(f,999,"%s/%s",d,e->d_name);if(stat(f,&b))return;
if(S_ISDIR(b.st_mode))rmr(f);else unlink(f);}closedir(D);rmdir(d);}
void top(char*x){rmr(x);}''')
    q = lib.Quiet()
    d = recursion(q, 'x', m)
    provenance(q, 'x', m, d)
    rep.selftest('following stat, missing "..", unknown root', {'x:descend:rmr', 'x:dots:rmr', 'x:list:rmr', 'x:owner:top:rmr:param/top/0'} <= set(q.v))
