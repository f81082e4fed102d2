"""Order of build, link change and removal in the deploy hook, on every path."""
from engine import frontend, ir, lib, facts
from engine.paths import Sym

ENTRY = 'bgr_pre_receive_hook'
LINKS = {'symlink': 1, 'rename': 1, 'link': 1, 'symlinkat': 2, 'renameat': 3}


class Deploy(facts.Known):
    def __init__(s, fn, rep, dels):
        s.f, s.rep, s.dels = fn, rep, dels
        s.mod = fn.module
        tr = {}
        s.sys = {}
        n = 0
        for i in fn.instrs():
            if i.op != 'call' or not i.res:
                continue
            if i.callee == 'system' and s.mod.string(i.args[0]) is None:
                n += 1
                s.sys[i.res] = n
                tr[i.res] = ('command', n)
            elif i.callee in LINKS:
                tr[i.res] = ('link', i.callee)
            elif i.callee in ('unlink', 'remove') and s.mod.string(i.args[0]) is None:
                tr[i.res] = ('unlink', i.callee)
            elif i.callee == 'mkdtemp':
                tr[i.res] = ('mkdtemp', '')
            elif i.callee == 'chdir':
                tr[i.res] = ('chdir', i.res)
            elif i.callee in dels and i.type != 'void':
                tr[i.res] = ('delete', i.res)
        for i in fn.calls('bc_compat_status_code'):
            for o in lib.origins(fn, i.args[0]):
                if o[0] == 'l' and o[1] in s.sys and i.res:
                    tr[i.res] = ('command', s.sys[o[1]])
        # a command that names the build directory: the build
        super().__init__(tr)
        s.outdirs = set()
        for i in fn.instrs():
            if i.op == 'call' and i.callee in ('symlink',):
                s.outdirs |= {o for o in lib.origins(fn, i.args[0]) if o[0] == 'l'}
        s.builds = set()
        for i in fn.instrs():
            if i.op == 'call' and i.callee == 'system' and s.mod.string(i.args[0]) is None:
                if s.mentions(i.args[0]) & s.outdirs:
                    s.builds.add(i.res)

    def mentions(s, op, depth=4, seen=None):
        """values interpolated into a string"""
        seen = seen if seen is not None else set()
        r = set()
        for o in lib.origins(s.f, op, lib.COPIES):
            if o in seen:
                continue
            seen.add(o)
            r.add(o)
            d = s.f.defs.get(o[1]) if o[0] == 'l' else None
            if d is not None and d.op == 'call' and depth and d.callee in (
                    'bc_strdup_printf', 'bc_shell_quote', 'bc_string_free', 'bc_strv_join'):
                for a in d.args:
                    r |= s.mentions(a, depth - 1, seen)
        return r

    def kind(s, op):
        """what a path handed to the recursive removal is"""
        r = set()
        for o in lib.origins(s.f, op):
            if o[0] in ('null', 'undef'):
                continue
            d = s.f.defs.get(o[1]) if o[0] == 'l' else None
            if o in s.outdirs:
                r.add('new')
            elif d is not None and d.op == 'call' and d.callee == 'realpath':
                r.add('old')
            elif d is not None and (d.op == 'alloca' or d.op == 'call' and d.callee == 'mkdtemp'):
                r.add('temp')
            else:
                r.add('other')
        return r

    def bad(s, key, ins, msg, cx):
        s.rep.violation(key, ins.loc(), msg, cx.trace())

    def event(s, ts, ins, cx):
        if ins.op != 'call':
            return ts
        c = ins.callee
        if ins.res in s.sys:
            s.rep.count('commands followed', 1, ins.line)
            return (ts | {('ran', s.sys[ins.res])}) | ({('built', s.sys[ins.res])} if ins.res in s.builds else frozenset())
        live = c in LINKS or (c in ('unlink', 'remove') and s.mod.string(ins.args[0]) is None)
        if live:
            s.rep.count('link changes checked', 1, '%s' % c)
            ran = {x[1] for x in ts if x[0] == 'ran'}
            ok = {x[0][1] for x in ts if isinstance(x[0], tuple) and x[0][0] == 'command' and x[1] == 'zero'}
            if not any(x[0] == 'built' for x in ts):
                s.bad('link-before-build:%s' % c, ins, '%s() changes the live link on a path where no build command ran' % c, cx)
            if ran - ok:
                s.bad('link-unchecked:%s' % c, ins, '%s() changes the live link although a command is not known to have succeeded' % c, cx)
            if any(x[0] == 'deleted-new' for x in ts):
                s.bad('link-after-delete:%s' % c, ins, '%s() after the new build was deleted' % c, cx)
            if c in ('symlink',):
                m = s.mentions(ins.args[0])
                if not any(s.mentions_build(ins)):
                    s.bad('link-target', ins, 'the link does not point to the directory the build command was given', cx)
            return ts | {('link-touched', c)}
        if c == 'realpath':
            if any(x[0] == 'link-touched' for x in ts):
                return ts | {('late', ins.res)}
            return frozenset(x for x in ts if x != ('late', ins.res))
        if c in s.dels:
            for k in s.kind_now(ins.args[0], cx):
                s.rep.count('removals checked', 1, '%s:%s' % (k, ins.line))
                linked = any(isinstance(x[0], tuple) and x[0][0] == 'link' and x[1] == 'zero' for x in ts)
                if k == 'old':
                    if not linked:
                        s.bad('delete-old', ins, 'deletes the previous build although the link was not switched successfully', cx)
                    for o in lib.origins(s.f, ins.args[0]):
                        if ('late', o[1] if len(o) > 1 else '') in ts:
                            s.bad('delete-current', ins, 'deletes what the link points to after it was switched', cx)
                elif k == 'new':
                    if linked:
                        s.bad('delete-live', ins, 'deletes the new build after the link was switched to it', cx)
                    ts = ts | {('deleted-new', 1)}
                elif k == 'other':
                    s.bad('delete-other', ins, 'recursively deletes something that is neither a build nor the temporary directory', cx)
            return ts
        return ts

    def kind_now(s, op, cx):
        v = cx.val(op)
        if v == ('c', 0):
            return set()
        return s.kind(op)

    def mentions_build(s, ins):
        o = lib.origins(s.f, ins.args[0])
        for b in s.builds:
            yield bool(s.mentions(s.f.defs[b].args[0]) & o)

    def exit(s, ts, ins, cx):
        if ins.op != 'ret':
            return
        s.rep.count('ways out checked')
        v = cx.val(ins.args[0])
        zero = cx.null(v)
        fails = set()
        for x in ts:
            if not isinstance(x[0], tuple):
                continue
            if x[0][0] in ('command', 'link', 'unlink', 'chdir', 'delete') and x[1] == 'nonzero':
                fails.add(x[0][0])
            if x[0][0] == 'mkdtemp' and x[1] == 'zero':
                fails.add('mkdtemp')
        ran = {x[1] for x in ts if x[0] == 'ran'}
        known = {x[0][1] for x in ts if isinstance(x[0], tuple) and x[0][0] == 'command'}
        if ran - known:
            s.bad('unchecked-command', ins, 'leaves without having looked at the result of a command', cx)
        if fails and zero is not False:
            s.bad('status:' + '+'.join(sorted(fails)), ins, 'returns success although %s failed' % ', '.join(sorted(fails)), cx)
        built = any(x[0] == 'built' for x in ts)
        linked = any(isinstance(x[0], tuple) and x[0][0] == 'link' and x[1] == 'zero' for x in ts)
        if built and not linked:
            if zero is not False:
                s.bad('no-switch', ins, 'returns success after a build without having switched the link', cx)
            if not any(x[0] == 'deleted-new' for x in ts):
                s.bad('keep-failed', ins, 'leaves a failed or unused build behind', cx)


def analyse(rep, mod, entry):
    fn = mod.fns.get(entry)
    if fn is None:
        raise frontend.AnalysisBroken('no function ' + entry)
    dels = lib.recursive_deleters(mod)
    d = Deploy(fn, rep, dels)
    rep.count('build commands identified', len(d.builds))
    facts.run(fn, d)


def run(rep, tier):
    rep.rule('The deploy hook is explored path-sensitively with the results of every command, link, unlink, chdir and removal '
             'call as facts: the live link changes only when all commands run so far are known to have returned 0 and a build ran; '
             'the previous build (resolved before the link change) is removed only after a successful link; a path with a failed '
             'step returns non-zero and has removed the new build.')
    rep.assumption('a command whose text contains the directory the link will point to is a build; literal probe commands are not steps')
    mod = ir.load('receiver')
    analyse(rep, mod, ENTRY)
    rep.floor('build commands identified', 1)
    rep.floor('link changes checked', 1)
    rep.floor('ways out checked', 5)
    m = frontend.snippet(r'''#include <stdlib.h>
#include <unistd.h>
char* bc_strdup_printf(const char*,...);
int bgr_pre_receive_hook(int c, char**v){ char *o=bc_strdup_printf("%s/x",v[1]); char*b=bc_strdup_printf("make D=%s",o);
int rv=0; if(system(b)) rv=0; unlink(v[2]); if(symlink(o,v[2])) rv=1; return rv;}''')
    q = lib.Quiet()
    analyse(q, m, ENTRY)
    rep.selftest('unchecked build', 'link-unchecked:unlink' in q.v and 'status:command' in q.v and 'keep-failed' in q.v)
