"""A failed reload keeps the last good configuration, and a successful one releases what it replaces exactly once."""
from engine import frontend, ir, lib, ditypes, effects, resource
from engine.paths import Rule, Engine, Sym, State, INF

RELOAD, LOOP = 'bm_ctx_reload', 'bm_reloader_run'
EXITS = {'exit', '_exit', '_Exit', 'quick_exit', 'abort'}
SAYS = {'fprintf', 'vfprintf', 'fputs', 'perror', 'printf', 'puts', 'dprintf', 'fwrite', 'syslog', 'fputc'}


class Env:
    def __init__(s, prog, mod, rep):
        s.prog, s.mod, s.rep = prog, mod, rep
        s.eff = effects.Effects(mod)
        s.own = resource.Owner(mod)
        s.says = set()
        cg = lib.callgraph(mod)
        ch = True
        while ch:
            ch = False
            for f in mod.fns:
                if f not in s.says and any(c in SAYS or c in s.says for c in cg[f]):
                    s.says.add(f)
                    ch = True

    def releases(s, i, fn, op_ok):
        """does a call release the members of an object (argument accepted by op_ok)"""
        c = i.callee
        if c is None or c not in s.mod.fns:
            return None
        for k, offs in s.own.deepoff[c].items():
            if len({o for o, inner in offs if o is not None}) >= 2 and k < len(i.args) and op_ok(i.args[k]):
                return (c, k)
        return None


class Build(Rule):
    """what a function that may reuse an object does to it before it fails, and on success
    ts: 'touched' 'risk' ('chk', symbol) ('rel', n)"""

    def __init__(s, env, fn, base, err):
        s.e, s.f, s.base, s.err = env, fn, base, err
        s.counts = {}        # releases on success -> instruction
        s.stored = {}        # offset -> store of an owned member
        s.rel = set()
        s.ends = 0

    def run(s):
        st = State()
        st.ts = frozenset({('rel', 0)})
        st.facts[Sym(s.f.params[s.base][0])] = (-INF, INF, frozenset({0}))
        Engine(s.f, s, 400000).run(st)

    def bad(s, key, ins, msg, cx):
        s.e.rep.violation('%s:%s' % (lib.fname(ins), key), ins.loc(), msg, cx.trace())

    def isbase(s, op):
        return any(o == ('l', s.f.params[s.base][0]) for o in resource.direct(s.f, op))

    def instr(s, ts, ins, cx):
        if ins.op == 'call' and ins.callee in s.e.mod.fns:
            r = s.e.releases(ins, s.f, s.isbase)
            if r:
                s.rel.add(r)
                n = next(x[1] for x in ts if x[0] == 'rel')
                ts = frozenset(x for x in ts if x[0] != 'rel') | {('rel', min(n + 1, 2))}
        if ins.op == 'store' and ins.type is None:
            b, off = ditypes.base_off(s.f, ins.args[1])
            if s.isbase(b) and off is not None and ins.extra == 'ptr' and ins.args[0][0] == 'l':
                for o in resource.direct(s.f, ins.args[0]):
                    d = s.f.defs.get(o[1]) if o[0] == 'l' else None
                    if d is not None and d.op == 'call' and (s.e.own.acquired(s.f, d) or d.callee in resource_append):
                        s.stored.setdefault(off, ins)
        for a in s.e.eff.touched(s.f, ins):
            if s.base in s.e.eff.derived(s.f, a):
                s.e.rep.count('changes to the configuration in use followed', 1, '%s:%s' % (lib.fname(ins), ins.line))
                ts = ts | {('touched',)}
        if ins.op == 'call' and ('touched',) in ts and s.err is not None:
            if any(a == ('l', s.f.params[s.err][0]) for a in ins.args) and ins.callee in s.e.mod.fns and \
                    any(s.err in s.e.eff.derived(s.f, a) for a in s.e.eff.touched(s.f, ins)):
                ts = ts | {('risk',)}
        return ts

    def loaded(s, ts, ins, cx):
        if ('risk',) in ts and s.err is not None and ins.args[0] == ('l', s.f.params[s.err][0]):
            v = cx.val(('l', ins.res))
            if v[0] == 's' and v[1] != '?':
                return ts | {('chk', v)}
        return ts

    def edge(s, ts, frm, to, cx):
        if any(x[0] == 'chk' and cx.null(x[1]) is True for x in ts):
            return frozenset(x for x in ts if x[0] not in ('chk', 'risk'))
        return ts

    def exit(s, ts, ins, cx):
        if not ins.args:
            return
        s.ends += 1
        n = next(x[1] for x in ts if x[0] == 'rel')
        z = cx.null(cx.val(ins.args[0]))
        if ('touched',) in ts and z is not False:
            s.bad('failed-after-change', ins, 'can fail after it already changed or released the configuration in use', cx)
        elif ('risk',) in ts:
            s.bad('error-after-change', ins, 'can report an error after it already changed or released the configuration in use', cx)
        if z is not True:
            s.counts.setdefault(n, (ins, cx.trace()))


resource_append = {'bc_slist_append', 'bc_slist_prepend', 'bc_slist_append_list'}


class Slot(Rule):
    """ts: 'orig' | ('new', value, checked?) ; 'touched' 'built' 'said' ('rel', n)"""

    def __init__(s, env, fn, slot, builders, fresh):
        s.e, s.f, s.slot, s.b, s.fresh = env, fn, slot, builders, fresh
        s.p = ('l', fn.params[slot][0])

    def init(s, fn):
        return frozenset({('orig',), ('rel', 0)})

    def bad(s, key, ins, msg, cx):
        s.e.rep.violation('%s:%s' % (lib.fname(ins), key), ins.loc(), msg, cx.trace())

    def isslot(s, op):
        return s.p in resource.direct(s.f, op)

    def isold(s, op):
        r = resource.direct(s.f, op)
        return bool(r) and all(o[0] == 'l' and o[1] in s.f.defs and s.f.defs[o[1]].op == 'load' and s.isslot(s.f.defs[o[1]].args[0])
                               for o in r)

    def checked(s, op, cx):
        if cx.null(cx.val(op)) is False:
            return True
        for o in resource.direct(s.f, op):
            d = s.f.defs.get(o[1]) if o[0] == 'l' else None
            if d is None or d.op != 'call':
                continue
            for a in d.args:
                x = s.f.defs.get(a[1]) if a[0] == 'l' else None
                if x is not None and x.op == 'alloca':
                    v = cx.mem(a)
                    if v is not None and cx.null(v) is True:
                        return True
        return False

    def instr(s, ts, ins, cx):
        if ins.op == 'store' and s.isslot(ins.args[1]):
            if s.isold(ins.args[0]) and not any(x[0] == 'new' for x in ts):
                return ts
            s.e.rep.count('replacements of the configuration checked', 1, '%s:%s' % (lib.fname(ins), ins.line))
            ts = frozenset(x for x in ts if x[0] not in ('orig', 'new'))
            return ts | {('new', cx.val(ins.args[0]), s.checked(ins.args[0], cx), ins)}
        if ins.op == 'call':
            c = ins.callee
            if c in s.b:
                ts = ts | {('built', c)}
                return ts
            if c in SAYS or c in s.e.says:
                ts = ts | {('said',)}
            r = s.e.releases(ins, s.f, s.isold)
            if r:
                n = next(x[1] for x in ts if x[0] == 'rel')
                ts = frozenset(x for x in ts if x[0] != 'rel') | {('rel', min(n + 1, 2))}
        if ins.op == 'store' and s.isslot(ditypes.base_off(s.f, ins.args[1])[0]):
            return ts
        for a in s.e.eff.touched(s.f, ins):
            if s.slot in s.e.eff.derived(s.f, a):
                ts = ts | {('touched',)}
        return ts

    def exit(s, ts, ins, cx):
        s.e.rep.count('ends of a reload checked', 1, '%s:%s' % (lib.fname(ins), ins.line))
        z = cx.null(cx.val(ins.args[0])) if ins.args else False
        new = next((x for x in ts if x[0] == 'new'), None)
        good = new is None or new[2] or s.checked(new[3].args[0], cx)
        if new is not None and z is not False:
            s.bad('slot-lost', ins, 'the configuration in use is replaced (line %s) although the reload failed' % new[3].line, cx)
        if new is not None and z is not True and not good:
            s.bad('slot-unchecked', ins, 'the configuration in use is replaced (line %s) by a result that was not checked' % new[3].line, cx)
        if z is True and ('touched',) in ts:
            s.bad('failed-after-change', ins, 'the reload fails after the configuration in use was changed or released', cx)
        if z is True and any(x[0] == 'built' for x in ts) and ('said',) not in ts:
            s.bad('silent', ins, 'the reload fails without reporting why', cx)
        n = next(x[1] for x in ts if x[0] == 'rel')
        built = [x[1] for x in ts if x[0] == 'built']
        if z is False and built:
            got = {n + k for c in built for k in s.b[c]}
            if got and got != {1}:
                s.bad('released-%s' % '-or-'.join('once' if g == 1 else 'never' if g == 0 else 'twice' for g in sorted(got)), ins,
                      'after a successful reload the replaced configuration was released %s times' %
                      ' or '.join(str(g) for g in sorted(got)), cx)
        elif not built and n:
            s.bad('released', ins, 'the configuration in use is released although nothing replaces it', cx)


class Loop(Rule):
    """ts: ('res', symbol, 'reload'|'build') 'failed' 'asked'"""

    def __init__(s, env, fn):
        s.e, s.f = env, fn
        # the blocks of the session loop: what is on a cycle through the reload
        s.body = set()
        for i in fn.calls(RELOAD):
            fwd, back = reach(i.block, lambda b: b.succs), reach(i.block, lambda b: b.preds)
            s.body |= fwd & back

        # what the loop asks: the objects without constant contents that it reads itself or through a function it calls
        s.flags = set()
        for b in s.body:
            for i in b.instrs:
                if i.op == 'load':
                    s.flags |= s.shared(fn, i.args[0])
                elif i.op == 'call' and i.callee in env.mod.fns and i.callee != RELOAD:
                    for j in env.mod.fns[i.callee].instrs():
                        if j.op == 'load':
                            s.flags |= s.shared(env.mod.fns[i.callee], j.args[0])
        s.stops = set()
        cg = lib.callgraph(env.mod)
        for f, g in env.mod.fns.items():
            if any(j.op == 'store' and s.shared(g, j.args[1]) & s.flags for j in g.instrs()):
                s.stops.add(f)
        grow = True
        while grow:
            grow = False
            for f in env.mod.fns:
                if f not in s.stops and f not in (RELOAD, LOOP) and any(c in s.stops for c in cg[f]):
                    s.stops.add(f)
                    grow = True

    def shared(s, fn, op):
        b, _ = ditypes.base_off(fn, op)
        return {b[1]} if b[0] == 'g' and b[1] in s.e.mod.globals and not s.e.mod.globals[b[1]].const else set()

    def init(s, fn):
        return frozenset()

    def bad(s, key, ins, msg, cx):
        s.e.rep.violation('%s:%s' % (lib.fname(ins), key), ins.loc(), msg, cx.trace())

    def instr(s, ts, ins, cx):
        if any(x[0] == 'failed' for x in ts) and ins.block in s.body and (
                ins.op == 'store' and s.shared(s.f, ins.args[1]) & s.flags or ins.op == 'call' and ins.callee in s.stops and ins.callee != RELOAD):
            s.bad('ends', ins, 'the session is told to end because of a failure', cx)
        if ins.op == 'call':
            if ins.callee == RELOAD:
                return frozenset()
            if ins.callee is None and ('failed', 'reload') in ts:
                s.bad('built-after-failure', ins, 'the site is rebuilt although the reload failed', cx)
            if ins.callee in EXITS and any(x[0] == 'failed' for x in ts):
                s.bad('ends', ins, 'the session ends because of a failure', cx)
        return ts

    def loaded(s, ts, ins, cx):
        b, _ = ditypes.base_off(s.f, ins.args[0])
        if ins.block not in s.body:
            return ts
        if b[0] == 'g' and b[1] in s.e.mod.globals and not s.e.mod.globals[b[1]].const and any(x[0] == 'failed' for x in ts):
            return ts | {('asked',)}
        return ts

    def after(s, ts, ins, cx):
        if ins.op == 'call' and ins.res is not None:
            if ins.callee == RELOAD:
                return frozenset({('res', cx.val(('l', ins.res)), 'reload')})
            if ins.callee is None:
                return frozenset(x for x in ts if x[0] != 'res') | {('res', cx.val(('l', ins.res)), 'build')}
            if ins.callee in s.e.mod.fns and ins.block in s.body and any(x[0] == 'failed' for x in ts) and s.asks(ins.callee):
                return ts | {('asked',)}
        return ts

    def asks(s, f):
        return any(i.op == 'load' and (lambda b: b[0] == 'g' and b[1] in s.e.mod.globals and not s.e.mod.globals[b[1]].const)(
            ditypes.base_off(s.e.mod.fns[f], i.args[0])[0]) for i in s.e.mod.fns[f].instrs())

    def edge(s, ts, frm, to, cx):
        for x in list(ts):
            if x[0] == 'res':
                z = cx.null(x[1])
                if z is (x[2] == 'reload'):
                    s.e.rep.count('failures followed in the session loop', 1, x[2])
                    ts = ts - {x} | {('failed', x[2])}
                elif z is not None:
                    ts = ts - {x}
        return ts

    def exit(s, ts, ins, cx):
        s.e.rep.count('ends of a session checked', 1, '%s:%s' % (lib.fname(ins), ins.line))
        for x in ts:
            if x[0] == 'failed' and ('asked',) not in ts:
                s.bad('ends', ins, 'the session ends because the %s failed' % x[1], cx)


def reach(b, step):
    seen, work = set(), list(step(b))
    while work:
        x = work.pop()
        if x not in seen:
            seen.add(x)
            work += step(x)
    return seen


def analyse(rep, prog, mod):
    env = Env(prog, mod, rep)
    rf, lf = mod.fns[RELOAD], mod.fns[LOOP]
    slot = 0
    # ---- builders: what is stored in the slot comes from them
    bs = {}
    p = ('l', rf.params[slot][0])
    for i in rf.instrs():
        if i.op == 'store' and p in resource.direct(rf, i.args[1]):
            for o in resource.direct(rf, i.args[0]):
                d = rf.defs.get(o[1]) if o[0] == 'l' else None
                if d is not None and d.op == 'call' and d.callee in mod.fns:
                    bs.setdefault(d.callee, []).append(d)
    counts = {}
    for c, calls in sorted(bs.items()):
        cf = mod.fns[c]
        counts[c] = set()
        for d in calls:
            base = None
            for k, a in enumerate(d.args):
                os = resource.direct(rf, a)
                if os and all(o[0] == 'l' and o[1] in rf.defs and rf.defs[o[1]].op == 'load' and
                              p in resource.direct(rf, rf.defs[o[1]].args[0]) for o in os):
                    base = k
            err = next((k for k, a in enumerate(d.args) if a[0] == 'l' and a[1] in rf.defs and rf.defs[a[1]].op == 'alloca'), None)
            rep.count('functions that build a configuration', 1, c)
            if base is None:
                counts[c].add(0)
                continue
            b = Build(env, cf, base, err)
            b.run()
            counts[c] |= set(b.counts)
            for n, (ins, tr) in sorted(b.counts.items()):
                if n > 1:
                    rep.violation('%s:released-twice' % lib.fname(ins), ins.loc(), 'the replaced configuration is released more than '
                                  'once', tr)
            freed = set()
            for g, k in b.rel:
                for off, inner in env.own.deepoff[g][k]:
                    if inner is None and off is not None:
                        freed.add(off)
            if not b.rel:
                continue
            for off, st in sorted(b.stored.items()):
                rep.count('replaced members checked', 1, '%s:%s' % (c, mem(cf, st)))
                if off not in freed:
                    rep.violation('%s:not-released:%s' % (lib.fname(st), mem(cf, st)), st.loc(), 'member %s is replaced on every reload '
                                  'and its old value is not released by %s' % (mem(cf, st), ', '.join(sorted(g for g, _ in b.rel))))
            for g, k in sorted(b.rel):
                stale(rep, env, cf, base, g, k, b)
    Engine(rf, Slot(env, rf, slot, counts, None), 400000).run()
    Engine(lf, Loop(env, lf), 400000).run()
    # ---- nothing below a reload ends the program
    seen, work = set(), [RELOAD]
    while work:
        f = work.pop()
        if f in seen:
            continue
        seen.add(f)
        fn = mod.fns[f]
        for i in fn.calls():
            work += env.eff.targets(i)
            if i.callee in EXITS and not nomem(fn, i):
                rep.violation('%s:exits' % lib.fname(i), i.loc(), '%s is called while reloading: the session ends' % i.callee)
    rep.count('functions reached from a reload', len(seen), None)


def mem(fn, st):
    m = ditypes.member_at(fn, st.args[1])
    return m[1] if m else '?'


def nomem(fn, i):
    """guarded by a failed allocation"""
    for v, c in lib.const_guards(fn, i.block):
        d = fn.defs.get(v[1]) if v[0] == 'l' else None
        if c == 0 and d is not None and d.op == 'call' and d.callee in ('malloc', 'calloc', 'realloc', 'strdup', 'reallocarray'):
            return True
    return False


def stale(rep, env, cf, base, g, k, b):
    """members released by g are assigned again"""
    gf = env.mod.fns[g]
    gp = ('l', gf.params[k][0])
    again = set()
    for i in gf.instrs():
        if i.op == 'store':
            x, off = ditypes.base_off(gf, i.args[1])
            if x == gp:
                again.add(off)
    rets = [i for i in cf.instrs() if i.op == 'ret']
    for i in cf.instrs():
        if i.op == 'store':
            x, off = ditypes.base_off(cf, i.args[1])
            if b.isbase(x) and all(reaches_all(cf, c, i) for c in cf.calls(g)):
                again.add(off)
    for off, inner in sorted(env.own.deepoff[g][k], key=repr):
        if inner is None and off is not None and off not in again:
            rep.violation('%s:stale-member-%s' % (g, off), next(gf.instrs()).loc(), 'the member at offset %s is released and keeps its old '
                          'value' % off)


def reaches_all(fn, c, i):
    """every path from c to a return passes the block of i"""
    if i.block is c.block:
        return c.block.instrs.index(i) > c.block.instrs.index(c)
    seen, work = set(), list(c.block.succs)
    if c.block.term.op == 'ret':
        return False
    while work:
        b = work.pop()
        if b in seen or b is i.block:
            continue
        seen.add(b)
        if b.term.op == 'ret':
            return False
        work.extend(b.succs)
    return True


BASE = r'''#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdio.h>
#include <unistd.h>
typedef struct { char *a; char *b; char *path; long t; } bm_ctx_t;
typedef struct { char *msg; } bc_error_t;
static bool running;
void* bc_malloc(size_t n){ void *p=malloc(n); if(!p) exit(1); return p;}
char* bc_strdup(const char *s){ char *r=bc_malloc(strlen(s)+1); strcpy(r,s); return r;}
void bc_error_free(bc_error_t *e){ if(e) free(e); }
void bc_error_print(bc_error_t *e, const char *p){ fprintf(stderr,"%%s\n",p); }
char* bm_settings_parse(const char *f, bc_error_t **err){ if(f[0]=='x'){ *err=bc_malloc(8); return NULL; } return bc_strdup(f); }
void bm_ctx_free_internal(bm_ctx_t *c){ if(!c) return; free(c->a); c->a=NULL; free(c->b); c->b=NULL; %(fpath)s }
bm_ctx_t* bm_ctx_new(bm_ctx_t *base, const char *f, bc_error_t **err){ if(f==NULL||err==NULL||*err!=NULL) return NULL;
 %(early)s char *a=bm_settings_parse(f,err); if(*err!=NULL) return NULL;
 bm_ctx_t *rv; if(base==NULL){ rv=bc_malloc(sizeof(bm_ctx_t)); } else { %(rel)s rv=base; }
 rv->a=a; rv->b=bc_strdup("b"); rv->path=bc_strdup(f); rv->t=0; %(late)s return rv; }
bool bm_ctx_reload(bm_ctx_t **ctx){ if(*ctx==NULL) return false;
 if(access((*ctx)->path,F_OK)==0){ char *t=bc_strdup((*ctx)->path); bc_error_t *err=NULL; %(touch)s %(call)s free(t);
  if(err!=NULL){ %(say)s bc_error_free(err); return false; } %(set)s return true; }
 (*ctx)->t++; return true; }
int bm_reloader_run(bm_ctx_t **ctx, int (*f)(bm_ctx_t*)){ running=true;
 while(running){ if(!bm_ctx_reload(ctx)){ sleep(5); %(fail)s } if(f(*ctx)!=0){ sleep(5); %(fail2)s } sleep(1); } %(last)s return 0; }
static int all(bm_ctx_t *c){ running=false; return puts(c->a); }
int main(void){ bc_error_t *e=NULL; bm_ctx_t *c=bm_ctx_new(NULL,"f",&e); return bm_reloader_run(&c,all); }'''
GOOD = dict(fpath='free(c->path); c->path=NULL;', early='', rel='bm_ctx_free_internal(base);', late='', touch='',
            call='bm_ctx_t *n=bm_ctx_new(*ctx,t,&err);', say='bc_error_print(err,"x");', set='*ctx=n;', fail='continue;', fail2='continue;', last='')


def run(rep, tier):
    rep.rule('On every path through bm_ctx_reload that fails, the slot still holds its entry value and nothing reached from it was '
             'changed or released (effect summaries of every callee); the slot only receives a result that was checked. The function '
             'that builds the new configuration in place of the old one has a commit point: after the first change to the old one it '
             'neither returns NULL nor reports an error, and every successful path releases the old one exactly once, completely '
             '(every member it replaces) and without leaving stale members. In the session loop a failed reload never leads to a '
             'rebuild, and neither failure leaves the loop without asking whether to stop; nothing below a reload exits.')
    rep.assumption('allocation failure ends the program; the builder is followed with an existing configuration (base not NULL)')
    mod = ir.load('make')
    for f in (RELOAD, LOOP):
        if f not in mod.fns:
            raise frontend.AnalysisBroken('no function %s' % f)
    analyse(rep, 'make', mod)
    rep.count('functions in the program', len(mod.fns), None)
    rep.floor('ends of a reload checked', 3)
    rep.floor('failures followed in the session loop', 2)
    rep.floor('ends of a session checked', 1)

    def ex(**kw):
        q = lib.Quiet()
        analyse(q, 'x', frontend.snippet(BASE % dict(GOOD, **kw)))
        return q.v
    rep.selftest('clean', ex() == [])
    rep.selftest('slot lost', ex(call='*ctx=bm_ctx_new(*ctx,t,&err);', set='') == ['bm_ctx_reload:slot-lost'])
    rep.selftest('early release', 'bm_ctx_new:failed-after-change' in ex(early='if(base) bm_ctx_free_internal(base);', rel=''))
    rep.selftest('late error', ex(late='free(bm_settings_parse(f,err));') == ['bm_ctx_new:error-after-change'])
    rep.selftest('late error, handled', ex(late='free(bm_settings_parse(f,err)); if(*err!=NULL) return NULL;') ==
                 ['bm_ctx_new:failed-after-change'])
    rep.selftest('never released', ex(rel='') == ['bm_ctx_reload:released-never'])
    rep.selftest('incomplete', ex(fpath='') == ['bm_ctx_new:not-released:path'])
    rep.selftest('timestamp', ex(touch='(*ctx)->t=1;') == ['bm_ctx_reload:failed-after-change'])
    rep.selftest('silent', ex(say='') == ['bm_ctx_reload:silent'])
    rep.selftest('rebuilds', ex(fail='') == ['bm_reloader_run:built-after-failure'])
    rep.selftest('leaves', ex(fail='break;') == ['bm_reloader_run:ends'] and ex(fail2='return 1;') == ['bm_reloader_run:ends'])
    rep.selftest('leaves, flag read later', ex(fail='break;', last='if(running) puts("x");') == ['bm_reloader_run:ends'])
    rep.selftest('told to stop', ex(fail='running=false; continue;') == ['bm_reloader_run:ends'])
    rep.selftest('separate object', ex(call='bm_ctx_t *n=bm_ctx_new(NULL,t,&err);', set='bm_ctx_free_internal(*ctx); free(*ctx); *ctx=n;')
                 == [])
