"""The contract of the error out-parameter."""
import re
from engine import frontend, ir, lib, ditypes
from engine.paths import Rule, Engine, Sym
from engine.failure import ERRS, reports
from checks.C20 import takes_error

NONNULL = {'bc_malloc', 'bc_realloc', 'bc_strdup', 'bc_strndup', 'bc_strdup_printf', 'bc_strdup_vprintf', 'bc_trie_new', 'bc_string_new',
           'bc_error_new', 'bc_error_new_printf', 'bc_error_parser', 'bc_string_free', 'bc_shell_quote', 'bc_slist_append'}
CLEAN = re.compile(r'free|close|unlink|^llvm\.')
# an error that only means "the answer is no"
QUERIES = {'blogc_sysinfo_get_inside_docker'}
ANSWERS = {'write', 'send', 'sendto', 'sendmsg'}


def error_ptr(mod, fn, op):
    """the operand is an error object"""
    t = ditypes.type_of(fn, op)
    return t is not None and 'bc_error_t' in str(ditypes.typename(mod, ditypes.pointee(mod, t))) if t is not None and \
        ditypes.pointee(mod, t) is not None else False


class Contract(Rule):
    """ts: frozenset of (cell, state, site) ; no item: no error.  states: set, seen, freed; site: result of the call
    that failed or None.  plus ('poison', result)"""

    def __init__(s, mod, fn, summ, rep, bad):
        s.mod, s.f, s.summ, s.bad = mod, fn, summ, bad
        s.params = {('l', p) for k, (p, t) in enumerate(fn.params) if takes_error(mod, fn.name) == k}
        s.own = set(s.params)
        s.calls = {}
        for i in fn.calls():
            k = takes_error(mod, i.callee) if i.callee else None
            if k is not None:
                c = s.cell(i.args[k])
                s.calls[id(i)] = (k, c)
                if c is not None:
                    s.own.add(c)
        s.loads = {}
        for i in fn.instrs():
            if i.op == 'load':
                c = s.cell(i.args[0])
                if c in s.own:
                    s.loads[i.res] = c
        s.setnull, s.setother = True, False
        s.strict = True
        s.seen = set()

    def edge(s, ts, frm, to, cx):
        # a precondition of the function does not hold on this path
        if any(cx.null(cx.val(('l', p))) is True for p, t in s.f.params if t == 'ptr'):
            return ts | {('pre', None, None)}
        return ts

    def cell(s, op):
        o = lib.origins(s.f, op)
        if len(o) != 1:
            return None
        o = next(iter(o))
        if o[0] != 'l':
            return None
        d = s.f.defs.get(o[1])
        return o if d is None or d.op in ('alloca', 'load') else None

    def init(s, fn):
        return frozenset()

    def get(s, ts, c):
        for x in ts:
            if x[0] == c:
                return x
        return None

    def put(s, ts, c, st=None, site=None):
        ts = frozenset(x for x in ts if x[0] != c)
        return ts | {(c, st, site)} if st else ts

    def viol(s, ins, what, msg, cx):
        s.bad.setdefault((ins.loc(), what), (s.f, ins, what, msg, cx.trace()))

    def assume(s, ins, cx):
        if ins.op == 'call' and s.summ.get(ins.callee, {}).get('total') and not any(
                cx.null(cx.val(a)) is True for a, (p, t) in zip(ins.args, s.mod.fns[ins.callee].params) if t == 'ptr'):
            return [('ne', 0)]
        if ins.op == 'call' and ins.callee in NONNULL:
            if ins.callee == 'bc_string_free' and not (len(ins.args) > 1 and ins.args[1] == ('i', 0)):
                return ()
            return [('ne', 0)]
        if ins.op == 'load' and ins.res in s.loads:
            x = s.get(cx.st.ts, s.loads[ins.res])
            if x is None:
                return [('eq', 0)]
            if x[1] in ('set', 'seen'):
                return [('ne', 0)]
        return ()

    def from_cell(s, op):
        """the cell an error value was read from"""
        r = set()
        for o in lib.origins(s.f, op):
            if o[0] == 'l' and o[1] in s.loads:
                r.add(s.loads[o[1]])
        return r

    def instr(s, ts, ins, cx):
        if ins.op == 'load' and ins.res not in s.loads:
            # a field of the error is looked at
            d = s.f.defs.get(ins.args[0][1]) if ins.args[0][0] == 'l' else None
            if d is not None and d.op == 'getelementptr' or ins.args[0][0] == 'l' and ins.args[0][1] in s.loads:
                for c in s.from_cell(ins.args[0]):
                    x = s.get(ts, c)
                    if x is None:
                        s.viol(ins, 'absent', 'an error is looked at on a path on which none was stored', cx)
                    elif x[1] == 'freed':
                        s.viol(ins, 'freed', 'an error is looked at after it was released', cx)
                    elif x[1] == 'set':
                        ts = s.put(ts, c, 'seen', x[2])
            ts = s.used(ts, ins, ins.args[0], cx)
        if ins.op == 'store':
            c = s.cell(ins.args[1])
            if c in s.own:
                x = s.get(ts, c)
                v = cx.val(ins.args[0])
                src = s.from_cell(ins.args[0])
                if cx.null(v) is True:
                    if x is not None and x[1] == 'set':
                        s.viol(ins, 'dropped', 'a stored error is forgotten', cx)
                    return s.put(ts, c)
                if x is not None and x[1] in ('set', 'seen') and src != {c}:
                    s.viol(ins, 'second', 'a second error replaces the first', cx)
                s.seen.add(('stores of an error', ins.loc()))
                if len(src) == 1 and src != {c}:
                    o = next(iter(src))
                    y = s.get(ts, o)
                    if y is None:
                        # NULL is passed on
                        return s.put(ts, c)
                    ts = s.put(ts, o, 'freed', y[2])
                return s.put(ts, c, 'set', None)
            return ts
        if ins.op != 'call':
            return ts
        if id(ins) in s.calls:
            k, c = s.calls[id(ins)]
            s.seen.add(('calls that can store an error', ins.loc()))
            if c is not None:
                x = s.get(ts, c)
                if x is not None and cx.null(cx.val(ins.args[k])) is not True:
                    s.viol(ins, 'again', '%s() is called although the error cell is not empty (%s)' % (
                        ins.callee, {'set': 'a failure was not looked at', 'seen': 'the error was not released'}.get(x[1], 'released error')), cx)
                    ts = s.put(ts, c)
        if ins.callee in ('bc_error_print', 'bc_error_free') or ins.callee in ERRS:
            for c in s.from_cell(ins.args[0]):
                x = s.get(ts, c)
                if x is None:
                    continue
                if ins.callee == 'bc_error_print':
                    if x[1] == 'freed':
                        s.viol(ins, 'freed', 'an error is looked at after it was released', cx)
                    ts = s.put(ts, c, 'seen', x[2])
                elif ins.callee == 'bc_error_free':
                    if x[1] == 'freed':
                        s.viol(ins, 'twice', 'an error is released twice', cx)
                    if x[1] == 'set' and s.f.name not in QUERIES and c not in s.params:
                        s.viol(ins, 'dropped', 'an error is released without having been looked at', cx)
                    ts = s.put(ts, c, 'freed', x[2])
        if ins.callee in ANSWERS:
            ts = frozenset((x[0], 'seen', x[2]) if x[1] == 'set' and x[0] not in s.params else x for x in ts)
        if not (ins.callee and CLEAN.search(ins.callee)):
            for a in ins.args:
                ts = s.used(ts, ins, a, cx)
        ts = frozenset(x for x in ts if x[0] != 'poison' or x[1] != ins.res)
        return ts

    def used(s, ts, ins, op, cx):
        if op[0] not in ('l', 'gep'):
            return ts
        o = None
        for x in ts:
            if x[0] == 'poison':
                o = o or lib.origins(s.f, op)
                v = cx.val(op) if op[0] == 'l' else None
                if v == ('s', x[2]) or o == {('l', x[1])}:
                    s.viol(ins, 'result', 'the result of a failed operation (line %d) is used' % s.f.defs[x[1]].line, cx)
        return ts

    def after(s, ts, ins, cx):
        if id(ins) not in s.calls:
            return ts
        k, c = s.calls[id(ins)]
        if c is None or cx.null(cx.val(ins.args[k])) is True:
            return ts
        sm = s.summ.get(ins.callee, {})
        v = cx.val(('l', ins.res)) if ins.res is not None else None
        ok = []
        if sm.get('strict') and v is not None and not any(
                cx.null(cx.val(a)) is True for j, a in enumerate(ins.args) if ins.fn.module.fns[ins.callee].params[j][1] == 'ptr'):
            ok = [(v, 'ne', 0)]
        out = [(ok, ts)]
        if sm.get('fails', True):
            fail = [(v, 'eq', 0)] if sm.get('null') and v is not None else []
            t = s.put(ts, c, 'set', ins.res)
            if ins.res is not None and v[0] == 's' and ins.type == 'ptr':
                t = t | {('poison', ins.res, v[1])}
            out.append((fail, t))
        return out

    def exit(s, ts, ins, cx):
        if ins.op != 'ret':
            return
        skip = ('pre', None, None) in ts
        v = cx.val(ins.args[0]) if ins.args else None
        for x in ts:
            if x[0] in ('poison', 'pre'):
                continue
            if x[0] in s.params:
                if x[1] == 'freed':
                    s.viol(ins, 'dangling', 'the caller is given an error that was released', cx)
                elif v is not None:
                    z = cx.null(v)
                    if z is not True:
                        s.setnull = False
                        if s.f.rettype == 'ptr':
                            s.viol(ins, 'partial', 'a result is returned together with an error', cx)
                s.setother = True
            elif x[1] == 'set':
                site = s.f.defs.get(x[2]) if x[2] else None
                s.viol(site or ins, 'dropped', 'a failure of %s() is not looked at before %s returns at line %d' % (
                    site.callee if site else 'an operation', s.f.name, ins.line), cx)
        if not any(x[0] in s.params for x in ts) and not skip and v is not None and s.f.rettype == 'ptr':
            if cx.null(v) is not False:
                s.strict = False
                if s.params and cx.null(v) is True and 'bc_slist_t' not in str(ditypes.typename(s.mod, ditypes.pointee(
                        s.mod, ditypes.ret_type(s.mod, s.f)))):
                    s.viol(ins, 'nothing', 'nothing is returned although no error was stored', cx)


def analyse(rep, prog, mod):
    # helpers without an error parameter that return NULL only when they are given NULL
    base = {}
    used = set()
    for fn in lib.own(mod):
        if takes_error(mod, fn.name) is not None:
            used |= {i.callee for i in fn.calls() if i.callee in mod.fns and takes_error(mod, i.callee) is None}
    for f in sorted(used):
        fn = mod.fns[f]
        if fn.rettype == 'ptr' and f not in NONNULL:
            r = Contract(mod, fn, {}, rep, {})
            Engine(fn, r).run()
            if r.strict:
                base[f] = {'total': True}
    summ = dict(base)
    while True:
        new = dict(base)
        bad = {}
        seen = set()
        for fn in lib.own(mod):
            k = takes_error(mod, fn.name)
            has = k is not None or any(i.callee and takes_error(mod, i.callee) is not None for i in fn.calls())
            if not has:
                continue
            r = Contract(mod, fn, summ, rep, bad)
            Engine(fn, r).run()
            seen |= r.seen
            if k is not None:
                new[fn.name] = {'null': r.setnull and fn.rettype == 'ptr', 'strict': r.strict and fn.rettype == 'ptr', 'fails': r.setother}
        if new == summ:
            break
        summ = new
    for k, l in seen:
        rep.count(k, 1, '%s:%s:%d' % (prog, l[0], l[1]))
    for f, d in summ.items():
        if f in base:
            rep.count('helpers that never return NULL', 1, '%s:%s' % (prog, f))
            continue
        rep.count('functions that can store an error', 1, '%s:%s %s' % (prog, f, ' '.join(sorted(x for x in d if d[x]))))
    for fn, ins, what, msg, tr in bad.values():
        rep.violation('%s:%s:%s:%s' % (prog, lib.fname(ins), ins.callee or ins.op, what), ins.loc(), msg, tr)
    return summ


def run(rep, tier):
    rep.rule('Along every path the error cell is empty, holds an error, or holds one that was looked at or released. Storing a second '
             'error, calling a fallible function with a non-empty cell, returning a non-NULL result together with an error, using the '
             'result of a failed call, looking at an error that does not exist or was released, and dropping one unseen are violations. '
             'Whether a function returns NULL exactly when it stores an error is computed per function and used at its calls.')
    rep.assumption('a function is called with an empty error cell (checked at every call); allocation does not fail')
    for prog, mod in lib.progs():
        analyse(rep, prog, mod)
    rep.floor('functions that can store an error', 8)
    rep.floor('stores of an error', 20)
    rep.floor('calls that can store an error', 12)
    m = frontend.snippet(r'''#include <stdlib.h>
#include <stdio.h>
typedef struct { int type; char *msg; } bc_error_t;
bc_error_t *bc_error_new(int t, const char *m);
void bc_error_free(bc_error_t*e);
char *bc_file_get_contents(const char*f, bc_error_t **err){ if(err==NULL||*err!=NULL) return NULL; if(f[0]==0){ *err=bc_error_new(1,"x"); return NULL; } return malloc(1); }
char *blogc_template_parse(const char*f, bc_error_t **err){ if(f[0]==0){ *err=bc_error_new(1,"x"); } if(f[0]==1) *err=bc_error_new(1,"x"); return (char*)f; }
int bad1(const char*f){ bc_error_t *e=NULL; char *s=bc_file_get_contents(f,&e); return puts(s); }
int bad2(const char*f){ bc_error_t *e=NULL; char *s=bc_file_get_contents(f,&e); if(e!=NULL){ bc_error_free(e); return 1; } s=bc_file_get_contents(f,&e); if(s==NULL){ puts(e->msg); bc_error_free(e); puts(e->msg); return 1;} return puts(s); }
int ok(const char*f){ bc_error_t *e=NULL; char *s=bc_file_get_contents(f,&e); if(e!=NULL){ puts(e->msg); bc_error_free(e); return 1; } int r=puts(s); free(s); return r; }''')
    q = lib.Quiet()
    analyse(q, 's', m)
    rep.selftest('broken error contracts', {'s:blogc_template_parse:store:second', 's:blogc_template_parse:ret:partial', 's:bad1:bc_file_get_contents:dropped',
                                            's:bad1:puts:result', 's:bad2:bc_error_free:dropped', 's:bad2:load:freed'} <= set(q.v)
                 and not any(':ok:' in x for x in q.v))
