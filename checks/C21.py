"""Lifetime of heap objects: nothing used or released after its release, only whole owned blocks are released."""
from engine import frontend, ir, lib, resource, ditypes
from engine.paths import Engine

APPEND = {'bc_slist_append': 1, 'bc_slist_prepend': 1}
WHY = {'interior': 'a pointer into the middle of an object', 'literal': 'constant data', 'local': 'an object on the stack',
       'borrowed': 'a value that its container or the library still owns'}


def origin(mod, r):
    fn = mod.fns[r[1]]
    d = fn.defs.get(r[2][1]) if r[2][0] == 'l' else None
    if d is None:
        return ''
    what = d.callee if d.op == 'call' else d.op
    return ' (%s, line %s of %s)' % (what, d.line, lib.fname(d))


def tag(mod, r):
    d = mod.fns[r[1]].defs.get(r[2][1]) if r[2][0] == 'l' else None
    return '%s:%s' % (r[0], d.callee if d is not None and d.op == 'call' else r[0])


def analyse(rep, prog, mod):
    own = resource.Owner(mod)
    whole = resource.Whole(own)
    sinks = resource.Sinks(own)
    owned = owned_members(mod, own)
    for fn in lib.own(mod):
        owning = {}
        for i in fn.calls():
            if i.callee in APPEND and i.res:
                full = [x for x in sinks.of(fn, ('l', i.res)) if own.releases(x[1]) and own.inner(x[1], x[2])]
                if full:
                    owning[i] = full
        # ---- only whole blocks that are owned
        for i in fn.calls():
            todo = [(k, 'releases', i) for k, kd, deep, must in own.releases(i) if kd == 'heap' and must]
            if i in owning:
                todo.append((APPEND[i.callee], 'stores in a list whose elements are released (%s line %s)' % (
                    owning[i][0][0], owning[i][0][1].line), i))
            if i.callee == 'bc_trie_insert' and len(i.args) > 2 and frees(mod, whole, fn, i.args[0]):
                todo.append((2, 'stores in a map whose values are released', i))
            for k, how, ins in todo:
                if not how.startswith('releases'):
                    shared(rep, prog, mod, own, fn, owned, i.args[k], i, how)
                rep.count('releases and transfers of ownership traced', 1, '%s:%s:%s' % (prog, lib.fname(i), i.line))
                for r in sorted(whole.roots(fn, i.args[k]), key=repr):
                    if r[0] in WHY:
                        rep.violation('%s:%s:not-whole:%s' % (prog, lib.fname(i), tag(mod, r)), i.loc(),
                                      '%s %s%s' % (how, WHY[r[0]], origin(mod, r)))
        for i in fn.instrs():
            if i.op == 'store' and i.args[0][0] == 'l':
                m = ditypes.member_at(fn, i.args[1])
                if m and (m[0], m[1]) in owned:
                    rep.count('stores into owned members traced', 1, None)
                    shared(rep, prog, mod, own, fn, owned, i.args[0], i, 'stores in %s.%s' % (m[0], m[1]))
        # ---- nothing after the release
        rep.count('functions explored', 1, '%s:%s' % (prog, fn.name))
        Engine(fn, resource.Dead(fn, Named(rep, prog), own, owning), 400000).run()


class Named:
    def __init__(s, rep, prog):
        s.rep, s.prog = rep, prog

    def count(s, *a):
        s.rep.count(*a)

    def violation(s, key, loc, msg, trace=None):
        s.rep.violation('%s:%s' % (s.prog, key), loc, msg, trace)


def owned_members(mod, own):
    """structure members that some function releases"""
    r = {}
    for fn in lib.own(mod):
        for i in fn.calls():
            for k, kd, deep, must in own.releases(i):
                if kd != 'heap' or not must:
                    continue
                for o in resource.direct(fn, i.args[k]):
                    d = fn.defs.get(o[1]) if o[0] == 'l' else None
                    if d is not None and d.op == 'load':
                        m = ditypes.member_at(fn, d.args[0])
                        if m and not ditypes_container(m):
                            r.setdefault((m[0], m[1]), []).append('%s:%s' % (lib.fname(i), i.line))
    return r


def ditypes_container(m):
    return 'slist' in m[0] or 'trie' in m[0]


def shared(rep, prog, mod, own, fn, owned, op, ins, how):
    """does the structure a value is read from keep owning it?"""
    for o in resource.direct(fn, op):
        d = fn.defs.get(o[1]) if o[0] == 'l' else None
        if d is None or d.op != 'load':
            continue
        m = ditypes.member_at(fn, d.args[0])
        if not m or (m[0], m[1]) not in owned:
            continue
        b, off = ditypes.base_off(fn, d.args[0])
        base = lib.origins(fn, b)
        for i in fn.instrs():
            if i.op == 'store':
                n = ditypes.member_at(fn, i.args[1])
                if n and (n[0], n[1]) == (m[0], m[1]):
                    break
            elif i.op == 'call':
                if any(lib.origins(fn, i.args[k]) & base for k, kd, deep, must in own.releases(i)):
                    break
        else:
            rep.violation('%s:%s:two-owners:%s.%s' % (prog, lib.fname(ins), m[0], m[1]), ins.loc(),
                          '%s %s.%s, which its structure keeps and releases too (%s)' % (how, m[0], m[1], owned[(m[0], m[1])][0]))


def frees(mod, whole, fn, op):
    """does the map release its values with free()?"""
    seen, work = set(), [(fn, op)]
    r = []
    while work:
        f, o0 = work.pop()
        for o in lib.origins(f, o0):
            if (f.name, o) in seen or o[0] != 'l':
                continue
            seen.add((f.name, o))
            d = f.defs.get(o[1])
            if d is None:
                ps = [p for p, _ in f.params]
                if o[1] in ps and not whole.taken(f.name):
                    for cf, ci in lib.callers(mod, f.name):
                        if ps.index(o[1]) < len(ci.args):
                            work.append((cf, ci.args[ps.index(o[1])]))
            elif d.op == 'call':
                if d.callee == 'bc_trie_new':
                    r.append(d.args[0] == ('g', 'free'))
                elif d.callee in mod.fns:
                    for b in mod.fns[d.callee].blocks.values():
                        if b.term.op == 'ret' and b.term.args:
                            work.append((mod.fns[d.callee], b.term.args[0]))
    return bool(r) and all(r)


SNIP = r'''#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
typedef void (*bc_free_func_t)(void*);
typedef struct _bc_slist_t { struct _bc_slist_t *next; void *data; } bc_slist_t;
typedef struct { char *str; size_t len; } bc_string_t;
typedef struct { void *r; bc_free_func_t f; } bc_trie_t;
char* bc_strdup(const char *s){ char *r=malloc(strlen(s)+1); if(!r) exit(1); strcpy(r,s); return r;}
bc_slist_t* bc_slist_append(bc_slist_t *l, void *data){ bc_slist_t *n=malloc(sizeof(bc_slist_t)); if(!n) exit(1);
 n->data=data; n->next=NULL; if(!l) return n; bc_slist_t *t; for(t=l;t->next;t=t->next); t->next=n; return l; }
void bc_slist_free_full(bc_slist_t *l, bc_free_func_t f){ while(l){ bc_slist_t *t=l->next; f(l->data); free(l); l=t; } }
char* bc_str_lstrip(char *s){ while(*s==' ') s++; return s; }
bc_string_t* bc_string_new(void){ bc_string_t *s=malloc(sizeof(bc_string_t)); if(!s) exit(1); s->str=bc_strdup(""); s->len=0; return s;}
char* bc_string_free(bc_string_t *s, bool f){ if(!s) return NULL; char *r=NULL; if(f) free(s->str); else r=s->str; free(s); return r;}
int bc_use(const char*);
int main(void){ char *a=bc_strdup("x"), *b=bc_strdup(" y"); bc_slist_t *l=NULL; bc_string_t *s=bc_string_new(); %s return 0; }'''


def run(rep, tier):
    rep.rule('Path-sensitively, in every function: a value passed to a releasing function (found by summaries, with what it '
             'releases along) is not read, written, passed on, returned or released again, and what an owning list or map was '
             'given is not released by anyone else. Every released value and every value given to such a container is traced to '
             'its origins: only whole heap blocks that nobody else owns are allowed.')
    rep.assumption('two distinct pointer expressions are distinct objects; containers are released once by their owner '
                   '(checked where both releases are in one function)')
    for name in lib.ALL:
        analyse(rep, name, ir.load(name))
    rep.floor('functions explored', 100)
    rep.floor('releases and transfers of ownership traced', 100)
    rep.floor('values given to an owning container', 10)

    def ex(body):
        q = lib.Quiet()
        analyse(q, 'x', frontend.snippet(SNIP % body))
        return q.v

    def has(body, key):
        return any(key in x for x in ex(body))
    rep.selftest('clean', ex('l=bc_slist_append(l,a); l=bc_slist_append(l,bc_strdup(bc_str_lstrip(b))); free(b); '
                             'bc_slist_free_full(l,free); free(bc_string_free(s,false));') == [])
    rep.selftest('use after', has('free(a); bc_use(a);', 'use-after-release'))
    rep.selftest('double', has('free(a); if(*b) free(a);', 'double-release'))
    rep.selftest('deep', has('char *p=s->str; bc_string_free(s,true); bc_use(p);', 'use-after-release'))
    rep.selftest('shallow', not has('char *p=s->str; bc_string_free(s,false); bc_use(p);', 'use-after-release'))
    rep.selftest('moved', has('l=bc_slist_append(l,a); free(a); bc_slist_free_full(l,free);', 'release-of-moved'))
    rep.selftest('moved part', has('l=bc_slist_append(l,s->str); bc_string_free(s,true); bc_slist_free_full(l,free);', 'release-of-moved'))
    rep.selftest('twice', has('l=bc_slist_append(l,a); l=bc_slist_append(l,a); bc_slist_free_full(l,free);', 'two-owners'))
    rep.selftest('interior', has('free(bc_str_lstrip(b));', 'not-whole:interior'))
    rep.selftest('interior in list', has('l=bc_slist_append(l,bc_str_lstrip(b)); bc_slist_free_full(l,free);', 'not-whole:interior'))
    rep.selftest('literal', has('char *p=bc_use(a)? "x" : b; free(p);', 'not-whole:literal'))
