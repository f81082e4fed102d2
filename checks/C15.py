"""Computed variables cannot be forged: reserved names agree with the names the program sets; definitions
have checked names."""
from engine import frontend, ir, lib, flow, names, ditypes
from engine.paths import Rule, Engine, Sym
from engine.chars import Chars, ALLC
from engine.names import UP, ID

FILES = 'blogc_source_parse_from_files'
OVERRIDABLE = {'FIRST_HEADER', 'DESCRIPTION', 'TOCTREE'}
EXTRA = ['DATE_FORMATTED', 'DATE_FIRST_FORMATTED', 'DATE_LAST_FORMATTED']
ERRORS = {'bc_error_new_printf', 'bc_error_new', 'bc_error_parser'}
CMP = {'strcmp': None, 'strncmp': 2, 'memcmp': 2, 'bcmp': 2, 'strcasecmp': None}


def strings_of_table(mod, fn, op):
    """the strings of a constant table that a loaded pointer comes from"""
    for o in lib.origins(fn, op):
        d = fn.defs.get(o[1]) if o[0] == 'l' else None
        if d is None or d.op != 'load':
            return None
        b, _ = ditypes.base_off(fn, d.args[0])
        if b[0] != 'g' or b[1] not in mod.globals:
            b = next(iter(lib.origins(fn, d.args[0])), ('?',))
        g = mod.globals.get(b[1]) if b[0] == 'g' else None
        if g is None or not g.const and g.extern or g.init is None:
            return None
        return {mod.string(x) for x in ir.walk(g.init) if x[0] == 'g' and mod.string(x) is not None}
    return None


class Definable(Rule):
    """explores the source parser under the assumption that every definition is for one given name"""

    def __init__(s, fn, rep, name, sites, keys):
        s.f, s.rep, s.name, s.sites = fn, rep, name.encode(), sites
        s.mod = fn.module
        s.reached = []
        s.modes = lib.mode_phis(fn)
        s.keyptr = set(keys)
        s.slices = []     # (source operand origins, length origins)
        for k in keys:
            d = fn.defs.get(k[1]) if k[0] == 'l' else None
            if d is not None and d.op == 'call' and d.callee in ('bc_strndup', 'strndup'):
                s.slices.append(d)
        s.lens = set()
        for d in s.slices:
            n = fn.defs.get(d.args[1][1]) if d.args[1][0] == 'l' else None
            for i in fn.instrs():
                if i is n or n is not None and i.op == n.op == 'sub' and i.args == n.args:
                    s.lens.add(i.res)
        s.srcs = set()
        for d in s.slices:
            a = fn.defs.get(d.args[0][1]) if d.args[0][0] == 'l' else None
            for i in fn.instrs():
                if i is a or a is not None and i.op == a.op == 'getelementptr' and i.args == a.args:
                    s.srcs.add(('l', i.res))
        s.related = 0

    def partition(s, cx):
        return lib.mode_partition(s.modes, cx)

    def is_key(s, op):
        return op in s.srcs or bool(lib.origins(s.f, op, lib.COPIES) & s.keyptr)

    def assume(s, ins, cx):
        if ins.res in s.lens:
            return (('eq', len(s.name)),)
        if ins.op != 'call':
            return ()
        if ins.callee in ERRORS:
            return (('ne', 0),)
        if ins.callee == 'strlen' and s.is_key(ins.args[0]):
            return (('eq', len(s.name)),)
        if ins.callee in CMP:
            for k in (0, 1):
                if not s.is_key(ins.args[1 - k]):
                    continue
                whole = ins.args[1 - k] not in s.srcs
                n = CMP[ins.callee]
                if n is not None:
                    v = cx.val(ins.args[n])
                    n = v[1] if v[0] == 'c' else len(s.name) if v[0] == 's' and cx.rng(v)[0] == cx.rng(v)[1] else None
                    if n is None:
                        continue
                lits = [s.mod.string(ins.args[k])]
                if lits[0] is None:
                    lits = strings_of_table(s.mod, s.f, ins.args[k]) or []
                s.related += 1
                for lit in lits:
                    a, b = lit + b'\0', s.name + (b'\0' if whole else b':')
                    if n is not None:
                        a, b = a[:n], b[:n]
                    if ins.callee == 'strcasecmp':
                        a, b = a.lower(), b.lower()
                    if a == b:
                        return (('eq', 0),)
                if lits:
                    return (('ne', 0),)
        if ins.callee == 'bc_str_starts_with' and s.is_key(ins.args[0]):
            lit = s.mod.string(ins.args[1])
            if lit is not None:
                return ((('ne' if s.name.startswith(lit) else 'eq'), 0),)
        return ()

    def instr(s, ts, ins, cx):
        if ins in s.sites:
            s.reached.append((ins, cx.trace()))
        return ts


class Grammar(Chars):
    """characters since the beginning of the line form a name when the key is cut out"""
    start = frozenset(['start'])

    def __init__(s, fn, rep, cuts):
        s.rep, s.cuts = rep, cuts
        src = set()
        for c in cuts:
            src |= lib.origins(fn, c.args[0])
        super().__init__(fn, {i.res for i in fn.instrs() if i.op == 'load' and i.type == 'i8' and lib.origins(fn, i.args[0]) & src})

    def consume(s, st, c, ins, cx):
        out = set()
        for x in st:
            for ch in c:
                if ch in (10, 13):
                    out.add('start')
                elif x == 'start':
                    out.add('start' if ch in (32, 9, 11, 12) else 'id' if ch in UP else 'bad')
                elif x == 'id':
                    out.add('id' if ch in ID else 'bad')
                else:
                    out.add('bad')
        return frozenset(out)

    def assume(s, ins, cx):
        return (('ne', 0),) if ins.op == 'call' and ins.callee in ERRORS else ()

    def instr(s, ts, ins, cx):
        if ins in s.cuts:
            s.rep.count('keys cut out of a source')
            st, ch = s.narrowed(ts, cx)
            if st != frozenset(['id']):
                s.rep.violation('grammar:%s' % lib.fname(ins), ins.loc(),
                                'a source can define a variable whose name is not [A-Z][A-Z0-9_]*', cx.trace())
        return ts


def literal_keys(mod, fns):
    r = {}
    for f in sorted(fns):
        fn = mod.fns.get(f)
        if fn is None or f.startswith('bc_'):
            continue
        for i in fn.calls('bc_trie_insert'):
            for o in lib.origins(fn, i.args[1], geps=False):
                st = mod.string(o)
                if st is not None:
                    r.setdefault(st.decode('latin1'), []).append(i)
    return r


def nonliteral(mod, fn):
    for i in fn.calls('bc_trie_insert'):
        if any(mod.string(o) is None for o in lib.origins(fn, i.args[1], geps=False)):
            yield i


def sources(rep, mod, entry=FILES):
    if entry not in mod.fns:
        raise frontend.AnalysisBroken('no function ' + entry)
    reach, _ = lib.reachable(mod, [entry])
    keys = literal_keys(mod, reach)
    own = {}
    for k in list(keys):
        if not set(k.encode()) <= ID or not k[:1].isupper():
            rep.count('internal names that no source can spell')
            del keys[k]
    main = mod.fns.get('main')
    if main is not None:
        for k in literal_keys(mod, ['main']):
            keys.setdefault(k, [])
    for k in EXTRA:
        keys.setdefault(k, [])
    found = False
    for f in sorted(reach):
        fn = mod.fns.get(f)
        if fn is None or f.startswith('bc_'):
            continue
        sites = set(nonliteral(mod, fn))
        if not sites:
            continue
        found = True
        ops = set()
        for i in sites:
            ops |= {o for o in lib.origins(fn, i.args[1]) if o[0] == 'l'}
        cuts = {fn.defs[o[1]] for o in ops if o[1] in fn.defs and fn.defs[o[1]].op == 'call' and
                fn.defs[o[1]].callee in ('bc_strndup', 'strndup')}
        if cuts:
            Engine(fn, Grammar(fn, rep, cuts)).run()
        for k in sorted(keys):
            rep.count('computed names tried as a definition')
            r = Definable(fn, rep, k, sites, ops)
            Engine(fn, r).run()
            if not r.reached:
                rep.count('computed names that are rejected')
                continue
            if k in OVERRIDABLE:
                rep.count('names documented as overridable')
                continue
            rep.violation('forge:%s' % k, r.reached[0][0].loc(), 'a source can define %s, which blogc computes itself' % k,
                          r.reached[0][1])
    return found


def named(rep, mod, prog, fn, i):
    bad = []
    names.check(fn, rep, i, i.args[1], lambda ins, w, cx: bad.append((ins, w, cx)))
    rep.count('definitions outside sources checked', 1, '%s:%s' % (prog, lib.fname(i)))
    for ins, w, cx in bad:
        rep.violation('%s:name:%s:%s' % (prog, lib.fname(ins), '+'.join(w)), ins.loc(),
                      'a global variable is stored under a name that is not checked to be [A-Z][A-Z0-9_]* (%s)' % ', '.join(
                          {'empty': 'may be empty', 'start': 'no character looked at', 'bad': 'other characters pass',
                           'unchecked': 'no character looked at'}[x] for x in w), cx.trace() if cx else None)


def globals_(rep, prog, mod):
    fl = flow.Flow(mod, stop=('bc_trie_new',), copies={})
    tries = set()
    for fn in lib.own(mod):
        for i in fn.calls('bc_trie_foreach'):
            tries |= {r for r in fl.roots(fn, i.args[0]) if r[0]}
    for fn in lib.own(mod):
        if fn.name.startswith('bc_'):
            continue
        for i in nonliteral(mod, fn):
            if fn.name == 'main':
                named(rep, mod, prog, fn, i)
            elif fl.roots(fn, i.args[0]) & tries:
                if all(mod.string(o[1]) is not None for o in fl.roots(fn, i.args[1])):
                    continue
                named(rep, mod, prog, fn, i)


def run(rep, tier):
    rep.rule('For every name the program inserts itself while loading sources (string constants of the insertions reachable from the '
             'loader, plus main\'s and the *_FORMATTED dates) the source parser is explored under the assumption that the defined '
             'name is this one (outcomes of string and length comparisons follow): the insertion of a definition must be unreachable, '
             'unless the name is documented as overridable. Names from sources, -D and settings are followed '
             'character by character to be [A-Z][A-Z0-9_]* before they are stored.')
    rep.assumption('the manual allows sources to define FIRST_HEADER, DESCRIPTION and TOCTREE')
    mod = ir.load('blogc')
    if not sources(rep, mod):
        raise frontend.AnalysisBroken('no definition site below ' + FILES)
    globals_(rep, 'blogc', mod)
    globals_(rep, 'blogc-embedded', ir.load('blogc-embedded'))
    globals_(rep, 'make', ir.load('make'))
    rep.floor('computed names tried as a definition', 15)
    rep.floor('computed names that are rejected', 10)
    rep.floor('keys cut out of a source', 1)
    rep.floor('definitions outside sources checked', 2)
    m = frontend.snippet(r'''#include <string.h>
#include <stdlib.h>
typedef struct t t; void bc_trie_insert(t*,const char*,void*); char* bc_strndup(const char*,size_t); void*bc_error_new(int,const char*);
void blogc_source_parse_from_files(t*rv,const char*src,size_t n,void**err){ size_t st=0; char*k=NULL; bc_trie_insert(rv,"CONTENT",0);
 for(size_t i=0;i<n;i++){ char c=src[i]; if(c==':'){ k=bc_strndup(src+st,i-st); if(i-st==7&&0==strncmp("CONTENT",src+st,7)){*err=bc_error_new(1,"x");break;}
   bc_trie_insert(rv,k,0);} else if(c=='\n') st=i+1; } }''')
    q = lib.Quiet()
    sources(q, m)
    rep.selftest('unreserved name and unchecked characters', any(x.startswith('grammar') for x in q.v) and
                 'forge:DATE_FORMATTED' in q.v and 'forge:CONTENT' not in q.v)
