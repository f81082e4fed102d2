"""Path-sensitive dataflow (property simulation in the style of ESP): a rule's typestate is
propagated over the CFG together with a finite set of branch facts.

Facts are comparisons of SSA values with constants that occur in the program; arithmetic is
never evaluated, so the fact domain is finite and the fixpoint exists without bounding loops.
States of a block that agree on the live facts and the typestate are merged (visited once).
"""
import collections

from .frontend import AnalysisBroken

INF = float('inf')


class TooBig(AnalysisBroken):
    pass


class Sym(str):
    __slots__ = ()


def C(n):
    return ('c', n)


NULLV = ('c', 0)

# library functions that do not write memory the program can read back through another pointer
# (apart from stdio/errno state)
PURE = set('''strlen strcmp strncmp strchr strrchr strstr strcasecmp strncasecmp memcmp printf fprintf
vfprintf puts putchar fputs fputc fflush strerror exit _exit abort isdigit isalpha isspace getenv free close fclose
closedir unlink rmdir mkdir symlink chdir access open fopen opendir system time strtoul strtol strtod
__errno_location __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc toupper tolower malloc calloc signal
pthread_mutex_lock pthread_mutex_unlock send write shutdown kill getpid htons htonl ntohs umask rename link
bc_strdup bc_strndup bc_strdup_printf bc_strdup_vprintf bc_str_starts_with bc_str_ends_with bc_malloc bc_str_split
bc_str_to_bool bc_trie_lookup bc_trie_size bc_slist_length bc_strv_length bc_strv_join bc_shell_quote bc_utf8_validate
bc_utf8_validate_str bc_utf8_skip_bom bc_str_find feof ferror fileno perror strftime gmtime
bc_string_new bc_trie_new bc_string_free bc_slist_new bc_error_print bc_error_free bc_error_new bc_error_new_printf bc_strv_free
bc_config_get bc_config_get_with_default bc_config_get_list bc_config_list_sections bc_config_list_keys bc_config_get_section bc_config_section_exists
llvm.stacksave'''.split())


class State:
    __slots__ = ('env', 'facts', 'expr', 'mem', 'ts', 'parent', 'blk')

    def __init__(s):
        s.env, s.facts, s.expr, s.mem, s.ts = {}, {}, {}, {}, None
        s.parent = s.blk = None

    def copy(s):
        n = State()
        n.env, n.facts, n.expr, n.mem, n.ts = dict(s.env), dict(s.facts), dict(s.expr), dict(s.mem), s.ts
        n.parent, n.blk = s.parent, s.blk
        return n

    def key(s):
        return (tuple(sorted(s.env.items())), tuple(sorted(s.facts.items(), key=lambda kv: kv[0])),
                tuple(sorted(s.expr.items(), key=lambda kv: kv[0])), tuple(sorted(s.mem.items(), key=repr)), s.ts)


def subst(x, old, new):
    if isinstance(x, Sym):
        return new if x == old else x
    if isinstance(x, tuple):
        return tuple(subst(y, old, new) for y in x)
    if isinstance(x, frozenset):
        return frozenset(subst(y, old, new) for y in x)
    return x


def syms_in(x, out):
    if isinstance(x, Sym):
        out.add(x)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            syms_in(y, out)


TOPF = (-INF, INF, frozenset())


class Cx:
    """what a rule sees at an instruction"""

    def __init__(s, eng, st):
        s.eng, s.st = eng, st

    def val(s, op):
        return s.eng.val(s.st, op)

    def null(s, v):
        """True: certainly 0/NULL; False: certainly not; None: unknown"""
        return s.eng.cmp0(s.st, v)

    def rng(s, v):
        if v[0] == 'c':
            return (v[1], v[1], frozenset())
        return s.st.facts.get(v[1], TOPF)

    def decide(s, pred, a, b):
        return s.eng.decide(s.st, pred, a, b)

    def mem(s, addr):
        """current value of the cell at an address operand, if tracked"""
        k = s.eng.addr(s.st, addr)
        return s.st.mem.get(k)

    def addr(s, op):
        return s.eng.addr(s.st, op)

    def trace(s):
        return s.eng.trace(s.st)


class Rule:
    """override; states must be hashable, Sym references inside are kept alive and renamed"""
    track_mem = True
    FOLD = 0                # additions of known numbers up to this are known

    def init(s, fn):
        return ()

    def instr(s, ts, ins, cx):
        return ts

    def after(s, ts, ins, cx):
        """called for calls after the result symbol exists; return ts or list of ts"""
        return ts

    def assume(s, ins, cx):
        """[(predicate, constant)] taken for granted about the result of an instruction"""
        return ()

    def loaded(s, ts, ins, cx):
        """called for loads after the result symbol exists; fresh=False results alias an earlier value"""
        return ts

    def edge(s, ts, frm, to, cx):
        return ts

    def compared(s, ts, pred, a, b):
        """called when a comparison of two symbols is taken to hold; None: cannot hold"""
        return ts

    def exit(s, ts, ins, cx):
        pass

    def partition(s, cx):
        """extra key that keeps states apart (e.g. the value of a mode variable)"""
        return None

    def pure_call(s, ins):
        return None


class Engine:
    def __init__(s, fn, rule, limit=400000):
        s.fn, s.rule, s.mod = fn, rule, fn.module
        s.limit = limit
        s.visited = 0
        s._prep()

    def _prep(s):
        fn = s.fn
        # liveness of SSA names at block entry
        use, df = {}, {}
        phiuse = collections.defaultdict(set)     # pred block name -> names
        from .ir import operands, walk
        for b in fn.blocks.values():
            u, d = set(), set()
            for i in b.instrs:
                if i.op == 'phi':
                    for v, pb in i.extra:
                        for x in walk(v):
                            if x[0] == 'l':
                                phiuse[pb].add(x[1])
                    d.add(i.res)
                    continue
                for a in operands(i):
                    for x in walk(a):
                        if x[0] == 'l' and x[1] not in d:
                            u.add(x[1])
                if i.res is not None:
                    d.add(i.res)
            use[b], df[b] = u, d
        livein = {b: set() for b in fn.blocks.values()}
        ch = True
        while ch:
            ch = False
            for b in reversed(list(fn.blocks.values())):
                out = set(phiuse[b.name])
                for x in b.succs:
                    out |= livein[x] - {p.res for p in x.phis()}
                n = use[b] | (out - df[b])
                # phi results of this block live in are defined at entry: keep them if used
                for p in b.phis():
                    if p.res in use[b] or p.res in out:
                        n.add(p.res)
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        # phis: after entry processing, live set incl. phi results
        s.live = {}
        for b in fn.blocks.values():
            l = set(livein[b])
            for p in b.phis():
                l.add(p.res)
            s.live[b] = l
        # does a phi result matter?
        # escaping allocas
        s.allocas = {i.res for i in fn.instrs() if i.op == 'alloca'}
        s.stored_escape = set()
        derived = {a: a for a in s.allocas}
        for _ in range(3):
            for i in fn.instrs():
                if i.op in ('getelementptr',) and i.args[0][0] == 'l' and i.args[0][1] in derived:
                    derived[i.res] = derived[i.args[0][1]]
                if i.op in ('phi', 'select'):
                    for a in i.args:
                        if a[0] == 'l' and a[1] in derived:
                            s.stored_escape.add(derived[a[1]])
        s.derived = derived
        for i in fn.instrs():
            if i.op == 'store' and i.args[0][0] == 'l' and i.args[0][1] in derived:
                s.stored_escape.add(derived[i.args[0][1]])

    # ---- values
    def val(s, st, op):
        k = op[0]
        if k == 'l':
            v = st.env.get(op[1])
            if v is not None:
                return v
            return ('s', Sym(op[1]))
        if k == 'i':
            return ('c', op[1])
        if k == 'null':
            return NULLV
        if k == 'zero':
            return NULLV
        if k == 'g':
            return ('s', Sym('@' + op[1]))
        if k == 'cast' and op[1] == 'inttoptr' and op[2][0] == 'i':
            return ('c', op[2][1])
        return ('s', Sym('?'))

    def cmp0(s, st, v):
        if v[0] == 'c':
            return v[1] == 0
        y = v[1]
        if y.startswith('@'):
            return False
        if y in s.allocas:
            return False
        lo, hi, ex = st.facts.get(y, TOPF)
        if lo == hi == 0:
            return True
        if 0 in ex or lo > 0 or hi < 0:
            return False
        return None

    def addr(s, st, op):
        """('m', base, offset) key of an address operand with constant offset, else None"""
        off = 0
        n = 0
        while n < 20:
            n += 1
            if op[0] == 'l':
                d = s.fn.defs.get(op[1])
                if d is not None and d.op == 'getelementptr':
                    o = s._gepoff(d.extra, d.args[1:])
                    if o is None:
                        v = s.val(st, op)
                        return ('m', v, off)
                    off += o
                    op = d.args[0]
                    continue
            elif op[0] == 'gep':
                o = s._gepoff(op[2], op[3:])
                if o is None:
                    return None
                off += o
                op = op[1]
                continue
            break
        v = s.val(st, op)
        if v[0] == 's':
            return ('m', v, off)
        return None

    def _gepoff(s, ty, idx):
        if any(x[0] != 'i' for x in idx):
            return None
        off = idx[0][1] * s.mod.sizeof(ty)
        t = ty
        for x in idx[1:]:
            if isinstance(t, str) and t.startswith('%'):
                t = s.mod.structs[t]
            if isinstance(t, tuple) and t[0] == 'struct':
                o = 0
                for j, e in enumerate(t[1]):
                    a = s.mod.alignof(e)
                    o = (o + a - 1) // a * a
                    if j == x[1]:
                        break
                    o += s.mod.sizeof(e)
                off += o
                t = t[1][x[1]]
            elif isinstance(t, tuple) and t[0] == 'arr':
                off += x[1] * s.mod.sizeof(t[2])
                t = t[2]
            else:
                return None
        return off

    # ---- facts
    FLIP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult',
            'ule': 'uge', 'uge': 'ule'}
    NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult',
           'ugt': 'ule', 'ule': 'ugt'}

    def decide(s, st, pred, a, b):
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            if pred[0] == 'u':
                x, y = x & (2 ** 64 - 1), y & (2 ** 64 - 1)
                pred = 's' + pred[1:]
            return {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
        if a[0] == 'c':
            return s.decide(st, s.FLIP[pred], b, a)
        if b[0] == 's':
            if a == b and a[1] != '?':
                return pred in ('eq', 'sle', 'sge', 'ule', 'uge')
            if pred in ('eq', 'ne'):
                fa = st.facts.get(a[1], TOPF)
                fb = st.facts.get(b[1], TOPF)
                if fb[0] == fb[1]:
                    return s.decide(st, pred, a, ('c', fb[0]))
                if fa[0] == fa[1]:
                    return s.decide(st, pred, b, ('c', fa[0]))
            return None
        c = b[1]
        if c == 0 and pred in ('eq', 'ne'):
            z = s.cmp0(st, a)
            return None if z is None else (z if pred == 'eq' else not z)
        lo, hi, ex = st.facts.get(a[1], TOPF)
        if pred == 'eq':
            if lo == hi == c:
                return True
            if c < lo or c > hi or c in ex:
                return False
            return None
        if pred == 'ne':
            r = s.decide(st, 'eq', a, b)
            return None if r is None else not r
        if pred[0] == 'u':
            if c == 0:
                if pred == 'uge':
                    return True
                if pred == 'ult':
                    return False
                if pred == 'ugt':
                    return s.decide(st, 'ne', a, b)
                return s.decide(st, 'eq', a, b)
            if lo < 0 or c < 0:
                return None
            pred = 's' + pred[1:]
        if pred == 'slt':
            return True if hi < c else False if lo >= c else None
        if pred == 'sle':
            return True if hi <= c else False if lo > c else None
        if pred == 'sgt':
            return True if lo > c else False if hi <= c else None
        if pred == 'sge':
            return True if lo >= c else False if hi < c else None

    def refine(s, st, a, pred, c):
        """assume a <pred> c; returns feasibility"""
        if a[0] == 'c':
            return s.decide(st, pred, a, ('c', c))
        y = a[1]
        if y == '?':
            return True
        r = s.decide(st, pred, a, ('c', c))
        if r is False:
            return False
        if r is None:
            lo, hi, ex = st.facts.get(y, TOPF)
            p = pred
            if p[0] == 'u':
                if c == 0:
                    p = {'ugt': 'ne', 'ule': 'eq'}.get(p, p)
                elif p in ('ult', 'ule') and c > 0:
                    lo = max(lo, 0)
                    p = 's' + p[1:]
                elif lo >= 0:
                    p = 's' + p[1:]
            if p == 'eq':
                lo = hi = c
            elif p == 'ne':
                ex = ex | {c}
            elif p == 'slt':
                hi = min(hi, c - 1)
            elif p == 'sle':
                hi = min(hi, c)
            elif p == 'sgt':
                lo = max(lo, c + 1)
            elif p == 'sge':
                lo = max(lo, c)
            while lo in ex:
                lo += 1
            while hi in ex:
                hi -= 1
            if lo > hi:
                return False
            ex = frozenset(e for e in ex if lo <= e <= hi)
            st.facts[y] = (lo, hi, ex)
        # through the definition
        e = st.expr.get(y)
        if e is None:
            return True
        if e[0] == 'icmp':
            t = None
            lo, hi, ex = st.facts.get(y, TOPF)
            if lo == hi:
                t = lo != 0
            elif 0 in ex or lo > 0 or hi < 0:
                t = True
            if t is not None:
                return s.assume_cmp(st, e[1] if t else s.NEG[e[1]], e[2], e[3])
        elif e[0] in ('zext', 'sext'):
            if pred in ('eq', 'ne') or pred[0] == 's' and (e[0] == 'sext'):
                if e[0] == 'zext' and c < 0:
                    return True
                if e[3] == 'i1' and e[0] == 'sext':
                    c = c & 1
                return s.refine(st, e[1], pred, c)
            if e[0] == 'zext' and e[3] == 'i1' and pred in ('sgt', 'slt', 'sge', 'sle'):
                lo, hi, ex = st.facts.get(y, TOPF)
                if lo >= 1:
                    return s.refine(st, e[1], 'ne', 0)
                if hi <= 0:
                    return s.refine(st, e[1], 'eq', 0)
        elif e[0] == 'trunc':
            # booleans stored as i8
            if e[2] == 'i1':
                lo, hi, ex = st.facts.get(y, TOPF)
                if lo == hi == 0:
                    return s.refine(st, e[1], 'eq', 0)
                if 0 in ex or lo > 0:
                    return s.refine(st, e[1], 'ne', 0)
        elif e[0] == 'not':
            lo, hi, ex = st.facts.get(y, TOPF)
            if lo == hi == 0:
                return s.refine(st, e[1], 'ne', 0)
            if 0 in ex or lo > 0:
                return s.refine(st, e[1], 'eq', 0)
        elif e[0] == 'and':
            lo, hi, ex = st.facts.get(y, TOPF)
            if 0 in ex or lo > 0:
                return s.refine(st, e[1], 'ne', 0) and s.refine(st, e[2], 'ne', 0)
        elif e[0] == 'or':
            lo, hi, ex = st.facts.get(y, TOPF)
            if lo == hi == 0:
                return s.refine(st, e[1], 'eq', 0) and s.refine(st, e[2], 'eq', 0)
        return True

    def assume_cmp(s, st, pred, a, b):
        if b[0] == 'c':
            return s.refine(st, a, pred, b[1])
        if a[0] == 'c':
            return s.refine(st, b, s.FLIP[pred], a[1])
        r = s.decide(st, pred, a, b)
        if r is False:
            return False
        ts = s.rule.compared(st.ts, pred, a, b)
        if ts is None:
            return False
        st.ts = ts
        if pred == 'eq':
            fa = st.facts.get(a[1], TOPF)
            fb = st.facts.get(b[1], TOPF)
            if fa[0] == fa[1]:
                return s.refine(st, b, 'eq', fa[0])
            if fb[0] == fb[1]:
                return s.refine(st, a, 'eq', fb[0])
            if 0 in fa[2] or fa[0] > 0:
                return s.refine(st, b, 'ne', 0)
            if 0 in fb[2] or fb[0] > 0:
                return s.refine(st, a, 'ne', 0)
        return True

    # ---- symbol generations
    def define(s, st, name, v=None, expr=None):
        y = Sym(name)
        if v == ('s', y):
            # the value it had before
            st.env[name] = v
            return v
        # is the old symbol still referenced elsewhere?
        used = False
        for k, w in st.env.items():
            if k != name and w[0] == 's' and w[1] == y:
                used = True
        if not used:
            ss = set()
            syms_in(st.ts, ss)
            for k, w in st.mem.items():
                syms_in(k, ss)
                syms_in(w, ss)
            for k, e in st.expr.items():
                if k != y:
                    syms_in(e, ss)
            used = y in ss
        if used:
            old = Sym(name + "'")
            oo = Sym('?')
            s._rename(st, old, oo)
            s._rename(st, y, old)
            v = None if v is None else subst(v, y, old)
            expr = None if expr is None else subst(expr, y, old)
        st.facts.pop(y, None)
        st.expr.pop(y, None)
        if v is not None:
            st.env[name] = v
        else:
            st.env[name] = ('s', y)
            if expr is not None:
                st.expr[y] = expr
        return st.env[name]

    def _rename(s, st, a, b):
        for k, w in list(st.env.items()):
            if w[0] == 's' and w[1] == a:
                st.env[k] = ('s', b)
        for k in list(st.mem):
            w = st.mem.pop(k)
            k2 = subst(k, a, b)
            ss = set()
            syms_in(k2, ss)
            if '?' in ss:
                continue
            st.mem[k2] = subst(w, a, b)
        f = st.facts.pop(a, None)
        e = st.expr.pop(a, None)
        if b != '?':
            if f:
                st.facts[b] = f
            if e:
                st.expr[b] = e
        for k, e in list(st.expr.items()):
            e2 = subst(e, a, b)
            if e2 != e:
                if b == '?':
                    del st.expr[k]
                else:
                    st.expr[k] = e2
        st.ts = subst(st.ts, a, b)

    def prune(s, st, blk):
        live = s.live[blk]
        for k in [k for k in st.env if k not in live]:
            del st.env[k]
        # identity bindings without content are dropped for canonical form
        keep = set()
        for k, v in st.env.items():
            if v[0] == 's':
                keep.add(v[1])
        for k in live:
            if k not in st.env:
                keep.add(Sym(k))
        for k, v in st.mem.items():
            syms_in(k, keep)
            syms_in(v, keep)
        syms_in(st.ts, keep)
        ch = True
        while ch:
            ch = False
            for y, e in st.expr.items():
                if y in keep:
                    n = len(keep)
                    syms_in(e, keep)
                    ch |= len(keep) != n
        for d in (st.facts, st.expr):
            for y in [y for y in d if y not in keep]:
                del d[y]
        for k in [k for k, v in st.env.items() if v == ('s', Sym(k))]:
            del st.env[k]

    # ---- join of two states with the same typestate
    def _factof(s, st, v):
        if v[0] == 'c':
            return (v[1], v[1], frozenset())
        f = st.facts.get(v[1])
        if f is None and s.cmp0(st, v) is False:
            return (-INF, INF, frozenset([0]))
        return f

    def join(s, a, b):
        n = State()
        n.ts, n.parent, n.blk = a.ts, b.parent, b.blk
        held = set()
        syms_in(a.ts, held)
        dropped = set()
        paired = []
        for k in set(a.env) | set(b.env):
            va = a.env.get(k, ('s', Sym(k)))
            vb = b.env.get(k, ('s', Sym(k)))
            if va == vb:
                if va != ('s', Sym(k)):
                    n.env[k] = va
                continue
            # differs: becomes its own symbol
            if Sym(k) in held:
                n.env[k] = ('s', Sym('?'))
                continue
            dropped.add(Sym(k))
            if va[0] == 's' and vb[0] == 's' and '?' not in (va[1], vb[1]):
                paired.append((k, va, vb))
            fa, fb = s._factof(a, va), s._factof(b, vb)
            if fa and fb:
                f = s._hull(fa, fb)
                if f != TOPF:
                    n.facts[Sym(k)] = f
        for y in set(a.facts) & set(b.facts):
            if y in dropped:
                continue
            f = s._hull(a.facts[y], b.facts[y])
            if f != TOPF:
                n.facts[y] = f
        for y, e in a.expr.items():
            if b.expr.get(y) == e and y not in dropped:
                ss = set()
                syms_in(e, ss)
                if not (ss & dropped):
                    n.expr[y] = e
        for k, v in a.mem.items():
            ss = set()
            syms_in(k, ss)
            if ss & dropped:
                continue
            w = b.mem.get(k)
            if w == v:
                syms_in(v, ss)
                if not (ss & dropped):
                    n.mem[k] = v
            elif w is not None:
                # a cell whose contents differ: a join symbol for the cell
                y = Sym('cell%s' % (repr(k),))
                if y in held:
                    continue
                fa, fb = s._factof(a, v), s._factof(b, w)
                n.mem[k] = ('s', y)
                if fa and fb:
                    f = s._hull(fa, fb)
                    if f != TOPF:
                        n.facts[y] = f
                    else:
                        n.facts.pop(y, None)
        # what a pointer variable points to survives when the variable differs: same offset on both sides
        for k, va, vb in paired:
            for q, v in a.mem.items():
                if q[1] != va:
                    continue
                w = b.mem.get((q[0], vb) + q[2:])
                q2 = (q[0], ('s', Sym(k))) + q[2:]
                if w is None or q2 in n.mem:
                    continue
                ss = set()
                syms_in(v, ss)
                syms_in(w, ss)
                if v == w and not (ss & dropped):
                    n.mem[q2] = v
                elif v[0] in 'cs' and w[0] in 'cs':
                    y = Sym('cell%s' % (repr(q2),))
                    fa, fb = s._factof(a, v), s._factof(b, w)
                    if y in held or not fa or not fb:
                        continue
                    f = s._hull(fa, fb)
                    if f != TOPF:
                        n.mem[q2] = ('s', y)
                        n.facts[y] = f
                else:
                    n.facts.pop(y, None)
        return n

    @staticmethod
    def _hull(a, b):
        def exc(f, g):
            return frozenset(x for x in f[2] if x in g[2] or x < g[0] or x > g[1])
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
        ex = exc(a, b) | exc(b, a)
        # single gaps at zero are worth keeping ({-1} u {1..})
        if lo <= 0 <= hi and not (a[0] <= 0 <= a[1] and 0 not in a[2]) and not (b[0] <= 0 <= b[1] and 0 not in b[2]):
            ex = ex | {0}
        return (lo, hi, frozenset(x for x in ex if lo <= x <= hi))

    # ---- exploration
    def run(s, init=None):
        st = init or State()
        if init is None:
            st.ts = s.rule.init(s.fn)
        work = collections.deque([(s.fn.entry, st)])
        table = {}
        while work:
            blk, st = work.pop()
            s.prune(st, blk)
            # the short-circuit phis of this block are about to be branched on: keep their cases apart
            sc = tuple(s.val(st, ('l', p.res)) for p in blk.phis() if p.type == 'i1')
            k = (blk, st.ts, s.rule.partition(Cx(s, st)), sc)
            old = table.get(k)
            if old is not None:
                new = s.join(old[0], st)
                s.prune(new, blk)
                if new.key() == old[1]:
                    continue
                old[2] += 1
                if old[2] > 40:
                    # safety net: forget facts that do not stabilise
                    new.facts = {y: f for y, f in new.facts.items() if old[0].facts.get(y) == f}
                    new.mem = {y: f for y, f in new.mem.items() if old[0].mem.get(y) == f}
                    new.expr = {y: f for y, f in new.expr.items() if old[0].expr.get(y) == f}
                    if new.key() == old[1] or old[2] > 200:
                        continue
                new.parent, new.blk = st.parent, st.blk
                old[0], old[1] = new, new.key()
                st = new
            else:
                table[k] = [st, st.key(), 0]
            s.visited += 1
            if s.visited > s.limit:
                raise TooBig('path engine: state limit exceeded in ' + s.fn.name)
            st2 = st.copy()
            st2.parent, st2.blk = ((st.parent, st.blk) if st.blk else None), blk
            for out in s._block(blk, st2):
                work.append(out)
        s.table = table
        return s

    def _block(s, blk, st):
        states = [st]
        for ins in blk.instrs:
            if ins.op == 'phi':
                continue
            nxt = []
            for x in states:
                nxt.extend(s._instr(ins, x))
            states = nxt
            if not states:
                return
        t = blk.term
        for x in states:
            if t.op == 'br' and not t.args:
                yield from s._go(blk, t.extra[0], x)
            elif t.op == 'br':
                if t.extra[0] == t.extra[1]:
                    yield from s._go(blk, t.extra[0], x)
                    continue
                c = s.val(x, t.args[0])
                d = s.cmp0(x, c)
                for truth, lab in ((True, t.extra[0]), (False, t.extra[1])):
                    if d is not None and d == truth:
                        continue
                    y = x.copy()
                    if s.refine(y, c, 'ne' if truth else 'eq', 0):
                        # canonical truth value
                        yield from s._go(blk, lab, y)
            elif t.op == 'switch':
                c = s.val(x, t.args[0])
                vals = collections.OrderedDict()
                for v, lab in t.extra['cases']:
                    y = x.copy()
                    if s.refine(y, c, 'eq', v):
                        yield from s._go(blk, lab, y)
                y = x.copy()
                ok = True
                for v, lab in t.extra['cases']:
                    if not s.refine(y, c, 'ne', v):
                        ok = False
                        break
                if ok:
                    yield from s._go(blk, t.extra['default'], y)

    def _go(s, blk, lab, st):
        to = s.fn.blocks[lab]
        ph = to.phis()
        if ph:
            vals = []
            for p in ph:
                for v, pb in p.extra:
                    if pb == blk.name:
                        vals.append((p, s.val(st, v)))
                        break
            # simultaneous assignment; phis of the same block may refer to each other's old value
            for p, v in vals:
                if v[0] == 's' and any(q is not p and v[1] == q.res for q, _ in vals):
                    pass
            olds = {}
            for p, v in vals:
                # rename the old generation of the phi symbol if someone still holds it
                y = Sym(p.res)
                cur = st.env.get(p.res, ('s', y))
                if cur == ('s', y):
                    held = any(w == ('s', y) for q, w in vals) or any(
                        k != p.res and w == ('s', y) for k, w in st.env.items())
                    ss = set()
                    syms_in(st.ts, ss)
                    for k, w in st.mem.items():
                        syms_in(k, ss); syms_in(w, ss)
                    if held or y in ss:
                        o = Sym(p.res + "'")
                        if any(w == ('s', o) for q, w in vals):
                            s._rename(st, o, Sym(p.res + "''"))
                            vals = [(q, ('s', Sym(p.res + "''")) if w == ('s', o) else w) for q, w in vals]
                        else:
                            s._rename(st, o, Sym('?'))
                        s._rename(st, y, o)
                        vals = [(q, ('s', o) if w == ('s', y) else w) for q, w in vals]
            for p, v in vals:
                if v[0] == 's' and v[1] == '?':
                    st.env.pop(p.res, None)
                    st.facts.pop(Sym(p.res), None)
                    st.expr.pop(Sym(p.res), None)
                else:
                    st.env[p.res] = v
        ts = s.rule.edge(st.ts, blk, to, Cx(s, st))
        if ts is None:
            return
        st.ts = ts
        yield to, st

    def _instr(s, ins, st):
        rule = s.rule
        cx = Cx(s, st)
        op = ins.op
        r = rule.instr(st.ts, ins, cx)
        if r is None:
            return []
        outs = []
        if isinstance(r, list):
            for ts in r:
                y = st.copy()
                y.ts = ts
                outs.append(y)
        else:
            st.ts = r
            outs = [st]
        if op in ('ret', 'unreachable'):
            for y in outs:
                rule.exit(y.ts, ins, Cx(s, y))
            return []
        res = []
        for y in outs:
            s._effect(ins, y)
            if ins.res is not None:
                a = rule.assume(ins, Cx(s, y))
                if a and not all(s.refine(y, s.val(y, ('l', ins.res)), p, c) for p, c in a):
                    continue
            if op == 'load':
                r = rule.loaded(y.ts, ins, Cx(s, y))
                if r is None:
                    continue
                y.ts = r
            if op == 'call':
                cx = Cx(s, y)
                r = rule.after(y.ts, ins, cx)
                if r is None:
                    continue
                if isinstance(r, list):
                    for item in r:
                        z = y.copy()
                        if len(item) == 2 and isinstance(item[0], list):
                            # ([(value, pred, const)...], ts): fork with assumptions
                            if all(s.refine(z, v, p, c) for v, p, c in item[0]):
                                z.ts = item[1]
                                res.append(z)
                        else:
                            z.ts = item
                            res.append(z)
                    continue
                y.ts = r
            res.append(y)
        return res

    def _effect(s, ins, st):
        op = ins.op
        if op == 'load':
            k = s.addr(st, ins.args[0])
            if k is not None and k in st.mem:
                s.define(st, ins.res, st.mem[k])
            else:
                v = s.define(st, ins.res)
                k = s.addr(st, ins.args[0])
                if k is not None and s.rule.track_mem and v[1] not in (k[1][1],):
                    st.mem[k] = v
            return
        if op == 'store':
            k = s.addr(st, ins.args[1])
            v = s.val(st, ins.args[0])
            if k is None:
                s._clobber(st, None)
                return
            base = k[1][1]
            if base not in s.allocas or base in s.stored_escape:
                # may alias other non-local cells at the same offset with another base
                for q in list(st.mem):
                    qb = q[1][1]
                    if q != k and (qb not in s.allocas or qb in s.stored_escape) and q[2] == k[2]:
                        if not (qb.startswith('@') and base.startswith('@')):
                            del st.mem[q]
            else:
                if not isinstance(s.fn.defs[str(base)].extra, str) or s.fn.defs[str(base)].extra.startswith('%'):
                    pass
            if s.rule.track_mem and not (v[0] == 's' and v[1] == '?'):
                st.mem[k] = v
            else:
                st.mem.pop(k, None)
            return
        if op == 'call':
            pure = s.rule.pure_call(ins)
            if pure is None:
                pure = ins.callee in PURE or (ins.callee or '').startswith('llvm.')
            if not pure:
                argb = set()
                for a in ins.args:
                    k = s.addr(st, a) if a[0] in ('l', 'g', 'gep') else None
                    if k:
                        argb.add(k[1][1])
                s._clobber(st, argb)
            elif ins.callee == 'free':
                k = s.addr(st, ins.args[0])
                if k:
                    for q in [q for q in st.mem if q[1] == k[1]]:
                        del st.mem[q]
            if ins.res is not None:
                s.define(st, ins.res)
            return
        if ins.res is None:
            return
        if op == 'icmp':
            a, b = s.val(st, ins.args[0]), s.val(st, ins.args[1])
            d = s.decide(st, ins.extra, a, b)
            if d is not None:
                s.define(st, ins.res, ('c', int(d)))
            elif '?' in (a[1], b[1]):
                s.define(st, ins.res)
            else:
                s.define(st, ins.res, None, ('icmp', ins.extra, a, b))
            return
        if op in ('zext', 'sext', 'trunc'):
            a = s.val(st, ins.args[0])
            if a[0] == 'c':
                c = a[1]
                if op == 'sext' and ins.extra == 'i1':
                    c = -c
                if op == 'trunc' and ins.type == 'i1':
                    c = c & 1
                if op == 'zext' and c < 0:
                    c += 1 << int(ins.extra[1:])
                s.define(st, ins.res, ('c', c))
            elif a[1] == '?':
                s.define(st, ins.res)
            else:
                f = st.facts.get(a[1])
                v = s.define(st, ins.res, None, (op, a, ins.type, ins.extra))
                if f and (op == 'sext' or op == 'zext' and f[0] >= 0):
                    st.facts[v[1]] = f
                elif f and 0 in f[2] and op == 'zext':
                    st.facts[v[1]] = (-INF, INF, frozenset([0]))
                elif f and op == 'trunc' and ins.type == 'i1' and s.cmp0(st, a) is not None:
                    s.define(st, ins.res, ('c', 0 if s.cmp0(st, a) else 1))
            return
        if op == 'xor' and ins.type == 'i1' and ins.args[1] == ('i', 1):
            a = s.val(st, ins.args[0])
            z = s.cmp0(st, a)
            if z is not None:
                s.define(st, ins.res, ('c', 1 if z else 0))
            elif a[1] == '?':
                s.define(st, ins.res)
            else:
                s.define(st, ins.res, None, ('not', a))
            return
        if op in ('and', 'or') and ins.type in ('i1',):
            a, b = s.val(st, ins.args[0]), s.val(st, ins.args[1])
            za, zb = s.cmp0(st, a), s.cmp0(st, b)
            if op == 'and' and (za is True or zb is True):
                s.define(st, ins.res, ('c', 0))
            elif op == 'or' and (za is False or zb is False):
                s.define(st, ins.res, ('c', 1))
            elif '?' in (a[1], b[1]):
                s.define(st, ins.res)
            else:
                s.define(st, ins.res, None, (op, a, b))
            return
        if op == 'select':
            c = s.val(st, ins.args[0])
            z = s.cmp0(st, c)
            if z is not None:
                v = s.val(st, ins.args[2] if z else ins.args[1])
                if v[1] == '?':
                    s.define(st, ins.res)
                else:
                    s.define(st, ins.res, v)
            else:
                va, vb = s.val(st, ins.args[1]), s.val(st, ins.args[2])
                fa, fb = s._factof(st, va), s._factof(st, vb)
                v = s.define(st, ins.res)
                if fa and fb and ins.type != 'i1':
                    f = s._hull(fa, fb)
                    if f != TOPF:
                        st.facts[v[1]] = f
            return
        if op == 'getelementptr':
            a = s.val(st, ins.args[0])
            if all(x == ('i', 0) for x in ins.args[1:]):
                if a[1] != '?':
                    s.define(st, ins.res, a)
                    return
            vs = tuple(s.val(st, x) for x in ins.args[1:])
            e = None
            if a[1] != '?' and all(v[1] != '?' for v in vs):
                # the same address computed again is the same value
                e = ('gep', a, repr(ins.extra)) + vs
                for y, o in st.expr.items():
                    if o == e and y != Sym(ins.res):
                        s.define(st, ins.res, ('s', y))
                        return
                ss = set()
                syms_in(e, ss)
                if Sym(ins.res) in ss:
                    e = None
            v = s.define(st, ins.res, None, e)
            if s.cmp0(st, a) is False:
                st.facts[v[1]] = (-INF, INF, frozenset([0]))
            return
        if op in ('add', 'sub') and s.rule.FOLD:
            # small counters, for the rules that count
            a, b = s.val(st, ins.args[0]), s.val(st, ins.args[1])
            if a[0] == b[0] == 'c':
                c = a[1] + b[1] if op == 'add' else a[1] - b[1]
                if -s.rule.FOLD <= c <= s.rule.FOLD:
                    s.define(st, ins.res, ('c', c))
                    return
        if op == 'alloca':
            st.env[ins.res] = ('s', Sym(ins.res))
            return
        s.define(st, ins.res)

    def _clobber(s, st, argb):
        for q in list(st.mem):
            b = q[1][1]
            if b in s.allocas and b not in s.stored_escape and (argb is None or b not in argb):
                continue
            del st.mem[q]

    def trace(s, st):
        out = []
        node = (st.parent, st.blk)
        while node and node[1] is not None:
            b = node[1]
            ln = [i.line for i in b.instrs if i.dbg]
            if ln:
                out.append(ln[0] if not out or True else 0)
            node = node[0]
        r = []
        for x in reversed(out):
            if not r or r[-1] != x:
                r.append(x)
        return r
