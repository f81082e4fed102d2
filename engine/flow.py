"""Flow-insensitive, field-based value flow over a whole program.

roots(fn, op): where a value may come from, following phi/select/casts/pointer arithmetic, copy functions,
parameters to every call site, results of defined functions to their return values, struct fields and global
cells to everything stored there.  A root is (function name, operand): a constant, a call of an external
function, an allocation, or a load that cannot be resolved."""
from . import ditypes, lib
from .ir import walk


class Flow:
    def __init__(s, mod, stop=(), copies=lib.COPIES, through=True):
        """stop: callees that are roots although they are defined; through: enter defined callees"""
        s.mod, s.stop, s.copies, s.through = mod, set(stop), copies, through
        s._fields = None
        s._cells = None
        s._memo = {}
        s._callers = {}
        s._taken = None

    # ---- indexes
    def fields(s):
        if s._fields is None:
            s._fields = {}
            s._cells = {}
            for fn in lib.own(s.mod):
                for i in fn.instrs():
                    if i.op != 'store':
                        continue
                    b, off = ditypes.base_off(fn, i.args[1])
                    if b[0] == 'g':
                        s._cells.setdefault((b[1], off), []).append((fn, i.args[0], i))
                        continue
                    m = ditypes.member_at(fn, i.args[1])
                    if m:
                        s._fields.setdefault((m[0], m[1]), []).append((fn, i.args[0], i))
        return s._fields

    def cells(s):
        s.fields()
        return s._cells

    def callers(s, name):
        if name not in s._callers:
            s._callers[name] = list(lib.callers(s.mod, name))
        return s._callers[name]

    def taken(s):
        """functions whose address is used other than as a callee -> [(fn, call instr or None, arg index)]"""
        if s._taken is None:
            s._taken = {}
            for fn in lib.own(s.mod):
                for i in fn.instrs():
                    for k, a in enumerate(i.args):
                        for x in walk(a):
                            if x[0] == 'g' and x[1] in s.mod.fns:
                                s._taken.setdefault(x[1], []).append((fn, i, k))
            for g in s.mod.globals.values():
                if g.init is not None:
                    for x in walk(g.init):
                        if x[0] == 'g' and x[1] in s.mod.fns:
                            s._taken.setdefault(x[1], []).append((None, g, 0))
        return s._taken

    def roots(s, fn, op, seen=None):
        top = seen is None
        if top:
            k = (fn.name, op)
            if k in s._memo:
                return s._memo[k]
            seen = set()
        r = set()
        s._walk(fn, op, seen, r)
        if top:
            s._memo[k] = r
        return r

    def _walk(s, fn, op, seen, out):
        for o in lib.origins(fn, op, s.copies):
            k = (fn.name, o)
            if k in seen:
                continue
            seen.add(k)
            if o[0] == 'g':
                out.add((None, o))
                continue
            if o[0] != 'l':
                out.add((None, o))
                continue
            d = fn.defs.get(o[1])
            if d is None:
                ps = [p for p, _ in fn.params]
                if o[1] in ps:
                    n = ps.index(o[1])
                    cs = s.callers(fn.name)
                    for cf, ci in cs:
                        if n < len(ci.args):
                            s._walk(cf, ci.args[n], seen, out)
                    if not cs or s.taken().get(fn.name):
                        out.add(k)
                else:
                    out.add(k)
                continue
            if d.op == 'call':
                if s.through and d.callee in s.mod.fns and d.callee not in s.stop:
                    cf = s.mod.fns[d.callee]
                    n = 0
                    for b in cf.blocks.values():
                        if b.term.op == 'ret' and b.term.args:
                            s._walk(cf, b.term.args[0], seen, out)
                            n += 1
                    continue
                out.add(k)
                continue
            if d.op == 'load':
                b, off = ditypes.base_off(fn, d.args[0])
                if b[0] == 'g':
                    st = s.cells().get((b[1], off))
                    g = s.mod.globals.get(b[1])
                    if st is not None or (g is not None and not g.const):
                        for sf, v, i in st or ():
                            s._walk(sf, v, seen, out)
                        if off == 0 and g is not None and g.init is not None and g.init[0] in ('g', 'gep', 'null'):
                            out.add((None, g.init))
                        continue
                m = ditypes.member_at(fn, d.args[0])
                if m and (m[0], m[1]) in s.fields():
                    for sf, v, i in s.fields()[(m[0], m[1])]:
                        s._walk(sf, v, seen, out)
                    continue
                if b[0] == 'l' and b[1] in fn.defs and fn.defs[b[1]].op == 'alloca':
                    n = 0
                    for i in fn.instrs():
                        if i.op == 'store' and ditypes.base_off(fn, i.args[1])[0] == b:
                            s._walk(fn, i.args[0], seen, out)
                            n += 1
                    if n:
                        continue
            out.add(k)
