"""What a function does to the objects its parameters lead to: a flow-insensitive summary per function.

derived(fn, op)   parameters whose object graph the value may point into (pointer arithmetic, loads, results of
                  functions that return something reached from an argument)
writes[f]         parameters whose object graph the function may change or release
"""
from . import lib, ditypes, flow
from .ir import walk

# library functions: argument whose object is written or released
WRITE_EXT = {'free': (0,), 'realloc': (0,), 'reallocarray': (0,), 'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,),
             'strncpy': (0,), 'strcat': (0,), 'strncat': (0,), 'sprintf': (0,), 'snprintf': (0,), 'vsnprintf': (0,), 'vsprintf': (0,),
             'stat': (1,), 'lstat': (1,), 'fstat': (1,), 'stat64': (1,), 'read': (1,), 'fread': (0,), 'fgets': (0,), 'getline': (0, 1),
             'qsort': (0,), 'dirname': (0,), 'basename': (0,), '__xpg_basename': (0,), 'strtok': (0,), 'strtok_r': (0, 2),
             'fclose': (0,), 'closedir': (0,), 'pclose': (0,), 'time': (0,), 'strftime': (0,), 'asprintf': (0,), 'vasprintf': (0,),
             'llvm.memcpy.p0.p0.i64': (0,), 'llvm.memset.p0.i64': (0,), 'llvm.memmove.p0.p0.i64': (0,), 'realpath': (1,),
             'getcwd': (0,), 'gethostname': (0,), 'strsep': (0,), 'gmtime_r': (1,), 'localtime_r': (1,), 'pipe': (0,),
             'waitpid': (1,), 'getaddrinfo': (3,), 'freeaddrinfo': (0,), 'gettimeofday': (0,)}
# library functions whose result points into an argument
RET_EXT = {'strchr': 0, 'strrchr': 0, 'strstr': 0, 'memchr': 0, 'dirname': 0, 'basename': 0, '__xpg_basename': 0, 'strtok': 0,
           'strcpy': 0, 'strcat': 0, 'memcpy': 0, 'strpbrk': 0, 'strcasestr': 0, 'realloc': 0}


class Effects:
    def __init__(s, mod):
        s.mod = mod
        s.writes = {f: set() for f in mod.fns}
        s.ret = {f: set() for f in mod.fns}
        s.why = {}
        s._memo, s._tg, s.flow = {}, {}, flow.Flow(mod)
        s.started = {o[1] for fn in lib.own(mod) for i in fn.calls('pthread_create', 'thrd_create')
                     for o in lib.origins(fn, i.args[2 if i.callee == 'pthread_create' else 1]) if o[0] == 'g'}
        taken = {}
        for g in mod.globals.values():
            if g.init is not None:
                for x in walk(g.init):
                    if x[0] == 'g' and x[1] in mod.fns:
                        taken[x[1]] = 1
        for fn in lib.own(mod):
            for i in fn.instrs():
                for a in i.args:
                    for x in walk(a):
                        if x[0] == 'g' and x[1] in mod.fns:
                            taken[x[1]] = 1
        s.taken = sorted(taken)
        ch, n = True, 0
        while ch and n < 20:
            ch, n = False, n + 1
            s._memo = {}
            for fn in lib.own(mod):
                w, r = s._scan(fn)
                if w - s.writes[fn.name] or r - s.ret[fn.name]:
                    ch = True
                    s.writes[fn.name] |= w
                    s.ret[fn.name] |= r
        s._memo = {}

    def targets(s, i):
        """functions a call may enter"""
        if i.callee is not None:
            return [i.callee] if i.callee in s.mod.fns else []
        if id(i) not in s._tg:
            rs = s.flow.roots(i.fn, i.extra.get('fnop') or ('undef',))
            if not rs:
                rs = {(None, ('undef',))}
            if all(o[0] == 'g' and o[1] in s.mod.fns for _, o in rs):
                s._tg[id(i)] = sorted({o[1] for _, o in rs})
            else:
                s._tg[id(i)] = [f for f in s.taken if s.fits(s.mod.fns[f], i)]
        return s._tg[id(i)]

    def fits(s, fn, i):
        if len(fn.params) != len(i.args) or i.type != fn.rettype or fn.name in s.started:
            return False
        return all(s.optype(i.fn, a) in (None, t) for a, (_, t) in zip(i.args, fn.params))

    def optype(s, fn, a):
        if a[0] == 'l':
            if a[1] in fn.defs:
                return fn.defs[a[1]].type
            for p, t in fn.params:
                if p == a[1]:
                    return t
        if a[0] in ('null', 'g', 'gep'):
            return 'ptr'
        return None

    def derived(s, fn, op):
        k = (fn.name, op)
        if k not in s._memo:
            out = set()
            s._derive(fn, op, out, set())
            s._memo[k] = frozenset(out)
        return s._memo[k]

    def _derive(s, fn, op, out, seen):
        if op[0] == 'gep':
            return s._derive(fn, op[1], out, seen)
        if op[0] == 'cast':
            return s._derive(fn, op[2], out, seen)
        if op[0] != 'l' or op in seen:
            return
        seen.add(op)
        d = fn.defs.get(op[1])
        if d is None:
            for k, (p, t) in enumerate(fn.params):
                if p == op[1] and t == 'ptr':
                    out.add(k)
            return
        if d.op == 'phi':
            for v, _ in d.extra:
                s._derive(fn, v, out, seen)
        elif d.op == 'select':
            s._derive(fn, d.args[1], out, seen)
            s._derive(fn, d.args[2], out, seen)
        elif d.op in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
            s._derive(fn, d.args[0], out, seen)
        elif d.op == 'load':
            if d.type != 'ptr':
                return
            b, _ = ditypes.base_off(fn, d.args[0])
            bd = fn.defs.get(b[1]) if b[0] == 'l' else None
            if bd is not None and bd.op == 'alloca':
                for i in fn.instrs():
                    if i.op == 'store' and ditypes.base_off(fn, i.args[1])[0] == b:
                        s._derive(fn, i.args[0], out, seen)
                return
            s._derive(fn, d.args[0], out, seen)
        elif d.op == 'call':
            for t in s.targets(d):
                for k in s.ret[t]:
                    if k < len(d.args):
                        s._derive(fn, d.args[k], out, seen)
            if d.callee in RET_EXT and d.callee not in s.mod.fns:
                s._derive(fn, d.args[RET_EXT[d.callee]], out, seen)

    def touched(s, fn, i):
        """operands whose object graph an instruction changes or releases"""
        if i.op == 'store':
            return [i.args[1]]
        if i.op != 'call':
            return []
        if i.callee is not None and i.callee not in s.mod.fns:
            return [i.args[k] for k in WRITE_EXT.get(i.callee, ()) if k < len(i.args)]
        r = []
        for t in s.targets(i):
            r += [i.args[k] for k in s.writes[t] if k < len(i.args)]
        return r

    def _scan(s, fn):
        w, r = set(), set()
        for i in fn.instrs():
            for a in s.touched(fn, i):
                for k in s.derived(fn, a):
                    if k not in w:
                        w.add(k)
                        s.why.setdefault((fn.name, k), i)
            if i.op == 'ret' and i.args and fn.rettype == 'ptr':
                r |= s.derived(fn, i.args[0])
        return w, r
