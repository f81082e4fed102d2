"""Optional results are tested before they are used: path-sensitive nullness with inferred function summaries."""
import importlib.util, os, re
from engine import frontend, ir, lib, ditypes, resource
from engine.paths import Rule, Engine, Sym, TooBig

# library functions whose result may be NULL in a normal environment
OPTIONAL = {'getenv', 'secure_getenv', 'strchr', 'strrchr', 'strstr', 'strpbrk', 'memchr', 'strtok', 'fopen', 'fdopen', 'opendir',
            'realpath', 'getcwd', 'readdir', 'fgets', 'getpwuid', 'getpwnam', 'gmtime', 'localtime', 'popen', 'tmpfile',
            'strcasestr', 'strptime', 'mkdtemp', 'inet_ntop', 'gethostbyname', 'freopen', 'getgrgid', 'ttyname', 'strchrnul_',
            'canonicalize_file_name', 'index', 'rindex', 'basename_', 'setlocale', 'memmem', 'strsep', 'memrchr', 'getlogin'}
# library functions that use an argument as text or object
USES = {'strlen': (0,), 'strnlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strcasecmp': (0, 1), 'strncasecmp': (0, 1),
        'strcpy': (0, 1), 'strncpy': (0, 1), 'strcat': (0, 1), 'strncat': (0, 1), 'strstr': (0, 1), 'strchr': (0,), 'strrchr': (0,),
        'strpbrk': (0, 1), 'strdup': (0,), 'strndup': (0,), 'strspn': (0, 1), 'strcspn': (0, 1), 'atoi': (0,), 'atol': (0,),
        'strtol': (0,), 'strtoul': (0,), 'strtod': (0,), 'strtoull': (0,), 'strtoll': (0,), 'fopen': (0, 1), 'fclose': (0,),
        'fread': (0, 3), 'fwrite': (0, 3), 'fgets': (0, 2), 'fputs': (0, 1), 'fputc': (1,), 'puts': (0,), 'fprintf': (0,),
        'vfprintf': (0,), 'feof': (0,), 'ferror': (0,), 'fileno': (0,), 'fseek': (0,), 'ftell': (0,), 'opendir': (0,),
        'readdir': (0,), 'closedir': (0,), 'stat': (0, 1), 'lstat': (0, 1), 'fstat': (1,), 'access': (0,), 'unlink': (0,),
        'rmdir': (0,), 'remove': (0,), 'mkdir': (0,), 'chdir': (0,), 'realpath': (0,), 'putenv': (0,), 'setenv': (0, 1),
        'symlink': (0, 1), 'readlink': (0, 1), 'rename': (0, 1), 'link': (0, 1), 'strftime': (0, 2, 3), 'mktime': (0,),
        'gmtime': (0,), 'localtime': (0,), 'strptime': (0, 1, 2), 'getline': (0, 1), 'inet_ntop': (1, 2), 'popen': (0, 1),
        'pclose': (0,), 'open': (0,), 'creat': (0,), 'mkdtemp': (0,), 'mkstemp': (0,), 'execvp': (0, 1), 'execv': (0, 1), 'execl': (0,),
        'execlp': (0,), 'memcmp': (0, 1), 'getenv': (0,), 'unsetenv': (0,), 'strcoll': (0, 1), 'gethostname': (0,), 'uname': (0,),
        'fflush_': (0,), 'rewind': (0,), 'fgetc': (0,), 'getc': (0,), 'ungetc': (1,), 'write': (1,), 'read': (1,), 'utime': (0,)}
# functions that are NULL only when all the pieces they are given (from this parameter on) are empty
EMPTY = {'bm_generate_filename': 1, 'bm_generate_filename2': 1}
LIMIT = 60000
_s = importlib.util.spec_from_file_location('c11', os.path.join(os.path.dirname(__file__), 'C11.py'))
c11 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(c11)


class Nulls:
    """summaries of a program"""

    def __init__(s, mod):
        s.mod = mod
        s.own = resource.Owner(mod)
        s.uses = {f: {} for f in mod.fns}          # parameter -> why: used without a test
        s.opt = {f: None for f in mod.fns}         # None: never NULL; set of parameters; True: may be NULL whatever is passed
        s.errs = {}                                # functions that are NULL only with an error set
        s.formats = c11.wrappers(mod)
        s.defaults = defaults(mod)
        s.fields = {}
        s._fix()
        s.fields = s._fields()

    def _fix(s):
        users = {}
        for f, fn in s.mod.fns.items():
            for i in fn.instrs():
                if i.op == 'call' and i.callee:
                    users.setdefault(i.callee, set()).add(f)
        todo = dict.fromkeys(f for f, fn in s.mod.fns.items() if fn.rettype == 'ptr' or any(t == 'ptr' for _, t in fn.params))
        able = set(todo)
        while todo:
            f = next(iter(todo))
            del todo[f]
            fn = s.mod.fns[f]
            r = Summ(fn, s)
            try:
                Engine(fn, r, LIMIT).run()
            except TooBig:
                able.discard(f)
                continue
            opt = r.opt if fn.rettype == 'ptr' else None
            old = s.opt[f]
            if old is True or opt is True:
                opt = True
            elif old or opt:
                opt = (old or frozenset()) | (opt or frozenset())
            if set(r.uses) - set(s.uses[f]) or opt != old:
                for k, w in r.uses.items():
                    s.uses[f].setdefault(k, w)
                s.opt[f] = opt
                s.errs = {}
                todo.update((u, None) for u in users.get(f, ()) if u in able)

    def solid(s, fn, op):
        """a text that is certainly not empty"""
        os = list(lib.origins(fn, op))
        for o in os:
            t = s.mod.string(o)
            d = fn.defs.get(o[1]) if o[0] == 'l' else None
            if t is None and d is not None and d.op == 'call' and d.callee in s.formats:
                f = [s.mod.string(x) for x in lib.origins(fn, d.args[s.formats[d.callee][0]])]
                t = f[0].replace(b'%s', b'') if len(f) == 1 and f[0] is not None else None
            if not t:
                return False
        return bool(os)

    def defaulted(s, i):
        """a lookup of a key that always has a value (its default is in a table)"""
        if i.callee in EMPTY and any(s.solid(i.fn, a) for a in i.args[EMPTY[i.callee]:]):
            return True
        for a in i.args:
            ks = [s.mod.string(o) for o in lib.origins(i.fn, a)]
            if ks and all(k is not None and k in s.defaults for k in ks):
                return True
        return False

    def field(s, fn, op):
        """(structure, field number) of an address"""
        d = fn.defs.get(op[1]) if op[0] == 'l' else None
        if d is not None and d.op == 'getelementptr' and isinstance(d.extra, str) and d.extra.startswith('%struct.') and \
                len(d.args) == 3 and d.args[1] == ('i', 0) and d.args[2][0] == 'i':
            return (d.extra, d.args[2][1])

    def _fields(s):
        """fields that are compared with NULL somewhere and that get a value that may be missing"""
        tested, got = set(), {}
        for f, fn in s.mod.fns.items():
            for i in fn.instrs():
                if i.op == 'icmp' and i.args[1][0] == 'null' and i.args[0][0] == 'l':
                    d = fn.defs.get(i.args[0][1])
                    if d is not None and d.op == 'load':
                        tested.add(s.field(fn, d.args[0]))
                elif i.op == 'store' and s.field(fn, i.args[1]):
                    for o in lib.origins(fn, i.args[0]):
                        d = fn.defs.get(o[1]) if o[0] == 'l' else None
                        if d is not None and d.op == 'call' and d.callee in s.opt and s.opt[d.callee] is True and \
                                s.own.errparam(d.callee) is None and not s.defaulted(d):
                            got[s.field(fn, i.args[1])] = d.callee
        return {k: v for k, v in got.items() if k in tested}

    def noerr(s, c):
        """NULL is returned only when an error was stored (given good arguments)"""
        if c not in s.errs:
            s.errs[c] = False
            k = s.own.errparam(c)
            if k is not None and s.mod.fns[c].rettype == 'ptr':
                r = NullMeansError(s.mod.fns[c], k, s)
                try:
                    Engine(s.mod.fns[c], r, LIMIT).run()
                    s.errs[c] = r.ok
                except TooBig:
                    s.errs[c] = True
        return s.errs[c]

    def sinks(s, i):
        """[(argument index, description)] that must not be NULL"""
        c = i.callee
        r = []
        if c is None:
            return r
        if c in USES and c not in s.mod.fns:
            r += [(k, '%s()' % c) for k in USES[c] if k < len(i.args)]
        if c in s.uses:
            r += [(k, '%s(), which uses it without a test (%s)' % (c, w)) for k, w in s.uses[c].items() if k < len(i.args)]
        if c in s.formats and s.formats[c][1] is not None and not c.endswith('scanf'):
            fp, first = s.formats[c]
            for o in lib.origins(i.fn, i.args[fp]) if fp < len(i.args) else ():
                t = s.mod.string(o)
                for n, (ty, conv) in enumerate(c11.wants(t, False) or () if t is not None else ()):
                    if conv.endswith(b's') and first + n < len(i.args):
                        r.append((first + n, 'the %%s of %s()' % c))
        return r


class Nullness(Rule):
    """('opt', v, why, line): v may be NULL; ('cond', v, k): v is NULL exactly when parameter k is;
    ('err', cell, v, why, line): v is NULL exactly when the error cell was set; ('link', w, v, why, line): same, w is the error"""

    def __init__(s, fn, nulls):
        s.f, s.n, s.mod = fn, nulls, fn.module
        s.params = [p for p, _ in fn.params]
        s.ptrs = [k for k, (_, t) in enumerate(fn.params) if t == 'ptr'] if fn.rettype == 'ptr' else []
        s.ints = [k for k, (_, t) in enumerate(fn.params) if t in ('i1', 'i8', 'i32')] if fn.rettype == 'ptr' else []
        s.reset = ()
        s.argv = s.argc = None
        if fn.name == 'main' and len(fn.params) >= 2:
            s.argc, s.argv = s.params[0], s.params[1]

    def init(s, fn):
        return frozenset()

    def assume(s, ins, cx):
        # a formatting failure is treated like an allocation failure
        if ins.op == 'call' and ins.callee in ('vsnprintf', 'snprintf', '__vsnprintf_chk', '__snprintf_chk'):
            return [('sge', 0)]
        if ins.op == 'call' and ins.callee in ('malloc', 'calloc', 'realloc', 'strdup', 'strndup'):
            return [('ne', 0)]
        return ()

    # ---- what a rule derived from this one does
    def use(s, ts, op, v, why, ins, cx, what):
        pass

    def lin(s, op, n=0):
        """(base, offset) of an integer"""
        if op[0] == 'i':
            return (None, op[1])
        d = s.f.defs.get(op[1]) if op[0] == 'l' else None
        if d is not None and n < 8:
            if d.op in ('sext', 'zext', 'trunc', 'freeze'):
                return s.lin(d.args[0], n + 1)
            if d.op in ('add', 'sub') and d.args[1][0] == 'i':
                b, c = s.lin(d.args[0], n + 1)
                return (b, c + (d.args[1][1] if d.op == 'add' else -d.args[1][1]))
        return (op, 0)

    def below(s, block):
        """(base, offset): base + offset < argc holds in a block"""
        argc = ('l', s.argc)
        for b in s.f.blocks.values():
            t = b.term
            if t.op != 'br' or not t.args or t.args[0][0] != 'l' or t.extra[0] == t.extra[1]:
                continue
            d = s.f.defs.get(t.args[0][1])
            if d is None or d.op != 'icmp' or d.extra not in LT:
                continue
            l, r = s.lin(d.args[0]), s.lin(d.args[1])
            pred = d.extra
            if l[0] == argc:
                l, r, pred = r, l, LT[pred][2]
            if r[0] != argc or l[0] == argc:
                continue
            for k in (0, 1):
                to = s.f.blocks[t.extra[k]]
                if to.preds == [b] and s.f.bdom(to, block):
                    q = pred if k == 0 else LT[pred][1]
                    off = l[1] - r[1]
                    if q in ('slt', 'ult', 'eq'):
                        yield l[0], off - (q == 'eq')
                    elif q in ('sle', 'ule'):
                        yield l[0], off - 1

    def bases(s, op, cx):
        n = 0
        while op[0] in ('l', 'gep') and n < 20:
            n += 1
            if op[0] == 'gep':
                op = op[1]
                continue
            v = cx.val(op)
            yield op, v
            d = s.f.defs.get(op[1])
            if d is not None and d.op == 'getelementptr':
                op = d.args[0]
                continue
            if v[0] == 's' and v[1] in cx.st.expr and cx.st.expr[v[1]][0] == 'gep':
                yield op, cx.st.expr[v[1]][1]
            return
        if op[0] == 'null':
            yield op, ('c', 0)

    def look(s, ts, op, v, ins, cx, what):
        """a value is used as an object"""
        z = cx.null(v)
        if z is False:
            return
        for x in ts:
            if x[0] in ('opt', 'err', 'link', 'fld') and x[2 if x[0] in ('err', 'link') else 1] == v:
                s.use(ts, op, v, x[-2], ins, cx, what)
                return
            if x[0] == 'cond' and x[1] == v:
                s.use(ts, op, ('s', Sym(s.params[x[2]])), None, ins, cx, what)
                return
        s.use(ts, op, v, None, ins, cx, what)

    def instr(s, ts, ins, cx):
        if ins.op in ('load', 'store'):
            k = 0 if ins.op == 'load' else 1
            for op, v in s.bases(ins.args[k], cx):
                s.look(ts, op, v, ins, cx, 'is dereferenced')
        elif ins.op == 'call' and ins.callee and not ins.callee.startswith('llvm.'):
            for k, why in s.n.sinks(ins):
                a = ins.args[k]
                if a[0] in ('l', 'null'):
                    s.look(ts, a, cx.val(a), ins, cx, 'is passed to ' + why)
            if ins.callee in ELEMENT and len(ins.args) > ELEMENT[ins.callee]:
                # who walks the list takes its elements as they come
                v = cx.val(ins.args[ELEMENT[ins.callee]])
                for x in ts:
                    if x[0] == 'opt' and x[1] == v and x[-2] == ARGUMENT and cx.null(v) is not False:
                        s.use(ts, ins.args[ELEMENT[ins.callee]], v, x[-2], ins, cx, 'becomes an element of a list')
        return ts

    def after(s, ts, ins, cx):
        c = ins.callee
        if ins.res is None or ins.type != 'ptr' or c is None:
            return ts
        v = cx.val(('l', ins.res))
        if v[0] != 's' or v[1] == '?':
            return ts
        ts = frozenset(x for x in ts if v not in x)
        why = '%s()' % c
        if c in s.n.opt:
            o = s.n.opt[c]
            if o is None:
                return ts
            if o is True:
                if s.n.defaulted(ins):
                    return ts
                e = s.n.own.errparam(c)
                if e is not None and e < len(ins.args) and s.n.noerr(c):
                    ad = cx.addr(ins.args[e])
                    if ad is not None:
                        return ts | {('err', ad, v, why, ins.line or 0)}
                return ts | {('opt', v, why, ins.line or 0)}
            for conj in sorted(o, key=sorted):
                yes, note, cond = True, why, None
                for k, z in conj:
                    w = cx.val(ins.args[k]) if k < len(ins.args) else ('c', 0)
                    n = cx.null(w)
                    if n == z:
                        continue
                    if n is not None:
                        yes = False
                        break
                    if s.mod.fns[c].params[k][1] != 'ptr':
                        continue
                    hit = None
                    for x in ts:
                        if x[0] in ('opt', 'err', 'link') and x[2 if x[0] != 'opt' else 1] == w:
                            hit, note = True, x[-2]
                        elif x[0] == 'cond' and x[1] == w:
                            hit = cond = x[2]
                    if hit is None and w[0] == 's' and str(w[1]) in s.params:
                        hit = cond = s.params.index(str(w[1]))
                    if hit is None:
                        yes = False
                        break
                if yes:
                    ts = ts | {('opt', v, note, ins.line or 0) if cond is None else ('cond', v, cond)}
            return ts
        if c in OPTIONAL and not s.mod.fns.get(c):
            if c in ('strchr', 'strrchr', 'index', 'rindex') and cx.val(ins.args[1]) == ('c', 0):
                return ts
            return ts | {('opt', v, why, ins.line or 0)}
        return ts

    def loaded(s, ts, ins, cx):
        v = cx.val(('l', ins.res))
        if v[0] != 's' or v[1] == '?' or ins.type != 'ptr':
            return ts
        ad = cx.addr(ins.args[0])
        add = set()
        for x in ts:
            if x[0] == 'err' and x[1] == ad:
                add.add(('link', v) + x[2:])
        fd = s.n.field(s.f, ins.args[0]) if s.n.fields else None
        if fd in s.n.fields and cx.null(v) is None and ('fok',) + fd not in ts:
            add.add(('fld', v, fd, s.n.fields[fd] + '()', ins.line or 0))
        if s.argv is not None:
            g = s.f.defs.get(ins.args[0][1]) if ins.args[0][0] == 'l' else None
            if g is not None and g.op == 'getelementptr' and len(g.args) == 2 and cx.val(g.args[0]) == ('s', Sym(s.argv)):
                b, off = s.lin(g.args[1])
                ok = b is None and (off == 0 or cx.rng(('s', Sym(s.argc)))[0] > off)
                ok = ok or any(y == b and o >= off for y, o in s.below(ins.block))
                if not ok:
                    add.add(('opt', v, ARGUMENT, ins.line or 0))
        return ts | add if add else ts

    def edge(s, ts, frm, to, cx):
        add = set()
        for k in s.ptrs:
            if cx.null(('s', Sym(s.params[k]))) is True:
                add.add(('pn', k, True))
        for k in s.ints:
            z = cx.null(('s', Sym(s.params[k])))
            if z is not None and s.params[k] not in s.reset:
                add.add(('pn', k, z))
        if not ts and not add:
            return ts
        ts = ts | add
        fine, bad = set(), {}
        for x in ts:
            if x[0] == 'link':
                z = cx.null(x[1])
                if z is True:
                    fine.add(x[2])
                elif z is False:
                    bad[x[2]] = x
        lv = resource.live_syms(cx.eng, cx.st, to)
        r = set()
        for x in ts:
            if x[0] in ('pn', 'fok'):
                r.add(x)
                continue
            if x[0] == 'fld' and cx.null(x[1]) is False:
                r.add(('fok',) + x[2])
            v = x[2] if x[0] in ('err', 'link') else x[1]
            if v in fine or v[1] not in lv or cx.null(v) is False or x[0] != 'opt' and cx.null(v) is True:
                continue
            if v in bad:
                r.add(('opt', v, x[-2], x[-1]))
                continue
            r.add(x)
        return frozenset(r)


LT = {'slt': ('slt', 'sge', 'sgt'), 'sge': ('sge', 'slt', 'sle'), 'sgt': ('sgt', 'sle', 'slt'), 'sle': ('sle', 'sgt', 'sge'),
      'ult': ('ult', 'uge', 'ugt'), 'uge': ('uge', 'ult', 'ule'), 'ugt': ('ugt', 'ule', 'ult'), 'ule': ('ule', 'ugt', 'uge'),
      'eq': ('eq', 'ne', 'eq'), 'ne': ('ne', 'eq', 'ne')}


ARGUMENT = 'an argument that may not be there'
ELEMENT = {'bc_slist_append': 1, 'bc_slist_prepend': 1}


def null_phis(fn, roots):
    """the phis a value may come through that can bring NULL"""
    r, todo = set(), list(roots)
    while todo:
        v = todo.pop()
        d = fn.defs.get(v[1]) if v[0] == 'l' else None
        if d is None or v[1] in r or d.op not in ('phi', 'select'):
            continue
        r.add(v[1])
        todo += [x for x, _ in d.extra] if d.op == 'phi' else d.args[1:]
    return sorted(r)


class Summ(Nullness):
    def __init__(s, fn, nulls):
        super().__init__(fn, nulls)
        s.nphis = null_phis(fn, [i.args[0] for i in fn.instrs() if i.op == 'ret' and i.args and fn.rettype == 'ptr'])
        s.uses, s.opt = {}, None

    def partition(s, cx):
        return tuple(p for p in s.nphis if cx.st.env.get(p) == ('c', 0))

    def use(s, ts, op, v, why, ins, cx, what):
        if v[0] == 's' and str(v[1]) in s.params:
            s.uses.setdefault(s.params.index(str(v[1])), 'line %s' % ins.line)

    def exit(s, ts, ins, cx):
        if ins.op != 'ret' or not ins.args or s.f.rettype != 'ptr' or s.opt is True:
            return
        v = cx.val(ins.args[0])
        z = cx.null(v)
        if z is False:
            return
        if z is True:
            ks = frozenset(x[1:] for x in ts if x[0] == 'pn')
            s.opt = (s.opt or frozenset()) | {ks} if ks else True
            return
        if str(v[1]) in s.params:
            s.opt = (s.opt or frozenset()) | {frozenset([(s.params.index(str(v[1])), True)])}
            return
        for x in ts:
            if x[0] in ('opt', 'err', 'link') and x[2 if x[0] != 'opt' else 1] == v:
                s.opt = True
            elif x[0] == 'cond' and x[1] == v and s.opt is not True:
                s.opt = (s.opt or frozenset()) | {frozenset([(x[2], True)])}


class Judge(Nullness):
    def __init__(s, fn, nulls, rep, prog, split):
        super().__init__(fn, nulls)
        s.rep, s.prog, s.split = rep, prog, split
        sw = {i.args[0][1] for i in fn.instrs() if i.op == 'switch' and i.args[0][0] == 'l'}
        ms = set(lib.mode_phis(fn))
        s.modes = sw = sw & ms
        while True:
            new = {v[1] for m in sw if fn.defs[m].op == 'phi' for v, _ in fn.defs[m].extra if v[0] == 'l'} & ms - sw
            if not new:
                break
            sw = sw | new
        s.modes = sorted(sw) if split else []
        s.nphis = [i.res for i in fn.instrs() if i.op == 'phi' and i.type == 'ptr' and s.returned(('l', i.res))] if split else []

    def returned(s, op, seen=()):
        """a phi that collects the NULL results of a helper that was inlined"""
        d = s.f.defs.get(op[1]) if op[0] == 'l' else None
        if d is None or d.op != 'phi' or op in seen or len(seen) > 6:
            return False
        vs = [v for v, _ in d.extra]
        if ('null',) in vs and re.match(r'(retval|call).*\.i\d*$', op[1]):
            return True
        return any(s.returned(v, seen + (op,)) for v in vs)

    def partition(s, cx):
        return lib.mode_partition(s.modes, cx), tuple(p for p in s.nphis if cx.st.env.get(p) == ('c', 0))

    def assume(s, ins, cx):
        if ins.op == 'call' and ins.type == 'ptr' and ins.callee in s.n.opt and s.n.opt[ins.callee] is None:
            return [('ne', 0)]
        return super().assume(ins, cx)

    def use(s, ts, op, v, why, ins, cx, what):
        s.rep.count('uses of pointers checked')
        if why is None:
            if not s.split or op[0] != 'l' or v == ('s', '?') or cx.null(v) is not True:
                return
            if v[0] == 'c' and not s.returned(op):
                return
            why = 'a pointer that was found to be NULL'
        s.rep.violation('%s:%s:%s:%s' % (s.prog, lib.fname(ins), why.rstrip('()'), ins.callee or ins.op), ins.loc(),
                        '%s, which can be NULL here, %s' % ('the result of ' + why if '(' in why else why, what), cx.trace())


class NullMeansError(Nullness):
    """whenever the result is NULL, the error was set (arguments given)"""

    def __init__(s, fn, k, nulls):
        super().__init__(fn, nulls)
        s.k, s.ok = k, True
        s.nphis = null_phis(fn, [i.args[0] for i in fn.instrs() if i.op == 'ret'])
        s.p = ('l', s.params[k])

    def partition(s, cx):
        return tuple(p for p in s.nphis if cx.st.env.get(p) == ('c', 0))

    def is_p(s, op, cx):
        return op == s.p or cx.val(op) == ('s', Sym(s.p[1]))

    def instr(s, ts, ins, cx):
        if ins.op == 'store' and s.is_p(ins.args[1], cx) and cx.null(cx.val(ins.args[0])) is not True:
            ts = ts | {('set', ('s', Sym('#')), 0)}
        return ts

    def loaded(s, ts, ins, cx):
        ts = super().loaded(ts, ins, cx)
        if s.is_p(ins.args[0], cx):
            v = cx.val(('l', ins.res))
            if v[0] == 's':
                ts = ts | {('errv', v, 0)}
        return ts

    def edge(s, ts, frm, to, cx):
        add = set()
        for x in ts:
            if x[0] == 'errv' and cx.null(x[1]) is False or x[0] == 'err' and cx.null(x[2]) is True and x[1] == cx.addr(s.p):
                add.add(('set', ('s', Sym('#')), 0))
        keep = {x for x in ts if x[0] == 'set' or x[0] == 'errv' and cx.null(x[1]) is None}
        return frozenset(super().edge(frozenset(x for x in ts if x[0] not in ('set', 'errv')), frm, to, cx) | keep | add)

    def exit(s, ts, ins, cx):
        if ins.op != 'ret' or any(x[0] == 'set' for x in ts):
            return
        v = cx.val(ins.args[0])
        if cx.null(v) is False:
            return
        if any(x[0] == 'pn' for x in ts):
            return
        if cx.null(v) is None:
            for x in ts:
                if x[0] in ('err', 'link') and x[2] == v:
                    return
                if x[0] == 'opt' and x[1] == v:
                    s.ok = False
            return
        s.ok = False


def analyse(rep, prog, mod):
    n = Nulls(mod)
    rep.count('functions whose result may be NULL', sum(1 for f in n.opt if n.opt[f] is True))
    rep.count('functions that hand NULL through', sum(1 for f in n.opt if isinstance(n.opt[f], frozenset)))
    rep.count('parameters used without a test', sum(len(x) for x in n.uses.values()))
    for fn in lib.own(mod):
        rep.count('functions explored', 1, '%s:%s' % (prog, fn.name))
        try:
            Engine(fn, Judge(fn, n, rep, prog, True), LIMIT).run()
        except TooBig:
            Engine(fn, Judge(fn, n, rep, prog, False), 4 * LIMIT).run()
    return n


def defaults(mod):
    """keys of constant {key, value} tables whose value is given"""
    r, no = set(), set()
    for g in mod.globals.values():
        if not g.const or g.init is None or g.init[0] != 'agg':
            continue
        rows = [x[1] for x in g.init[1] if x[0] == 'agg' and len(x[1]) == 2]
        for k, v in rows:
            k, v = mod.string(k), mod.string(v)
            if k is not None:
                (r if v is not None else no).add(k)
    return r - no


BASE = r'''#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdio.h>
typedef struct { int t; char *msg; } bc_error_t;
static const struct { const char *k, *v; } table[] = {{"dir", "x"}, {"opt", NULL}, {NULL, NULL}};
void* bc_malloc(size_t n){ void *p=malloc(n); if(!p) abort(); return p; }
char* bc_strdup(const char *s){ if(s==NULL) return NULL; char *r=bc_malloc(strlen(s)+1); strcpy(r,s); return r; }
char* bc_config_get(const char *k){ const char *e=getenv(k);
 for(int i=0;i<2;i++) if(strcmp(table[i].k,k)==0) return bc_strdup(table[i].v); return e==NULL ? NULL : bc_strdup(e); }
char* bc_file_get_contents(const char *p, bc_error_t **err){ if(err==NULL || *err!=NULL) return NULL; FILE *f=fopen(p,"r");
 if(f==NULL){ bc_error_t *e=bc_malloc(sizeof(bc_error_t)); e->msg=NULL; %(err)s return NULL; } fclose(f); return bc_strdup("x"); }
size_t bc_slist_length(const char *s){ %(len)s return strlen(s); }
char *host;
void* bc_slist_append(void *l, void *d);
int main(int argc, char **argv){
 for(size_t i=1;i<argc;i++){ if(argv[i][0]=='-'){ switch(argv[i][1]){
  case 't': if(argv[i][2]!=0) host=bc_strdup(argv[i]+2); %(next)s break;
  default: return 1; } } else host=argv[i]; }
 char *d=bc_config_get("dir"); printf("%%c", d[0]);
 char *o=bc_strdup(bc_config_get("opt")); %(opt)s printf("%%zu", bc_slist_length(o)); %(elem)s;
 bc_error_t *err=NULL; char *t=bc_file_get_contents("f",&err); %(test)s printf("%%c", t[0]);
 char *c=strchr(t,'='); %(chr)s *c=0; return 0; }'''
GOOD = dict(err='*err=e;', len='', next="else if(i+1<argc) host=argv[++i];", opt='if(o==NULL) return 1;', elem='',
            test='if(err!=NULL) return 1;', chr='if(c==NULL) return 1;')


def run(rep, tier):
    rep.rule('A value that can be missing (getenv, searches, lookups, directory and file opens, the elements of argv beyond argc, '
             'and the results of project functions that hand such a value on, found by summaries) is known to be present on every '
             'path that dereferences it, passes it to a function that uses the parameter without a test, or prints it with %s; an argument that may be missing is not put in a list. '
             'A result that is missing only together with a reported error may be covered by the test of the error. A pointer that '
             'was just found to be NULL is not used.')
    rep.assumption('a failing allocation or formatting ends the process; settings whose default is in the table of defaults are present; '
                   'a parameter whose caller passes a literal NULL is not followed')
    for p, mod in lib.progs():
        analyse(rep, p, mod)
    rep.floor('functions whose result may be NULL', 15)
    rep.floor('functions that hand NULL through', 15)
    rep.floor('functions explored', 150)
    rep.floor('uses of pointers checked', 2000)

    def ex(**kw):
        q = lib.Quiet()
        analyse(q, 'x', frontend.snippet(BASE % dict(GOOD, **kw)))
        return q.v
    rep.selftest('clean', ex() == [])
    rep.selftest('argument', ex(next='else printf("%s", argv[++i]);') != [])
    rep.selftest('passed on', ex(opt='') != [])
    rep.selftest('element', ex(elem='size_t k=1; if(k+1<argc) bc_slist_append(NULL, bc_strdup(argv[++k]))') == []
                 and ex(elem='size_t k=1; if(k<argc) bc_slist_append(NULL, bc_strdup(argv[++k]))') != [])
    rep.selftest('tested by the callee', ex(opt='', len='if(s==NULL) return 0;') == [])
    rep.selftest('error not tested', ex(test='') != [])
    rep.selftest('error not set', ex(err='free(e);') != [])
    rep.selftest('search', ex(chr='') != [])
    rep.selftest('inverted', ex(chr='if(c!=NULL) return 1;') != [])
