"""A small reader for textual LLVM IR (clang 18): functions, blocks, instructions, operands,
global initialisers, debug locations and struct field names."""
import re, collections, functools

TOK = re.compile(r'''
    "(?:[^"\\]|\\.)*" | c"(?:[^"\\]|\\.)*" |
    [%@!](?:"[^"]*"|[-\w.$]+) | [%@!] |
    -?\d+\.\d+(?:e[+-]?\d+)? | 0x[0-9A-Fa-fKLMHR]+ | -?\d+ |
    \.\.\. | [A-Za-z_][\w.]* | \#\d+ | [()\[\]{}<>,=*:] | \S
''', re.X)


def tokenize(s):
    return TOK.findall(s)


# operands -----------------------------------------------------------------
# ('l', name) local value      ('g', name) global      ('i', int) integer constant
# ('null',)  ('undef',)  ('f', text) float  ('gep', base, type, idx...)  ('cast', op, operand)
# ('zero',) zeroinitializer  ('agg', [..])  ('str', bytes)  ('blk', label)  ('md', ..)
NULL = ('null',)


class Instr:
    __slots__ = ('op', 'res', 'type', 'args', 'block', 'fn', 'dbg', 'idx', 'extra', 'uid')

    def __init__(s):
        s.op = s.res = s.type = s.dbg = s.extra = None
        s.args = []

    # calls: extra = {'callee': operand, 'name': str|None}
    @property
    def callee(s):
        return s.extra['name'] if s.op == 'call' else None

    def __repr__(s):
        return '<%s %s %s %s @%s>' % (s.res, s.op, s.callee or (s.extra if s.op != 'call' else ''), s.args,
                                      s.loc())

    def loc(s):
        return s.fn.module.loc(s.dbg)

    @property
    def line(s):
        return s.loc()[1]


class Block:
    def __init__(s, name, fn):
        s.name, s.fn, s.instrs, s.preds, s.succs = name, fn, [], [], []

    @property
    def term(s):
        return s.instrs[-1]

    def phis(s):
        r = []
        for i in s.instrs:
            if i.op != 'phi':
                break
            r.append(i)
        return r

    def __repr__(s):
        return 'B(%s)' % s.name


class Fn:
    def __init__(s, name, module):
        s.name, s.module = name, module
        s.params, s.blocks, s.internal, s.rettype, s.vararg, s.dbg = [], collections.OrderedDict(), False, None, False, None
        s.defs = {}
        s.attrs = ''

    def instrs(s):
        for b in s.blocks.values():
            yield from b.instrs

    @property
    def entry(s):
        return next(iter(s.blocks.values()))

    @property
    def file(s):
        sp = s.module.md_get(s.dbg)
        return s.module.file_of(s.dbg) if sp else '?'

    def calls(s, *names):
        for i in s.instrs():
            if i.op == 'call' and (not names or i.callee in names):
                yield i

    @functools.cached_property
    def uses(s):
        u = collections.defaultdict(list)
        for i in s.instrs():
            for a in operands(i):
                for x in walk(a):
                    if x[0] == 'l':
                        u[x[1]].append(i)
        return u

    @functools.cached_property
    def idom(s):
        return dominators(s)

    def dominates(s, a, b):
        """instr a dominates instr b"""
        if a.block is b.block:
            return a.idx <= b.idx
        return s.bdom(a.block, b.block)

    def bdom(s, a, b):
        x = b
        while x is not None:
            if x is a:
                return True
            x = s.idom.get(x)
        return False


def walk(op):
    yield op
    if op[0] == 'gep':
        for x in op[1:]:
            if isinstance(x, tuple):
                yield from walk(x)
    elif op[0] == 'cast':
        yield from walk(op[2])
    elif op[0] == 'agg':
        for x in op[1]:
            yield from walk(x)


def operands(i):
    """value operands of an instruction, including an indirect callee"""
    if i.op == 'call':
        return i.args + ([i.extra['fnop']] if i.extra['name'] is None else [])
    if i.op == 'phi':
        return [v for v, _ in i.extra]
    return i.args


def dominators(fn):
    order, seen = [], set()
    st = [(fn.entry, iter(fn.entry.succs))]
    seen.add(fn.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(s.succs)))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {fn.entry: fn.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in b.preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) is not new:
                idom[b] = new
                ch = True
    idom[fn.entry] = None
    fn.rpo = rpo
    return idom


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
        'fpext', 'fptrunc', 'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'volatile', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp',
         'contract', 'afn', 'reassoc'}
PATTRS = {'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'immarg', 'returned',
          'writeonly', 'readnone', 'inreg', 'noreturn', 'nofree', 'allocptr', 'writable', 'dead_on_unwind'}


class P:
    def __init__(s, toks, mod):
        s.t, s.i, s.m = toks, 0, mod

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        s.i += 1
        return s.t[s.i - 1]

    def eat(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def expect(s, x):
        if not s.eat(x):
            raise ValueError('expected %s at %s in %s' % (x, s.t[s.i:s.i + 6], ' '.join(s.t)[:300]))

    def skip_par(s):
        s.expect('(')
        d = 1
        while d:
            t = s.next()
            d += (t == '(') - (t == ')')

    def type(s):
        t = s.next()
        if t == '[':
            n = int(s.next()); s.expect('x'); e = s.type(); s.expect(']')
            r = ('arr', n, e)
        elif t == '{':
            es = []
            while not s.eat('}'):
                es.append(s.type()); s.eat(',')
            r = ('struct', tuple(es))
        elif t == '<':
            if s.peek() == '{':
                r = s.type(); s.expect('>')
            else:
                n = int(s.next()); s.expect('x'); e = s.type(); s.expect('>')
                r = ('vec', n, e)
        else:
            r = t
        # function type
        if s.peek() == '(' and t != 'ptr' or (s.peek() == '(' and t == 'ptr' and s._fnty_ahead()):
            s.skip_par()
            r = ('fn', r)
        return r

    def _fnty_ahead(s):
        # "call ptr (ptr, ...) @f(" -- a parenthesised list of types followed by a callee
        d, j = 0, s.i
        while j < len(s.t):
            if s.t[j] == '(':
                d += 1
            elif s.t[j] == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        return j + 1 < len(s.t) and s.t[j + 1][0] in '@%'

    def attrs(s):
        while True:
            t = s.peek()
            if t in PATTRS:
                s.i += 1
            elif t in ('align',):
                s.i += 1
                if s.peek() == '(':
                    s.skip_par()
                else:
                    s.i += 1
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'allocalign', 'captures',
                       'range', 'memory', 'initializes'):
                s.i += 1
                if s.peek() == '(':
                    s.skip_par()
            else:
                return

    def value(s, ty=None):
        t = s.next()
        c = t[0]
        if c == '%':
            return ('l', t[1:].strip('"'))
        if c == '@':
            return ('g', t[1:].strip('"'))
        if t == 'null':
            return NULL
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'true':
            return ('i', 1)
        if t == 'false':
            return ('i', 0)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('undef',)
        if t.startswith('c"'):
            return ('str', cstr(t))
        if t.startswith('0x') or (('.' in t or 'e' in t) and re.match(r'^-?\d', t)):
            return ('f', t)
        if re.match(r'^-?\d+$', t):
            return ('i', int(t))
        if t == 'getelementptr':
            while s.peek() in FLAGS or s.peek() == 'inrange':
                s.i += 1
            s.expect('(')
            st = s.type(); s.expect(',')
            idx = []
            while True:
                s.type(); s.attrs()
                idx.append(s.value())
                if not s.eat(','):
                    break
            s.expect(')')
            return ('gep', idx[0], st) + tuple(idx[1:])
        if t in CAST:
            s.expect('(')
            s.type(); v = s.value(); s.expect('to'); s.type(); s.expect(')')
            return ('cast', t, v)
        if t in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[t]
            if t == '<' and s.peek() == '{':
                v = s.value(); s.expect('>')
                return v
            es = []
            while not s.eat(close):
                s.type()
                es.append(s.value())
                s.eat(',')
            return ('agg', es)
        if t in ('add', 'sub', 'icmp', 'mul', 'xor'):
            while s.peek() != '(':
                s.i += 1
            s.skip_par()
            return ('f', t)
        if c == '!':
            if t in ('!',):
                s.i += 1
            return ('md', t)
        if t == 'asm':
            return ('f', 'asm')
        raise ValueError('value? %r in %s' % (t, ' '.join(s.t)[:300]))


def cstr(t):
    body = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(body):
        if body[i] == '\\' and body[i + 1] == '\\':
            out.append(92)
            i += 2
        elif body[i] == '\\':
            out.append(int(body[i + 1:i + 3], 16))
            i += 3
        else:
            out += body[i].encode()
            i += 1
    return bytes(out)


class Global:
    def __init__(s, name):
        s.name, s.type, s.init, s.const, s.internal, s.extern = name, None, None, False, False, False
        s.dbgname = None


class Module:
    def __init__(s, path, program):
        s.path, s.program = path, program
        s.fns, s.globals, s.structs, s.decls, s.mdtext = {}, {}, {}, {}, {}
        s._mdc = {}
        s._locc = {}
        with open(path) as f:
            # (the C library has one function under two names)
            s._parse(f.read().replace('@__isoc23_', '@').replace('@__isoc99_', '@'))

    # ---- metadata
    def md_get(s, ref):
        if ref is None:
            return None
        if ref in s._mdc:
            return s._mdc[ref]
        t = s.mdtext.get(ref)
        r = None
        if t is not None:
            m = re.match(r'(?:distinct )?!(\w+)\((.*)\)$', t, re.S)
            if m:
                r = {'kind': m.group(1)}
                for k in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|![\w.]+|[^,]+)', m.group(2)):
                    v = k.group(2)
                    r[k.group(1)] = v[1:-1] if v[0] == '"' else v
            else:
                m = re.match(r'(?:distinct )?!\{(.*)\}$', t, re.S)
                if m:
                    r = {'kind': 'tuple', 'items': [x.strip() for x in m.group(1).split(',')] if m.group(1).strip() else []}
        s._mdc[ref] = r
        return r

    def file_of(s, scope):
        while scope:
            d = s.md_get(scope)
            if d is None:
                return '?'
            if 'file' in d and d['file'].startswith('!'):
                f = s.md_get(d['file'])
                n = f.get('filename', '?')
                dr = f.get('directory', '')
                p = n if n.startswith('/') else dr + '/' + n
                from . import frontend
                if p.startswith(frontend.REPO + '/'):
                    p = p[len(frontend.REPO) + 1:]
                return p
            scope = d.get('scope')
        return '?'

    def fn_of(s, scope):
        while scope:
            d = s.md_get(scope)
            if d is None:
                return '?'
            if d['kind'] == 'DISubprogram':
                return d.get('name', '?')
            scope = d.get('scope')
        return '?'

    def loc(s, ref):
        """(file, line, function, inlined-into chain)"""
        if ref is None:
            return ('?', 0, '?', ())
        if ref in s._locc:
            return s._locc[ref]
        d = s.md_get(ref)
        if d is None or d['kind'] != 'DILocation':
            r = ('?', 0, '?', ())
        else:
            chain = ()
            if 'inlinedAt' in d:
                o = s.loc(d['inlinedAt'])
                chain = ((o[0], o[1], o[2]),) + o[3]
            r = (s.file_of(d['scope']), int(d.get('line', '0')), s.fn_of(d['scope']), chain)
        s._locc[ref] = r
        return r

    # ---- parse
    def _parse(s, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                name, rest = ln.split(' = type ', 1)
                p = P(tokenize(rest), s)
                s.structs[name.strip()] = p.type() if rest != 'opaque' else 'opaque'
            elif ln.startswith('@'):
                s._global(ln)
            elif ln.startswith('declare '):
                m = re.search(r'@([\w.$]+)\(', ln)
                s.decls[m.group(1)] = ln
            elif ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                s._fn(ln, lines[i + 1:j])
                i = j
            elif ln.startswith('!'):
                m = re.match(r'(![\w.]+) = (.*)$', ln)
                if m:
                    s.mdtext[m.group(1)] = m.group(2)
            i += 1

    def _global(s, ln):
        m = re.match(r'@("[^"]*"|[\w.$]+) = (.*)$', ln)
        g = Global(m.group(1).strip('"'))
        rest = m.group(2)
        dm = re.search(r', !dbg (!\d+)', rest)
        if dm:
            g.dbg = dm.group(1)
        else:
            g.dbg = None
        m2 = re.match(r'(.*?)\b(global|constant)\s(.*)$', rest)
        if not m2:
            return
        g.internal = 'internal' in m2.group(1) or 'private' in m2.group(1)
        g.extern = 'external' in m2.group(1)
        g.const = m2.group(2) == 'constant'
        p = P(tokenize(m2.group(3)), s)
        g.type = p.type()
        if not g.extern and p.peek() not in (None, ','):
            g.init = p.value()
        s.globals[g.name] = g

    def _fn(s, head, body):
        m = re.search(r'@("[^"]*"|[\w.$]+)\(', head)
        f = Fn(m.group(1).strip('"'), s)
        pre = head[:m.start()]
        f.internal = ' internal ' in pre
        p = P(tokenize(head[m.end():]), s)
        p2 = P([t for t in tokenize(pre) if t not in ('define', 'dso_local', 'internal', 'noundef', 'zeroext', 'signext',
                                                      'noalias', 'nonnull', 'weak', 'hidden', 'local_unnamed_addr')], s)
        f.rettype = p2.type()
        while not p.eat(')'):
            if p.eat('...'):
                f.vararg = True
                continue
            t = p.type(); p.attrs()
            v = p.value()
            f.params.append((v[1], t))
            p.eat(',')
        dm = re.search(r'!dbg (!\d+)', head)
        f.dbg = dm.group(1) if dm else None
        cur = None
        k = 0
        while k < len(body):
            ln = body[k]
            k += 1
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            if not ln.startswith(' '):
                lab = re.match(r'("[^"]*"|[-\w.$]+):', ln).group(1).strip('"')
                cur = Block(lab, f)
                f.blocks[lab] = cur
                continue
            if cur is None:
                cur = Block('entry', f)
                f.blocks['entry'] = cur
            if ' switch ' in ln or ln.startswith('  switch '):
                while ']' not in body[k - 1]:
                    ln += ' ' + body[k]
                    k += 1
            if '@llvm.dbg.' in ln:
                s._dbgvar(f, ln)
                continue
            if '@llvm.lifetime' in ln:
                continue
            ins = s._instr(ln.strip(), f)
            ins.block, ins.fn, ins.idx = cur, f, len(cur.instrs)
            cur.instrs.append(ins)
            if ins.res is not None:
                f.defs[ins.res] = ins
        for b in f.blocks.values():
            t = b.term
            ls = []
            if t.op == 'br':
                ls = t.extra
            elif t.op == 'switch':
                ls = [t.extra['default']] + [l for _, l in t.extra['cases']]
            out = []
            for l in ls:
                sb = f.blocks[l]
                if sb not in out:
                    out.append(sb)
            b.succs = out
            for sb in out:
                sb.preds.append(b)
        s.fns[f.name] = f

    def _dbgvar(s, f, ln):
        m = re.search(r'@llvm\.dbg\.(value|declare)\(metadata (\S+) ([^,]+), metadata (!\d+)', ln)
        if not m:
            return
        v = m.group(3)
        if not hasattr(f, 'dbgvars'):
            f.dbgvars = collections.defaultdict(set)
        if v.startswith('%'):
            d = s.md_get(m.group(4)) if s.mdtext else None
            f.dbgvars[v[1:]].add(m.group(4))

    def varnames(s, f, local):
        r = set()
        for ref in getattr(f, 'dbgvars', {}).get(local, ()):
            d = s.md_get(ref)
            if d:
                r.add(d.get('name', '?'))
        return r

    def _instr(s, ln, f):
        ins = Instr()
        m = re.search(r', !dbg (!\d+)', ln)
        if m:
            ins.dbg = m.group(1)
        cut = re.search(r', !(?:dbg|tbaa|srcloc|llvm\.loop|range|nonnull|noundef|prof)\b', ln)
        if cut:
            ln = ln[:cut.start()]
        p = P(tokenize(ln), s)
        if p.peek()[0] == '%' and p.peek(1) == '=':
            ins.res = p.next()[1:].strip('"')
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        ins.op = op
        if op == 'call':
            while p.peek() in FLAGS:
                p.next()
            while p.peek() in ('fastcc', 'ccc', 'coldcc'):
                p.next()
            p.attrs()
            t = p.type()
            p.attrs()
            ins.type = t[1] if isinstance(t, tuple) and t[0] == 'fn' else t
            if p.peek() == 'asm':
                ins.extra = {'name': '<asm>', 'fnop': ('f', 'asm')}
                return ins
            c = p.value()
            ins.extra = {'name': c[1] if c[0] == 'g' else None, 'fnop': c}
            ins.extra['argtypes'] = []
            p.expect('(')
            while not p.eat(')'):
                at = p.type(); p.attrs()
                if at == 'metadata':
                    p.value()
                    v = ('md',)
                else:
                    v = p.value()
                ins.args.append(v)
                ins.extra['argtypes'].append(at)
                p.eat(',')
        elif op == 'load':
            fl = []
            while p.peek() in FLAGS or p.peek() == 'atomic':
                fl.append(p.next())
            ins.uid = frozenset(fl)
            ins.type = p.type(); p.expect(','); p.type()
            ins.args = [p.value()]
        elif op == 'store':
            fl = []
            while p.peek() in FLAGS or p.peek() == 'atomic':
                fl.append(p.next())
            ins.uid = frozenset(fl)
            t = p.type(); v = p.value(); p.expect(','); p.type(); a = p.value()
            ins.args = [v, a]
            ins.extra = t
        elif op == 'getelementptr':
            while p.peek() in FLAGS:
                p.next()
            t = p.type(); p.expect(',')
            ins.type = 'ptr'
            ins.extra = t
            while True:
                p.type()
                ins.args.append(p.value())
                if not p.eat(','):
                    break
        elif op == 'alloca':
            ins.type = 'ptr'
            ins.extra = p.type()
        elif op in ('icmp', 'fcmp'):
            while p.peek() in FLAGS:
                p.next()
            pr = p.next()
            t = p.type(); a = p.value(); p.expect(','); b = p.value()
            ins.args = [a, b]
            ins.extra = pr
            ins.type = 'i1'
            ins.idx = None
            ins.uid = t   # operand type
        elif op in BIN:
            fl = []
            while p.peek() in FLAGS:
                fl.append(p.next())
            ins.type = p.type()
            a = p.value(); p.expect(','); b = p.value()
            ins.args = [a, b]
            ins.extra = fl
        elif op in CAST:
            while p.peek() in FLAGS:
                p.next()
            t = p.type(); v = p.value(); p.expect('to')
            ins.args = [v]
            ins.extra = t
            ins.type = p.type()
        elif op == 'phi':
            ins.type = p.type()
            ins.extra = []
            while True:
                p.expect('[')
                v = p.value(); p.expect(',')
                b = p.next()[1:].strip('"')
                p.expect(']')
                ins.extra.append((v, b))
                if not p.eat(','):
                    break
            ins.args = [v for v, _ in ins.extra]
        elif op == 'select':
            p.type(); c = p.value(); p.expect(',')
            ins.type = p.type(); a = p.value(); p.expect(','); p.type(); b = p.value()
            ins.args = [c, a, b]
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                ins.extra = [p.next()[1:].strip('"')]
            else:
                p.type()
                ins.args = [p.value()]
                p.expect(','); p.expect('label')
                a = p.next()[1:].strip('"'); p.expect(','); p.expect('label')
                b = p.next()[1:].strip('"')
                ins.extra = [a, b]
        elif op == 'switch':
            p.type()
            ins.args = [p.value()]
            p.expect(','); p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cs = []
            while not p.eat(']'):
                p.type(); v = p.value(); p.expect(','); p.expect('label')
                cs.append((v[1], p.next()[1:].strip('"')))
            ins.extra = {'default': d, 'cases': cs}
        elif op == 'ret':
            t = p.type()
            ins.type = t
            if t != 'void':
                ins.args = [p.value()]
        elif op == 'unreachable':
            pass
        elif op == 'extractvalue':
            p.type(); v = p.value()
            ins.args = [v]
            ins.extra = []
            while p.eat(','):
                ins.extra.append(int(p.next()))
            ins.type = '?'
        elif op == 'insertvalue':
            p.type(); v = p.value(); p.expect(','); p.type(); w = p.value()
            ins.args = [v, w]
            ins.type = '?'
        elif op in ('fneg', 'freeze'):
            ins.type = p.type()
            ins.args = [p.value()]
        elif op == 'va_arg':
            p.type()
            ins.args = [p.value()]; p.expect(',')
            ins.type = p.type()
        elif op == 'atomicrmw':
            while p.peek() in FLAGS:
                p.next()
            p.next(); p.type(); a = p.value(); p.expect(','); ins.type = p.type(); v = p.value()
            ins.args = [a, v]
        elif op == 'cmpxchg':
            while p.peek() in FLAGS or p.peek() == 'weak':
                p.next()
            p.type(); a = p.value(); p.expect(','); p.type(); v = p.value(); p.expect(','); p.type(); w = p.value()
            ins.args = [a, v, w]
            ins.type = '?'
        elif op == 'fence':
            pass
        else:
            raise ValueError('unknown instruction: ' + ln)
        return ins

    # ---- helpers
    def string(s, op):
        """bytes of a constant C string operand, or None"""
        off = 0
        if op[0] == 'gep':
            base = op[1]
            idx = op[3:]
            if base[0] == 'g' and all(x[0] == 'i' for x in idx):
                off = idx[-1][1]
                op = base
        if op[0] == 'g' and op[1] in s.globals:
            g = s.globals[op[1]]
            if g.const and g.init is not None:
                if g.init[0] == 'str':
                    b = g.init[1][off:]
                    z = b.find(b'\0')
                    return b[:z] if z >= 0 else b
                if g.init[0] == 'zero' and isinstance(g.type, tuple) and g.type[0] == 'arr' and g.type[2] == 'i8':
                    return b''
        return None

    def struct_fields(s, name):
        """field names of a struct, from debug info (by DICompositeType or typedef name)"""
        if not hasattr(s, '_sf'):
            s._sf = {}
            for ref, t in s.mdtext.items():
                if 'DICompositeType(tag: DW_TAG_structure_type' in t:
                    d = s.md_get(ref)
                    n = d.get('name')
                    if n is None:
                        continue
                    s._sf.setdefault(n, d)
                elif 'DIDerivedType(tag: DW_TAG_typedef' in t:
                    d = s.md_get(ref)
                    b = s.md_get(d.get('baseType'))
                    if b and b['kind'] == 'DICompositeType':
                        s._sf.setdefault(d['name'], b)
        d = s._sf.get(name)
        if d is None or 'elements' not in d:
            return None
        el = s.md_get(d['elements'])
        return [s.md_get(x).get('name') for x in el['items']]

    def sizeof(s, t):
        if isinstance(t, tuple):
            if t[0] == 'arr':
                return t[1] * s.sizeof(t[2])
            if t[0] == 'struct':
                off = 0
                al = 1
                for e in t[1]:
                    a = s.alignof(e)
                    al = max(al, a)
                    off = (off + a - 1) // a * a + s.sizeof(e)
                return (off + al - 1) // al * al
            return 8
        if t == 'ptr' or t == 'double':
            return 8
        if t == 'float':
            return 4
        if t.startswith('%'):
            return s.sizeof(s.structs[t])
        m = re.match(r'i(\d+)$', t)
        if m:
            return max(1, (int(m.group(1)) + 7) // 8)
        return 8

    def alignof(s, t):
        if isinstance(t, tuple):
            if t[0] == 'arr':
                return s.alignof(t[2])
            if t[0] == 'struct':
                return max([s.alignof(e) for e in t[1]] or [1])
            return 8
        if t.startswith('%'):
            return s.alignof(s.structs[t])
        return min(8, s.sizeof(t))


_mods = {}


def load(prog, mode='static', keep=(), inline=(), extra=()):
    from . import frontend
    k = (prog, mode, tuple(sorted(keep)), tuple(sorted(inline)), tuple(extra))
    if k not in _mods:
        _mods[k] = Module(frontend.normalised(prog, mode, keep, inline, extra), prog)
    return _mods[k]
