"""printf-like calls: fixed formats, and conversions that match the arguments passed."""
import re
from engine import frontend, ir, lib

# format position, first variadic argument (None: va_list)
BASE = {'printf': (0, 1), 'fprintf': (1, 2), 'dprintf': (1, 2), 'sprintf': (1, 2), 'snprintf': (2, 3), 'asprintf': (1, 2),
        'syslog': (1, 2), 'err': (1, 2), 'errx': (1, 2), 'warn': (0, 1), 'warnx': (0, 1), 'error': (2, 3),
        'vprintf': (0, None), 'vfprintf': (1, None), 'vdprintf': (1, None), 'vsprintf': (1, None),
        'vsnprintf': (2, None), 'vasprintf': (1, None), 'vsyslog': (1, None), '__printf_chk': (1, 2),
        '__fprintf_chk': (2, 3), 'fwprintf': (1, 2), 'scanf': (0, 1), 'sscanf': (1, 2), 'fscanf': (1, 2)}
SCAN = {'scanf', 'sscanf', 'fscanf'}

CONV = re.compile(rb"%([-+ #0']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|q|L|j|z|t)?([diouxXeEfFgGaAcsCSpnm%])|%")


def wants(fmt, scan):
    """list of expected argument classes, or None when the format is malformed"""
    out = []
    for m in CONV.finditer(fmt):
        if m.group(0) == b'%':
            return None
        conv, ln = m.group(5), m.group(4) or b''
        if conv == b'%' or conv == b'm':
            continue
        if scan:
            if m.group(2) != b'*':
                out.append(('ptr', m.group(0)))
            continue
        for star in (m.group(2), m.group(3)):
            if star == b'*':
                out.append(('i32', m.group(0)))
        if conv in b'diouxX':
            out.append(('i64' if ln in (b'l', b'll', b'q', b'j', b'z', b't') else 'i32', m.group(0)))
        elif conv in b'eEfFgGaA':
            out.append(('x86_fp80' if ln == b'L' else 'double', m.group(0)))
        elif conv == b'c':
            out.append(('i32', m.group(0)))
        else:
            out.append(('ptr', m.group(0)))
    return out


def wrappers(mod):
    """functions whose parameter reaches the format position of a printf-like function"""
    w = dict(BASE)
    ch = True
    while ch:
        ch = False
        for fn in lib.own(mod):
            if fn.name in w:
                continue
            ps = [p for p, _ in fn.params]
            for i in fn.instrs():
                if i.op == 'call' and i.callee in w:
                    fp = w[i.callee][0]
                    if fp >= len(i.args):
                        continue
                    for o in lib.origins(fn, i.args[fp]):
                        if o[0] == 'l' and o[1] in ps and fn.name not in w and (fn.vararg or w[i.callee][1] is None):
                            w[fn.name] = (ps.index(o[1]), len(ps) if fn.vararg else None)
                            ch = True
    return w


def scan(rep, prog, mod):
    w = wrappers(mod)
    for f in w:
        if f in mod.fns:
            rep.count('printf-like wrappers found', 1, f)
    for fn in lib.own(mod):
        for i in fn.instrs():
            if i.op == 'call' and i.callee is None:
                pass
            if i.op != 'call' or i.callee not in w:
                continue
            fp, first = w[i.callee]
            rep.count('format call sites')
            src = lib.fname(i)
            ps = [p for p, _ in fn.params]
            org = lib.origins(fn, i.args[fp])
            for o in org:
                s = mod.string(o)
                if s is None:
                    if o[0] == 'l' and o[1] in ps and fn.name in w and w[fn.name][0] == ps.index(o[1]):
                        rep.count('formats forwarded by a wrapper')
                        continue
                    rep.violation('nonliteral:%s:%s' % (src, i.callee), i.loc(),
                                  'format of %s() is not a string constant' % i.callee)
                    continue
                want = wants(s, i.callee in SCAN)
                text = s.decode('latin1')
                if want is None:
                    rep.violation('malformed:%s:%s' % (src, text), i.loc(), 'malformed format "%s"' % text)
                    continue
                if first is None:
                    if want and i.callee not in ('vprintf', 'vfprintf', 'vsnprintf', 'vsprintf', 'vdprintf', 'vasprintf', 'vsyslog') \
                            and not i.callee.startswith('v') and not has_valist(mod, i):
                        rep.violation('count:%s:%s' % (src, text), i.loc(),
                                      'format "%s" reaches printf through %s() without arguments' % (text, i.callee))
                    continue
                have = i.extra['argtypes'][first:]
                rep.count('conversions matched', len(want))
                if len(have) < len(want):
                    rep.violation('count:%s:%s' % (src, text), i.loc(), 'format "%s" needs %d argument(s), %d passed' % (
                        text, len(want), len(have)))
                    continue
                if len(have) > len(want):
                    rep.violation('extra:%s:%s' % (src, text), i.loc(), 'format "%s" uses %d of %d arguments passed' % (
                        text, len(want), len(have)))
                for k, ((ty, conv), h) in enumerate(zip(want, have)):
                    if h in ('i8', 'i16', 'i1'):
                        h = 'i32'
                    if h != ty:
                        rep.violation('type:%s:%s:%d' % (src, text, k), i.loc(),
                                      'conversion %s in "%s" reads %s, argument %d has type %s' % (
                                          conv.decode(), text, ty, k + 1, h))


def has_valist(mod, i):
    f = mod.fns.get(i.callee)
    return f is not None and any(c.callee in BASE and BASE[c.callee][1] is None for c in f.calls()) and not f.vararg and \
        len(i.args) > 1


def run(rep, tier):
    rep.rule('Printf-like functions are the libc ones plus every repository function whose parameter reaches a format position; '
             'at each call the format must be a string constant on every path and each conversion must have an argument of the '
             'width and kind it reads.')
    rep.assumption('signedness is not distinguished; strftime formats are excluded')
    for name, mod in lib.progs():
        scan(rep, name, mod)
    rep.floor('format call sites', 150)
    rep.floor('printf-like wrappers found', 10, '(bc_strdup_printf, bc_error_new_printf, bc_string_append_printf ...)')
    m = frontend.snippet('''#include <stdio.h>
#include <stdarg.h>
static void lg(const char *f, ...){va_list a;va_start(a,f);vprintf(f,a);va_end(a);}
void wrap(const char *f, ...){va_list a;va_start(a,f);vprintf(f,a);va_end(a);}
void a1(char *s){wrap(s);} void a2(size_t n){wrap("%d",n);} void a3(int n){wrap("%s %s","x");}''')
    v = lib.Quiet()
    scan(v, 'x', m)
    rep.selftest('non-literal, wrong type, missing argument', len(v.v) == 3)

