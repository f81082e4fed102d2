"""Source-level types and field names from debug information."""
import re
from .ir import walk


def strip(mod, ref):
    """through typedef and cv qualifiers"""
    n = 0
    while ref and ref.startswith('!') and n < 20:
        d = mod.md_get(ref)
        if d is None or d['kind'] != 'DIDerivedType':
            return ref
        if d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
            ref = d.get('baseType')
            n += 1
            continue
        return ref
    return ref


def pointee(mod, ref):
    ref = strip(mod, ref)
    d = mod.md_get(ref) if ref else None
    if d and d['kind'] == 'DIDerivedType' and d.get('tag') == 'DW_TAG_pointer_type':
        return d.get('baseType')
    return None


def typename(mod, ref):
    """first name met on the way (typedef or struct tag)"""
    n = 0
    while ref and ref.startswith('!') and n < 20:
        d = mod.md_get(ref)
        if d is None:
            return None
        if d.get('name') and d.get('tag') not in ('DW_TAG_member',):
            return d['name']
        ref = d.get('baseType')
        n += 1
    return None


def member(mod, ref, off):
    """(path name, type ref) of the member at a byte offset of an aggregate type"""
    nm = typename(mod, ref)
    ref = strip(mod, ref)
    d = mod.md_get(ref) if ref else None
    if d is None or d['kind'] != 'DICompositeType':
        return None
    if d.get('tag') == 'DW_TAG_array_type':
        return None
    el = mod.md_get(d.get('elements', ''))
    if not el:
        return None
    best = None
    for m in el['items']:
        md = mod.md_get(m)
        if md is None or md.get('tag') != 'DW_TAG_member':
            continue
        o = int(md.get('offset', '0')) // 8
        sz = int(md.get('size', '0')) // 8
        if o == off or o <= off < o + max(sz, 1):
            if o == off:
                best = (md.get('name', ''), md.get('baseType'))
                sub = strip(mod, md.get('baseType'))
                sd = mod.md_get(sub) if sub else None
                if sd is not None and sd['kind'] == 'DICompositeType' and sd.get('tag') == 'DW_TAG_structure_type':
                    return (nm, md.get('name', ''), md.get('baseType'))
                return (nm, md.get('name', ''), md.get('baseType'))
            return member(mod, md.get('baseType'), off - o)
    return None


def gepoff(mod, ty, idx):
    if any(x[0] != 'i' for x in idx):
        return None
    off = idx[0][1] * mod.sizeof(ty)
    t = ty
    for x in idx[1:]:
        if isinstance(t, str) and t.startswith('%'):
            t = mod.structs[t]
        if isinstance(t, tuple) and t[0] == 'struct':
            o = 0
            for j, e in enumerate(t[1]):
                a = mod.alignof(e)
                o = (o + a - 1) // a * a
                if j == x[1]:
                    break
                o += mod.sizeof(e)
            off += o
            t = t[1][x[1]]
        elif isinstance(t, tuple) and t[0] == 'arr':
            off += x[1] * mod.sizeof(t[2])
            t = t[2]
        else:
            return None
    return off


def base_off(fn, op):
    """(base operand, constant byte offset or None) of an address"""
    off = 0
    while True:
        if op[0] == 'l':
            d = fn.defs.get(op[1])
            if d is not None and d.op == 'getelementptr':
                o = gepoff(fn.module, d.extra, d.args[1:])
                off = None if (o is None or off is None) else off + o
                op = d.args[0]
                continue
        elif op[0] == 'gep':
            o = gepoff(fn.module, op[2], op[3:])
            off = None if (o is None or off is None) else off + o
            op = op[1]
            continue
        return op, off


def subprogram(mod, fn):
    d = mod.md_get(fn.dbg)
    if not d:
        return None
    t = mod.md_get(d.get('type', ''))
    if not t:
        return None
    ty = mod.md_get(t.get('types', ''))
    return ty['items'] if ty else None


def type_of(fn, op, seen=None):
    """DI type ref of a value (pointer typed values: the pointer type)"""
    mod = fn.module
    seen = seen or set()
    if op in seen:
        return None
    seen = seen | {op}
    if op[0] == 'g':
        g = mod.globals.get(op[1])
        return None
    if op[0] != 'l':
        return None
    for ref in sorted(getattr(fn, 'dbgvars', {}).get(op[1], ())):
        d = mod.md_get(ref)
        if d is not None and d.get('type'):
            i = fn.defs.get(op[1])
            if i is not None and i.op == 'alloca':
                return ('addr', d['type'])
            t = d['type']
            if typename(mod, t) == 'void' or t == 'null':
                continue
            pt = pointee(mod, t)
            if pointee(mod, t) is None and strip(mod, t) and 'pointer' in str(mod.md_get(strip(mod, t))):
                continue
            return t
    i = fn.defs.get(op[1])
    if i is None:
        ps = [p for p, _ in fn.params]
        ty = subprogram(mod, fn)
        if op[1] in ps and ty and len(ty) > ps.index(op[1]) + 1:
            return ty[ps.index(op[1]) + 1]
        return None
    if i.op in ('phi', 'select'):
        for a in (i.args if i.op == 'phi' else i.args[1:]):
            t = type_of(fn, a, seen)
            if t:
                return t
        return None
    if i.op == 'call' and i.callee in mod.fns:
        ty = subprogram(mod, mod.fns[i.callee])
        return ty[0] if ty and ty[0] != 'null' else None
    if i.op == 'load':
        m = member_at(fn, i.args[0], seen)
        return m[2] if m else None
    return None


def member_at(fn, addr, seen=None):
    """(struct name, field name, field type) that an address designates"""
    mod = fn.module
    b, off = base_off(fn, addr)
    if off is None:
        return None
    t = type_of(fn, b, seen)
    if t is None:
        # the struct type written in the address computation
        d = fn.defs.get(addr[1]) if addr[0] == 'l' else None
        if d is not None and d.op == 'getelementptr' and isinstance(d.extra, str) and d.extra.startswith('%struct.') \
                and d.args[-1][0] == 'i' and len(d.args) == 3:
            n = re.sub(r'\.\d+$', '', d.extra[len('%struct.'):])
            fs = mod.struct_fields(n) or mod.struct_fields(n.lstrip('_'))
            if fs and d.args[-1][1] < len(fs):
                return (n.lstrip('_'), fs[d.args[-1][1]], None)
        return None
    p = t[1] if isinstance(t, tuple) else pointee(mod, t)
    if p is None:
        return None
    return member(mod, p, off)


def ret_type(mod, fn):
    ty = subprogram(mod, fn)
    return ty[0] if ty and ty[0] != 'null' else None


def enumvalues(mod, ref):
    """values of an enumerated type that are counted without gaps, else None"""
    ref = strip(mod, ref)
    d = mod.md_get(ref) if ref else None
    if d is None or d['kind'] != 'DICompositeType' or d.get('tag') != 'DW_TAG_enumeration_type':
        return None
    el = mod.md_get(d.get('elements', ''))
    r = set()
    for m in (el or {}).get('items', ()):
        e = mod.md_get(m)
        if e is None or e.get('value') is None:
            return None
        r.add(int(e['value']))
    if not r or max(r) - min(r) + 1 != len(r) or len(r) < 2:
        return None
    return r
