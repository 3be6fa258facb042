"""Field I/O plans of the generated tag structures, recovered from their read/write bodies by abstract evaluation.

A plan lists every leaf read or write: which type is read/written, at which constant offset from the structure start,
with which byte order, and which field of the structure the value reaches (or comes from).
"""
import re
from .ev import Ev, State
from .val import *
from .defs import Defs

IO = {'read_from_tag_file', 'write_to_tag_file', 'read', 'write', 'read_from_map', 'read_from_map_with_offset'}
PARSE = 'ringhopper_primitives::parse::'
SIMPLE = PARSE + 'SimpleTagData'
TAGDATA = PARSE + 'TagData'
S = 'ringhopper_structs::'
ALIAS = {'Index': 'Option<u16>'}


def short(t):
    """Type name without module paths."""
    return re.sub(r'\b(?:[A-Za-z_][A-Za-z0-9_]*::)+', '', t)


def ftype(f):
    """Rust type of a field, as the definitions demand it."""
    t = ALIAS.get(f.type, f.type)
    if f.count == 'bounds':
        return 'Bounds<%s>' % t
    if f.count != 1:
        return '[%s; %d]' % (t, f.count)
    return t


class Op:
    __slots__ = ('kind', 'type', 'off', 'order', 'e', 'src', 'call')


class LayoutError(Exception):
    pass


def is_io(c):
    return c.method in IO and (c.trait in (SIMPLE, TAGDATA) or c.method == 'read_from_map_with_offset')


def opaque(c):
    return is_io(c) or (c.method == 'default' and not c.args[1:])


def alts(v, fs=()):
    """Leaf alternatives of a gated value with the facts under which each is chosen."""
    a = PHI.get(v)
    if a:
        for x, f, e in a:
            yield from alts(x, fs + tuple(f))
    else:
        yield v, fs


class Plan:
    def __init__(self, P, fn, posarg):
        self.fn = fn
        self.ev = ev = StoreEv(P, opaque=opaque)
        self.ret, self.st = ev.run(fn)
        self.pos = mk('arg', posarg)
        self.ops = []
        self.stores = ev.stores
        for e in ev.events.values():
            if e.kind != 'call' or not is_io(e.callee):
                continue
            o = Op()
            m = e.callee.method
            o.kind = 'write' if m.startswith('write') else 'read'
            i = 2 if o.kind == 'write' else 1
            d = sub(e.args[i], self.pos)
            o.off = d.a[1] if iskint(d) else None
            o.type = short(e.callee.args[0]) if e.callee.args else '?'
            o.order = None
            if m in ('read', 'write'):
                o.order = short(e.callee.args[-1])
            elif m in ('read_from_tag_file', 'write_to_tag_file'):
                o.order = 'tag'
            else:
                o.order = 'map'
            o.e = e
            o.call = e.val
            o.src = None
            self.ops.append(o)
        self.ok = [(x, f) for x, f in alts(self.ret) if x.op == 'adt' and x.a[1] == 'Ok']
        # a tail call `T::write(..)` returned directly also counts as the success path
        self.tail = [x for x, f in alts(self.ret) if x.op == 'call']

    def completes(self, o):
        """The operation succeeded on every path that returns Ok."""
        f = mk('isv', o.call, 'Ok')
        for x, fs in self.ok:
            if (f, True) not in fs and self.st.facts.get(f) is not True:
                return False
        return all(t is o.call for t in self.tail) and bool(self.ok or self.tail)

    def okvals(self):
        return [x.a[2][0][1] for x, _ in self.ok]


class StoreEv(Ev):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.stores = []

    def on_store(self, fr, b, i, root, path, v, st, line):
        if root.op == 'arg':
            self.stores.append((root, path, v, fr.fn, line))


def io_derived(v):
    return any(x.op == 'call' and x.a[0].rsplit('::', 1)[-1] in IO for x in walk(v))


def find(P, ty, trait, meth):
    return P.fns.get('<%s%s as %s>::%s' % (S, ty, trait, meth))


def consteval(P, fn):
    ev = Ev(P)
    v, st = ev.run(fn)
    return v.a[1] if v is not None and iskint(v) else None
