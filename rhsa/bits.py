"""Bit provenance: which source bit each bit of an integer term is copied from.

A bit is 0, 1, (atom, index) or None (unknown). This is a plain forward dataflow domain over the term structure.
"""
from .val import *

W = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'bool': 1, 'int': 1}


def bits(v, w=64, atomw=None):
    """List of w bits, least significant first. atomw(v) -> number of significant bits of a leaf term (default: w)."""
    o = v.op
    if o == 'k' and v.a[0] == 'bool':
        return [int(v.a[1])] + [0] * (w - 1)
    if iskint(v):
        x = v.a[1] & ((1 << w) - 1)
        return [(x >> i) & 1 for i in range(w)]
    if o == 'bin':
        k, a, b = v.a[0], v.a[1], v.a[2]
        if k in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = bits(a, w, atomw), bits(b, w, atomw)
            return [comb(k, p, q) for p, q in zip(x, y)]
        if k in ('Shl', 'Shr') and iskint(b) and 0 <= b.a[1] < w:
            x = bits(a, w, atomw)
            n = b.a[1]
            return ([0] * n + x[:w - n]) if k == 'Shl' else (x[n:] + [0] * n)
        if k == 'Rem' and iskint(b) and b.a[1] > 0 and b.a[1] & (b.a[1] - 1) == 0:
            n = b.a[1].bit_length() - 1
            return bits(a, w, atomw)[:n] + [0] * (w - n)
        if k == 'Div' and iskint(b) and b.a[1] > 0 and b.a[1] & (b.a[1] - 1) == 0:
            n = b.a[1].bit_length() - 1
            x = bits(a, w, atomw)
            return x[n:] + [0] * n
    if o == 'lin':
        c, parts = lin_parts(v)
        acc = bits(K(c), w, atomw)
        items = parts.items() if hasattr(parts, 'items') else parts
        for t, k in items:
            if k <= 0 or k & (k - 1):
                return [None] * w
            n = k.bit_length() - 1
            x = ([0] * n + bits(t, w, atomw))[:w]
            out = []
            for p, q in zip(acc, x):
                if p == 0:
                    out.append(q)
                elif q == 0:
                    out.append(p)
                else:
                    return [None] * w   # overlapping addends carry
            acc = out
        return acc
    if o == 'cast':
        t = v.a[1]
        inner = v.a[0]
        if t == 'int':   # from bool
            return boolbit(inner) + [0] * (w - 1)
        if isinstance(t, str) and '>' in t:
            frm, to = t.split('>')
            if frm in W and to in W:
                fw, tw = W[frm], W[to]
                x = bits(inner, fw, atomw)
                s = frm.startswith('i')
                if tw <= fw:
                    x = x[:tw]
                else:
                    x = x + ([x[-1]] if s else [0]) * (tw - fw)
                x = x[:w]
                return x + ([x[-1]] if to.startswith('i') else [0]) * (w - len(x))
    if o == 'phi':
        al = [bits(x, w, atomw) for x, _, _ in PHI[v]]
        out = [q[0] if all(y == q[0] for y in q) else None for q in zip(*al)]
        if None not in out:
            return out
    n = atomw(v) if atomw else w
    return [(v, i) if i < n else 0 for i in range(w)]


def boolbit(c):
    r = cond_bit(c)
    if r is not None and r[1] is True:
        return [r[0]]
    return [(c, 0)] if c.op != 'k' else [int(c.a[1])]


def comb(k, p, q):
    if k == 'BitAnd':
        if p == 0 or q == 0:
            return 0
        if p == 1:
            return q
        if q == 1:
            return p
        return p if p == q else None
    if k == 'BitOr':
        if p == 1 or q == 1:
            return 1
        if p == 0:
            return q
        if q == 0:
            return p
        return p if p == q else None
    if p == 0:
        return q
    if q == 0:
        return p
    return 0 if p == q and p is not None else None


def cond_bit(c, w=64, atomw=None):
    """For a boolean term meaning 'source bit is set': ((atom, index)|0|1, True); negated: (.., False); else None."""
    neg = False
    while c.op == 'not':
        c = c.a[0]
        neg = not neg
    if c.op == 'k':
        return (int(c.a[1]), not neg) if True else None
    if c.op == 'eq0':
        x = c.a[0]
        x0 = x
        bs = bits(x, w, atomw)
        if None not in bs:
            nz = [b for b in bs if b != 0]
            if len(nz) == 1:
                return nz[0], neg          # eq0 => bit clear; not eq0 => bit set
            if not nz:
                return 0, neg
            # x - mask == 0 with a single significant bit
        if x.op == 'lin':
            cst, parts = lin_parts(x)
            items = list(parts.items() if hasattr(parts, 'items') else parts)
            if len(items) == 1 and abs(items[0][1]) == 1:
                t, k = items[0]
                m = -cst * k
                bs = bits(t, w, atomw)
                nz = [(i, b) for i, b in enumerate(bs) if b != 0]
                if len(nz) == 1 and m == 1 << nz[0][0] and nz[0][1] is not None:
                    return nz[0][1], not neg
        return None
    return None
