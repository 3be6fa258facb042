"""C17: object hierarchy: which groups are objects, units, items, devices, basic objects and models, and the base structure each of them yields."""
from ..layout import *
from ..dyn import *
from ..defs import camel
from ..report import where

RULE = ('For each tag group, is_object and every base-structure accessor are evaluated on a tag of exactly that group: the answer must be "yes" / the embedded structure reached by the field chain of the '
        'definitions if and only if the group or one of its parents is that base group, shared and mutable accessor alike.')
EXPLANATION = 'Parents and embedded structures come from the JSON definitions; a tag is modelled by its concrete structure type, so a wrong downcast shows as a missing base or a failed unwrap.'
B = 'ringhopper::tag::object::'
BASES = {'object': 'Object', 'unit': 'Unit', 'item': 'Item', 'device': 'Device'}


def ancestry(D, g):
    out = []
    while g:
        if g in out or g not in D.groups:
            break
        out.append(g)
        g = D.groups[g].get('supergroup')
    return out


def chain(D, s, target, depth=0):
    """field chain from structure s to an embedded structure of type target"""
    if s == target:
        return ()
    if depth > 5 or s not in D.structs:
        return None
    for f in D.fields(s):
        if f.kind == 'pad' or f.count != 1 or f.inner not in D.structs or f.type != f.inner:
            continue
        r = chain(D, f.inner, target, depth + 1)
        if r is not None:
            return (f.rust,) + r
    return None


def check(P, R):
    D = Defs()
    gs = {D.groups[g]['struct']: camel(g) for g in D.groups}
    f = P.fns.get(B + 'is_object')
    if f is None:
        R.viol('missing:is_object', 'no is_object found')
    else:
        R.fn(f)
        for g in sorted(D.groups):
            R.ob('groups asked whether they are objects')
            ev = Ev(P)
            v, st = ev.run(f, args=[adt(TG, camel(g), ())])
            want = 'object' in ancestry(D, g)
            R.check(v is K(want), 'is_object:' + g, 'is_object(%s) is %s, its parents are %s' % (g, show(v, 3) if v is not None else None, ancestry(D, g)[1:]), where(f))
    todo = [(n, BASES[n], lambda g, n=n: n in ancestry(D, g)) for n in BASES]
    for n, base, member in todo:
        for mut in ('', '_mut'):
            accessor(P, R, D, gs, B + 'downcast_base_%s%s' % (n, mut), base, member)
    basic = {g for g in D.groups if chain(D, D.groups[g]['struct'], 'BasicObject') is not None}
    for mut in ('', '_mut'):
        accessor(P, R, D, gs, B + 'downcast_basic_object' + mut, 'BasicObject', lambda g: g in basic)
        model(P, R, D, gs, 'ringhopper::tag::model::downcast_model' + mut)
    R.floor('groups asked whether they are objects', 80)
    R.floor('base structures looked up', 10 * 80)


def accessor(P, R, D, gs, path, base, member):
    f = P.fns.get(path)
    if f is None:
        R.viol('missing:' + path.rsplit('::', 1)[-1], 'no %s found' % path)
        return
    R.fn(f)
    nm = path.rsplit('::', 1)[-1]
    for g in sorted(D.groups):
        R.ob('base structures looked up')
        s = D.groups[g]['struct']
        ev = DynEv(P, gs)
        v, st = ev.run(f, args=[mk('ref', nm.endswith('_mut'), dynv(s), ())])
        if v is None:
            R.viol('panic:%s:%s' % (nm, g), '%s always panics for a tag of group %s' % (nm, g), where(f))
            continue
        want = chain(D, s, base) if member(g) else None
        for x, _ in alts(v):
            if x.op != 'adt':
                R.viol('shape:%s:%s' % (nm, g), '%s gives %s for a tag of group %s' % (nm, show(x, 4), g), where(f))
            elif x.a[1] == 'None':
                R.check(want is None, 'none:%s:%s' % (nm, g), '%s finds no %s in a tag of group %s' % (nm, base, g), where(f))
            else:
                r = x.a[2][0][1]
                good = want is not None and r.op == 'ref' and r.a[1] is dynv(s) and r.a[2] == want
                R.check(good, 'some:%s:%s' % (nm, g), '%s gives %s for a tag of group %s, the definitions have %s' % (nm, show(r, 4), g, '.'.join(want) if want is not None else 'no such base'), where(f))


def model(P, R, D, gs, path):
    f = P.fns.get(path)
    if f is None:
        R.viol('missing:' + path.rsplit('::', 1)[-1], 'no %s found' % path)
        return
    R.fn(f)
    nm = path.rsplit('::', 1)[-1]
    for g in sorted(D.groups):
        R.ob('base structures looked up')
        s = D.groups[g]['struct']
        ev = DynEv(P, gs)
        v, st = ev.run(f, args=[mk('ref', nm.endswith('_mut'), dynv(s), ())])
        want = g in ('model', 'gbxmodel')
        got = v is not None and all(x.op == 'adt' and x.a[1] == 'Some' and dyn_of(x) is dynv(s) for x, _ in alts(v))
        none = v is not None and all(x.op == 'adt' and x.a[1] == 'None' for x, _ in alts(v))
        R.check(got if want else none, 'model:%s:%s' % (nm, g), '%s of a tag of group %s gives %s' % (nm, g, show(v, 4) if v is not None else 'a panic'), where(f))
