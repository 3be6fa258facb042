"""C16: every operation that works on "any tag" treats a tag of each group as that group."""
import re
from ..layout import *
from ..dyn import *
from ..defs import camel
from ..report import where
from .c17 import ancestry, chain, B

RULE = ('For each tag group, every operation that takes any tag (nudge, bludgeon, verify, extract, recover, convert) is evaluated on a tag of exactly that group: no conversion of the tag to a structure fails, '
        'and the operation has handling of its own exactly for the groups it is specified for. The comparison and float repair of single values are evaluated for each kind of value.')
EXPLANATION = 'A dynamic tag or value is modelled by its concrete type; dispatch tables, function pointers, closures and constant tables are followed. A failing downcast that is unwrapped shows as a dead path.'
TP = 'ringhopper_primitives::primitive::path::TagPath'

NUDGE = {'ActorVariant', 'ContinuousDamageEffect', 'DamageEffect', 'PointPhysics', 'Projectile', 'Scenario', 'Light', 'Sound'}
BLUDGEON = {'Model', 'GBXModel', 'Sound', 'Scenario', 'UnicodeStringList', 'ScenarioStructureBSP'}
VERIFY = {'Weapon', 'Effect', 'HUDGlobals', 'WeaponHUDInterface', 'UnitHUDInterface', 'GrenadeHUDInterface', 'Globals', 'Model', 'GBXModel', 'UnicodeStringList', 'Bitmap', 'Sound', 'ParticleSystem', 'Particle',
          'Scenario', 'ScenarioStructureBSP'}
EXTRACT = {'ActorVariant', 'Bitmap', 'ContinuousDamageEffect', 'DamageEffect', 'GBXModel', 'Light', 'ModelAnimations', 'Model', 'PointPhysics', 'Projectile', 'Scenario', 'ScenarioStructureBSP', 'Sound',
           'UnicodeStringList', 'Weapon'}
RECOVER = {'Bitmap', 'Scenario', 'UnicodeStringList'}


class Ops(DynEv):
    """reads of any tag from a cache yield the tag under consideration"""
    tag = None

    def pre(self, fr, st, c, args, b, line):
        if self.tag is not None and c.method == 'read_any_tag_from_map':
            self.event(fr, b, st, 'call', c, args, line)
            return mk('adt', RES, 'Ok', (('0', mk('box', self.tag)),)), st
        return super().pre(fr, st, c, args, b, line)


def pathv(group):
    return mk('ref', False, mk('cst', adt(TP, 'TagPath', [('path', mk('arg', 'pathtext')), ('group', group)])), ())


def dead(ev):
    """unwraps of a value known to be nothing"""
    out = []
    for e in ev.events.values():
        if e.kind == 'unwrap' and e.args:
            ys = [y for y, _ in alts(e.args[0])]
            if ys and all(y.op == 'adt' and y.a[1] == 'None' for y in ys):
                out.append(e)
    return out


def run_op(P, R, gs, f, args, **o):
    """evaluate f for every element of the constant tables it searches; yields (ev, value, state)"""
    def make():
        ev = Ops(P, gs, **o.get('kw', {}))
        ev.mark, ev.subst, ev.tag = o.get('mark', True), o.get('subst'), o.get('tag')
        return ev, lambda ev: ev.run(f, args=list(args))
    return enumerate_runs(make)


def judge(P, R, op, g, s, evs, f, expect, objs):
    """one operation on one group: no failing conversion, own handling exactly when expected"""
    R.ob('operations on groups')
    got = set()
    for ev in evs:
        for e in dead(ev):
            R.viol('panic:%s:%s' % (op, g), '%s of a %s tag fails: the tag is taken for another structure' % (op, g), '%s:%s (%s)' % (e.file, e.line, e.fn))
        got |= {t for d, t, good, fn, line in ev.tried if good}
    want = g in expect
    R.check(bool(got) == want, 'handled:%s:%s' % (op, g), '%s %s handling of its own for %s tags' % (op, 'has' if got else 'has no', g), where(f))


def functions(P, R, D, gs):
    objs = {g for g in D.groups if 'object' in ancestry(D, g)}
    cam = {g: camel(g) for g in D.groups}
    objv = {cam[g] for g in objs}
    fs = {}
    for n in ('nudge_tag', 'bludgeon_tag', 'verify_tag', 'extract_tag_from_map', 'get_recover_function', 'get_tag_conversion_fn'):
        fs[n] = P.one(n)
        if fs[n] is None:
            R.viol('missing:' + n, '%s was not found' % n)
        else:
            R.fn(fs[n])
    for g in sorted(D.groups):
        s, v = D.groups[g]['struct'], cam[g]
        gv = adt(TG, v, ())
        d = dynv(s)
        for n, args, expect, o in (
                ('nudge_tag', [mk('ref', True, d, ())], NUDGE | objv, {}),
                ('bludgeon_tag', [mk('ref', True, d, ()), pathv(gv)], BLUDGEON, {}),
                ('verify_tag', [mk('arg', 'self'), pathv(gv), mk('arg', 'skip')], VERIFY | objv, {'subst': d}),
                ('extract_tag_from_map', [mk('arg', 'map'), pathv(gv), mk('arg', 'scenario')], EXTRACT | objv, {'tag': d})):
            f = fs[n]
            if f is None:
                continue
            evs = []
            for ev, val, st in run_op(P, R, gs, f, args, **o):
                evs.append(ev)
            judge(P, R, n, v, s, evs, f, expect, objv)
        # recovery
        f = fs['get_recover_function']
        if f is not None:
            evs, some_ = [], False
            for ev, val, st in run_op(P, R, gs, f, [gv]):
                for y, _ in alts(val):
                    if y.op == 'adt' and y.a[1] == 'Some':
                        h = handler(P, y.a[2][0][1])
                        some_ = True
                        if h is None:
                            R.viol('unknown:recover:' + v, 'the recovery function of %s cannot be determined' % v, where(f))
                            continue
                        R.fn(h)
                        bx = mk('ref', False, mk('cst', mk('box', d)), ())
                        for ev2, _, _ in run_op(P, R, gs, h, [pathv(gv), bx]):
                            evs.append(ev2)
            judge(P, R, 'recover', v, s, evs, f, RECOVER, objv)
            R.check(some_ == (v in RECOVER), 'offered:recover:' + v, 'recovery %s offered for %s' % ('is' if some_ else 'is not', v), where(f))
    conversions(P, R, D, gs, fs['get_tag_conversion_fn'], cam, objs)


def handler(P, v):
    if v.op == 'fn' and v.a[2]:
        return P.fns.get(v.a[2])
    if v.op == 'closure':
        return P.fns.get(v.a[0])
    return None


def conversions(P, R, D, gs, f, cam, objs):
    if f is None:
        return
    CONV = {}
    for g in D.groups:
        anc = ancestry(D, g)
        if 'object' in anc:
            CONV[g, 'scenery'] = 'Object'
        if 'item' in anc:
            for t in ('garbage', 'weapon', 'equipment'):
                CONV[g, t] = 'Item'
    CONV['model', 'gbxmodel'] = CONV['gbxmodel', 'model'] = None
    targets = sorted({t for _, t in CONV} | {'object', 'bitmap'})
    for a in sorted(D.groups):
        for b in targets:
            R.ob('conversions')
            want = (a, b) in CONV and a != b
            va, vb = cam[a], cam[b]
            sa, sb = D.groups[a]['struct'], D.groups[b]['struct']
            hs = {}
            for ev, val, st in run_op(P, R, gs, f, [adt(TG, va, ()), adt(TG, vb, ())]):
                for y, _ in alts(val):
                    if y.op == 'adt' and y.a[1] == 'Some':
                        hs[y.a[2][0][1]] = 1
                    elif not (y.op == 'adt' and y.a[1] == 'None'):
                        hs[y] = 1
            k = '%s:%s' % (va, vb)
            R.check(bool(hs) == want, 'convertible:' + k, 'a %s tag %s be converted to %s' % (va, 'can' if hs else 'cannot', vb), where(f))
            for hv in hs:
                h = handler(P, hv)
                if h is None:
                    R.viol('unknown:convert:' + k, 'the function converting %s to %s cannot be determined' % (va, vb), where(f))
                    continue
                R.fn(h)
                arg = mk('ref', False, dynv(sa), ())
                args = [arg] if hv.op == 'fn' else [hv, arg]
                for ev, val, st in run_op(P, R, gs, h, args, mark=False, kw={'opaque': lambda c: c.trait and c.trait.endswith('ModelFunctions') or c.method in ('clone', 'default', 'to_owned')}):
                    for e in dead(ev):
                        R.viol('panic:convert:' + k, 'converting %s to %s fails: the tag is taken for another structure' % (va, vb), '%s:%s (%s)' % (e.file, e.line, e.fn))
                    n = 0
                    for y, _ in (alts(val) if val is not None else ()):
                        if y.op == 'adt' and y.a[1] == 'Ok':
                            n += 1
                            inner = y.a[2][0][1]
                            result(P, R, D, ev, st, k, inner, sa, sb, CONV.get((a, b)), h)
                    R.check(n > 0, 'never:convert:' + k, 'converting %s to %s never succeeds' % (va, vb), where(h))


def result(P, R, D, ev, st, k, inner, sa, sb, base, h):
    x = inner
    n = 0
    while x.op in ('box', 'boxed', 'cast') or x.op == 'ref':
        x = x.a[0] if x.op != 'ref' else ev.content(st, x)
        n += 1
        if n > 8:
            break
    if base is None:
        t = [c.callee.method for c in ev.events.values() if c.kind == 'call' and (c.callee.trait or '').endswith('ModelFunctions') and x in set(walk(c.val or x))]
        good = x.op == 'call' and x.a[0].endswith('::convert_to_' + sb.lower()) or (x.op == 'adt' and short(x.a[0]) == sb)
        R.check(good, 'result:convert:' + k, 'converting %s does not give a %s: %s' % (k, sb, show(x, 4)), where(h))
        return
    R.check(x.op == 'adt' and short(x.a[0]) == sb, 'result:convert:' + k, 'converting %s does not give a %s: %s' % (k, sb, show(x, 3)), where(h))
    pa, pb = chain(D, sa, base), chain(D, sb, base)
    y = x
    for p in pb or ():
        y = ev.project(y, p)
    src = mk('at', dynv(sa))
    want = dynv(sa)
    ok_ = any(z.op in ('dynobj', 'at', 'fld') and z is not dynv(sa) and str(z.a[-1]) == (pa[-1] if pa else '') and dynv(sa) in set(walk(z)) for z in walk(y))
    R.check(ok_ or (not pa and dynv(sa) in set(walk(y))), 'base:convert:' + k, 'converting %s does not carry over the %s part: %s' % (k, base, show(y, 6)), where(h))


def check(P, R):
    from ..defs import Defs
    D = Defs()
    gs = {D.groups[g]['struct']: camel(g) for g in D.groups}
    functions(P, R, D, gs)
    R.floor('operations on groups', 400)
    R.floor('conversions', 400)
