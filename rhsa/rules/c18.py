"""C18: defaulting gives exactly the unset fields their defined defaults, and undefaulting undoes exactly that."""
import struct
from ..layout import *
from ..report import where
from ..defs import camel
from .. import dt
from .c12 import TG

RULE = ('Generated code: each field with a defined default is stored that default under the guard that it equals the empty value (and the reverse when undoing), every contained structure with defaults is visited, '
        'nothing else is stored. Special rules: the effect of each special function under every valuation of its comparisons equals the specified decision table. The table of functions per group pairs them correctly.')
EXPLANATION = 'Abstract interpretation with trace partitioning over the comparison atoms of each function; defaults come from an independent reader of the JSON definitions, the special rules from a table written down here.'
PARSE_ = 'ringhopper_primitives::parse::'
DEF = 'ringhopper::tag::default::'
TDD = PARSE_ + 'TagDataDefaults'
OPQ = {'set_defaults', 'unset_defaults', 'default', 'fix_decimal_rounding'}


def f64(x):
    return str(struct.unpack('<Q', struct.pack('<d', x))[0])


def num(v, ty):
    """numeric value of a constant term of type ty"""
    if v.op == 'k':
        n = v.a[1]
        if ty == 'f64':
            return struct.unpack('<d', struct.pack('<Q', n & (2 ** 64 - 1)))[0]
        if ty == 'f32':
            return struct.unpack('<f', struct.pack('<I', n & (2 ** 32 - 1)))[0]
        return n
    if v.op == 'cast':
        frm = v.a[1].split('>')[0]
        return num(v.a[0], frm)
    if v.op == 'call' and v.a[0].endswith('::default'):
        return 0
    if v.op == 'call' and v.a[0].endswith('::to_radians'):
        x = num(v.a[2][0], 'f32')
        return ('deg', x) if x != 0 else 0
    if v.op == 'adt' and v.a[2]:
        if len(v.a[2]) == 1:
            return num(v.a[2][0][1], 'f32')
        r = [num(x, ty) for _, x in v.a[2]]
        return 0 if all(x == 0 for x in r) else r
    if v.op == 'ref':
        return ('?', show(v, 3))
    return ('?', show(v, 4))


def flat(x):
    if isinstance(x, list):
        return [z for y in x for z in flat(y)]
    return [x]


# ---------------------------------------------------------------- special rules
def all3(*xs):
    if any(x is False for x in xs):
        return False
    return None if any(x is None for x in xs) else True


def any3(*xs):
    r = all3(*[None if x is None else not x for x in xs])
    return None if r is None else not r


Z, ONE = '0', f64(1.0)


def pair(a, b, frm, to):
    def s(q):
        c = all3(q(a, frm), q(b, frm))
        return None if c is None else ({a: to, b: to} if c else {})
    return s


def many(fs, frm, to):
    def s(q):
        c = all3(*[q(f, frm) for f in fs])
        return None if c is None else ({f: to for f in fs} if c else {})
    return s


def each(*ss):
    def s(q):
        out = {}
        for x in ss:
            r = x(q)
            if r is None:
                return None
            out.update(r)
        return out
    return s


def scale_set(p):
    u, v = p + '.map_u_scale', p + '.map_v_scale'

    def s(q):
        a, b = q(u, Z), q(v, Z)
        if all3(a, b):
            return {u: ONE, v: ONE}
        if a and b is False:
            return {u: v}
        if a is False and b:
            return {v: u}
        if a is False and b is False:
            return {}
        return None
    return s


def scale_unset(p):
    u, v = p + '.map_u_scale', p + '.map_v_scale'

    def s(q):
        c = all3(any3(q(u, ONE), q(u, Z)), any3(q(v, ONE), q(v, Z)))
        return None if c is None else ({u: Z, v: Z} if c else {})
    return s


def particle_set(q):
    a, b = 'fade_start_size', 'fade_end_size'
    c = any3(q(a, Z), q(b, Z))
    return None if c is None else ({a: f64(5.0), b: f64(4.0)} if c else {})


def particle_unset(q):
    a, b = 'fade_start_size', 'fade_end_size'
    c = all3(any3(q(a, f64(5.0)), q(a, Z)), any3(q(b, f64(4.0)), q(b, Z)))
    return None if c is None else ({a: Z, b: Z} if c else {})


def lens(frms, to):
    def s(q):
        c = any3(*[q(*x) for x in frms])
        return None if c is None else ({'rotation_function_scale': to} if c else {})
    return s


def obj_set(q):
    c = q('render_bounding_radius', Z)
    return None if c is None else ({'render_bounding_radius': 'bounding_radius'} if c else {})


def obj_unset(q):
    c = q('bounding_radius', 'render_bounding_radius')
    return None if c is None else ({'render_bounding_radius': Z} if c else {})


def one(f, frm, to):
    return many([f], frm, to)


RGB = ['color.color.%s.%s' % (a, b) for a in ('lower', 'upper') for b in ('red', 'green', 'blue')]
GEO = 'geometries.items[].parts.items[].'
FILTHY = [GEO + 'next_filthy_part_index', GEO + 'prev_filthy_part_index']
GFILTHY = [GEO + 'model_geometry_part.next_filthy_part_index', GEO + 'model_geometry_part.prev_filthy_part_index']
ROT = 'rotation_function_scale'
DEG360 = 'Angle{angle: to_radians(%d)}' % struct.unpack('<I', struct.pack('<f', 360.0))[0]
RAD360 = 'Angle{angle: %d}' % struct.unpack('<I', struct.pack('<f', 360.0))[0]
ROUNDED = 'fix_decimal_rounding(cast(to_degrees(….rotation_function_scale.angle), f32>f64))'
CH, CX2, CX4 = 'maps.items[].parameters', '_2_stage_maps.items[].parameters', '_4_stage_maps.items[].parameters'
SPECIAL = {
    'Light': ('Light', many(RGB, Z, ONE), many(RGB, ONE, Z)),
    'Particle': ('Particle', each(one('radius_animation.lower', Z, ONE), one('radius_animation.upper', Z, ONE), particle_set),
                 each(one('radius_animation.lower', ONE, Z), one('radius_animation.upper', ONE, Z), particle_unset)),
    'LightVolume': ('LightVolume', pair('parallel_brightness_scale', 'perpendicular_brightness_scale', Z, ONE), pair('parallel_brightness_scale', 'perpendicular_brightness_scale', ONE, Z)),
    'SoundLooping': ('SoundLooping', pair('zero_detail_sound_period', 'one_detail_sound_period', Z, ONE), pair('zero_detail_sound_period', 'one_detail_sound_period', ONE, Z)),
    'Model': ('Model', many(FILTHY, Z, '255'), many(FILTHY, '255', Z)),
    'GBXModel': ('GBXModel', many(GFILTHY, Z, '255'), many(GFILTHY, '255', Z)),
    'ShaderModel': ('ShaderModel', scale_set('maps'), scale_unset('maps')),
    'ShaderTransparentChicago': ('ShaderTransparentChicago', scale_set(CH), scale_unset(CH)),
    'ShaderTransparentGeneric': ('ShaderTransparentGeneric', scale_set(CH), scale_unset(CH)),
    'ShaderTransparentChicagoExtended': ('ShaderTransparentChicagoExtended', each(scale_set(CX2), scale_set(CX4)), each(scale_unset(CX2), scale_unset(CX4))),
    'LensFlare': ('LensFlare', lens([(ROT, Z), (ROT, RAD360)], DEG360), lens([(ROUNDED, f64(360.0)), (ROT, RAD360)], Z)),
}
OBJECT = ('Object', obj_set, obj_unset)


def zero(s):
    return '0' if re.fullmatch(r'default\(.*\)|Angle\{angle: (default\(.*\)|0)\}', s) else s


def special(P, R, g, slot, fnterm, spec, ty):
    """compare the decision table of a special function with its specification"""
    p = fnterm.a[2] or fnterm.a[0]
    f = P.fns.get(p)
    key = '%s:%s' % (slot, g)
    if f is None:
        R.viol(key, '%s of %s is no function of the program: %s' % (slot, g, show(fnterm, 3)))
        return
    R.fn(f)
    rows = dt.table(P, f, args=[mk('arg', 'tag')])
    for F, ev, ret, st in rows:
        R.ob('rows of decision tables')
        facts = {}
        for a, t in F:
            l, r = map(zero, dt.canon(a))
            if l == '0':
                l, r = r, l
            facts[(l, r)] = t

        def q(l, r):
            t = facts.get((l, r))
            if t is None:
                t = facts.get((r, l))
            if t is None and any(x == l and tt and y != r for (x, y), tt in facts.items()) and re.fullmatch(r'\d+', r):
                t = False
            return t
        want = spec(q)
        eff = {k: zero(dt.render(v)) for k, v in dt.effects(ev, st).items()}
        known = {l: r for (l, r), t in facts.items() if t and re.fullmatch(r'\d+', r)}
        rowtxt = ', '.join('%s%s = %s' % ('' if t else 'not ', l, r) for (l, r), t in facts.items()) or 'always'
        if want is None:
            R.viol(key, '%s of %s decides without testing what it must: when %s it stores %s' % (slot, g, rowtxt, eff), where(f))
            continue
        norm = lambda e: {k: known.get(v, v) for k, v in e.items() if known.get(k, k) != known.get(v, v)}
        R.check(norm(eff) == norm(want), key, '%s of %s, when %s, stores %s instead of %s' % (slot, g, rowtxt, eff, want), where(f))
        R.check(not ev.types or ev.types == {ty}, key + ':type', '%s of %s treats the tag as %s' % (slot, g, sorted(ev.types)), where(f))
        bad = [e for e in ev.events.values() if e.kind in ('assert', 'panic')]
        R.check(not bad, key + ':panic', '%s of %s can panic' % (slot, g), where(f))
    R.sample('%s of %s: %d rows' % (slot, g, len(rows)))


def check(P, R):
    D = Defs()
    # structures with defaults, transitively
    has = {}

    def hasd(s, stack=()):
        if s in has:
            return has[s]
        if s in stack or s not in D.structs:
            return False
        r = any(f.default is not None or (f.inner in D.structs and hasd(f.inner, stack + (s,))) or (f.type in D.structs and hasd(f.type, stack + (s,))) for f in D.fields(s) if f.kind != 'pad')
        has[s] = r
        return r
    generated(P, R, D, hasd)
    g = P.fns.get(S + 'group_has_default_in_definitions') or P.one('group_has_default_in_definitions')
    variants = [x[0] for x in P.adts[TG]['variants']]
    prim = {g: o['struct'] for g, o in D.groups.items()}
    expect = {v: False for v in variants}
    for gname, sname in prim.items():
        expect[camel(gname)] = hasd(sname)
    for v in variants:
        R.ob('groups with defaults')
        r, st = Ev(P).run(g, args=[adt(TG, v, [])])
        R.check(r is K(expect.get(v)), 'has:' + v, 'group %s is said to have defaults: %s, the definitions say %s' % (v, r and show(r), expect.get(v)), where(g))
    table(P, R, D, variants, expect)
    containers(P, R)
    driver(P, R)
    sounds(P, R)
    R.floor('fields with defaults', 85)
    R.floor('rows of decision tables', 60)


def generated(P, R, D, hasd):
    for s in sorted(D.structs):
        fs = {k: P.fns.get('<%s%s as %s>::%s' % (S, s, TDD, k)) for k in ('set_defaults', 'unset_defaults')}
        if not hasd(s):
            for k, f in fs.items():
                if f is not None:
                    ev = dt.AtomEv(P, opaque=lambda c: c.method in OPQ)
                    ev.run(f)
                    R.check(not ev.stores and not any(e.kind == 'call' for e in ev.events.values()), '%s:%s' % (k, s), '%s changes %s, which has no defaults' % (k, s), where(f))
            continue
        if None in fs.values():
            R.viol('missing:' + s, '%s has defaults but cannot be defaulted' % s)
            continue
        own = {f.rust: f for f in D.fields(s) if f.kind != 'pad' and f.default is not None}
        sub_ = {f.rust for f in D.fields(s) if f.kind != 'pad' and f.default is None and (hasd(f.type) if f.type in D.structs else f.inner in D.structs and hasd(f.inner))}
        for k, f in fs.items():
            R.fn(f)
            setting = k == 'set_defaults'
            guards = {}
            defaults = {}

            class E2(dt.AtomEv):
                def on_store(self, fr, b, i, root, path, v, st, line):
                    super().on_store(fr, b, i, root, path, v, st, line)
                    if root.op != 'loc':
                        self.at = getattr(self, 'at', [])
                        self.at.append((dt.render(mk('ref', True, root, path)), v, dict(st.facts)))
            ev = E2(P, opaque=lambda c: c.method in OPQ)
            ret, st = ev.run(f)
            calls = [e for e in ev.events.values() if e.kind == 'call' and e.callee.method in ('set_defaults', 'unset_defaults')]
            R.check(all(e.callee.method == k for e in calls), '%s:%s:sub' % (k, s), '%s of %s calls the opposite on a part of it' % (k, s), where(f))
            visited = {dt.render(e.args[0]).split('.items')[0] for e in calls}
            R.ob('contained structures', len(sub_))
            R.check(visited == sub_, '%s:%s:visits' % (k, s), '%s of %s visits %s, the parts with defaults are %s' % (k, s, sorted(visited), sorted(sub_)), where(f))
            stored = {}
            for path, v, facts in getattr(ev, 'at', []):
                stored.setdefault(path.split('.')[0] if path.split('.')[0] in own else path, []).append((path, v, facts))
            R.check(set(stored) == set(own), '%s:%s:stores' % (k, s), '%s of %s stores %s, fields with defaults are %s' % (k, s, sorted(stored), sorted(own)), where(f))
            for name, fd in own.items():
                R.ob('fields with defaults')
                if name not in stored:
                    continue
                ty = {'float': 'f64', 'Float': 'f64', 'f32': 'f32'}.get(fd.type, 'f64' if fd.type in ('f64',) else fd.type)
                want = [float(x) for x in fd.default]
                got = []
                for path, v, facts in stored[name]:
                    n = flat(num(v, 'f64' if 'f64' in fd.type or fd.type.startswith('Bounds') or 'Color' in fd.type or 'Vector' in fd.type else fd.type))
                    got += n
                    if fd.type == 'Angle' or fd.type.startswith('Angle'):
                        pass
                angle = fd.type == 'Angle'
                w = [('deg', x) if angle and x != 0 else x for x in want]
                if not setting:
                    ok_ = all(x == 0 for x in got)
                else:
                    ok_ = [near(a, b) for a, b in zip(got, w)] == [True] * len(w) and len(got) == len(w)
                R.check(ok_, '%s:%s:%s' % (k, s, name), '%s of %s stores %s into %s, defined default %s' % (k, s, got, name, fd.default), where(f))
                # the guard
                for path, v, facts in stored[name]:
                    good = False
                    for c, t in facts.items():
                        if not t or c.op not in ('eq', 'feq', 'eq0'):
                            continue
                        if c.op == 'eq0':
                            cc, d = lin_parts(c.a[0])
                            d = {x: n for x, n in d.items() if not (x.op == 'call' and x.a[0].endswith('::default'))}
                            if len(d) == 1 and dt.render(next(iter(d))) == name and (cc == 0 if setting else -cc // next(iter(d.values())) == want[0]):
                                good = True
                            continue
                        for l, r in (c.a, c.a[::-1]):
                            if dt.render(l) == name or (l.op == 'adt' and all(dt.render(x).startswith(name + '.') for _, x in l.a[2])):
                                n = flat(num(r, 'f64' if not angle else 'f32'))
                                if setting:
                                    good = good or all(x == 0 for x in n)
                                else:
                                    good = good or (len(n) == len(w) and all(near(a, b) for a, b in zip(n, w)))
                    R.check(good, '%s:%s:%s:guard' % (k, s, name), '%s of %s changes %s although it is not %s' % (k, s, name, 'empty' if setting else 'at its default'), where(f))
            # every guarded store happens when its guard holds: nothing but the guards is tested
            extra = [a for a in ev.atoms if not any(n == dt.canon(a)[0].split('.')[0] or n in dt.canon(a)[1] or n in dt.canon(a)[0] for n in own)]
            R.check(not extra, '%s:%s:cond' % (k, s), '%s of %s also depends on %s' % (k, s, [dt.canon(a) for a in extra][:2]), where(f))


def near(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and near(a[1], b[1])
    return abs(a - b) <= 1e-6 * max(1.0, abs(b))


def table(P, R, D, variants, expect):
    f = P.one('get_default_fns')
    if f is None:
        R.viol('table', 'the table of defaulting functions was not found')
        return
    R.fn(f)
    isobj = P.fns.get('ringhopper::tag::object::is_object')
    objs = objects(D)
    done = {}
    for v in variants:
        R.ob('groups in the table')
        ev = Ev(P)
        r, st = ev.run(f, args=[adt(TG, v, [])])
        ents = []
        n = re.search(r'; (\d+)\]$', f.lty(0))
        ok_ = bool(n)
        for i in range(int(n.group(1)) if ok_ else 0):
            x = proj(ev, st, r, i)
            if x.op == 'adt' and x.a[1] == 'Some':
                ents.append(x.a[2][0][1])
            elif x.op != 'adt':
                ok_ = False
        if not ok_:
            R.viol('table:' + v, 'the defaulting functions of %s cannot be determined' % v, where(f))
            continue
        want = []
        if expect[v]:
            want.append('generated')
        if v in SPECIAL:
            want.append(SPECIAL[v])
        elif v == 'Sound':
            want.append('sound')
        if v in objs:
            want.append(OBJECT)
        if len(ents) != len(want):
            R.viol('table:' + v, 'tags of group %s get %d defaulting functions instead of %d' % (v, len(ents), len(want)), where(f))
            continue
        for e, w in zip(ents, want):
            a, b = ev.project(e, 'default'), ev.project(e, 'undefault')
            R.ob('pairs of functions')
            if a.op != 'fn' or b.op != 'fn':
                R.viol('table:' + v, 'the defaulting functions of %s cannot be determined' % v, where(f))
                continue
            if w == 'generated':
                R.check(a.a[0] == TDD + '::set_defaults' and b.a[0] == TDD + '::unset_defaults', 'table:%s:generated' % v, 'group %s pairs %s with %s' % (v, a.a[0], b.a[0]), where(f))
            elif w == 'sound':
                R.check(a.a[0].endswith('::set_defaults_for_sound') and b.a[0].endswith('::unset_defaults_for_sound'), 'table:Sound', 'sounds are defaulted by %s and %s' % (a.a[0], b.a[0]), where(f))
            else:
                for slot, t, sp in (('defaulting', a, w[1]), ('undefaulting', b, w[2])):
                    k = (t.a[0], slot, w[0])
                    if k not in done:
                        done[k] = True
                        special(P, R, v if w is not OBJECT else 'objects', slot, t, sp, w[0])


def proj(ev, st, r, i):
    root = mk('loc', 'tbl', 0)
    ev.store(st, root, (), r)
    return ev.load(st, root, (mk('ix', K(i)),))


def objects(D):
    out = set()
    for g in D.groups:
        s = D.groups[g]['struct']
        seen = set()
        while s in D.structs and s not in seen:
            seen.add(s)
            if s == 'Object':
                out.add(camel(g))
                break
            fs = [f for f in D.fields(s) if f.kind != 'pad' and f.off == 0]
            s = fs[0].type if fs and fs[0].type in D.structs else None
    return out


def containers(P, R):
    for p, f in sorted(P.fns.items()):
        if f.trait != TDD or f.selfty is None or f.n not in ('set_defaults', 'unset_defaults') or p.startswith('<' + S):
            continue
        R.fn(f)
        R.ob('containers')
        ev = Ev(P, opaque=lambda c: False)
        ev.run(f)
        calls = [(e.callee.method, dt.render(e.args[0])) for e in ev.events.values() if e.kind == 'call']
        st_ = short(f.selfty)
        want = {'Reflexive<T>': ['items[]'], 'Bounds<T>': ['lower', 'upper']}.get(st_)
        if want is None:
            continue
        its = {x.a[0] for e in ev.events.values() for a in e.args for x in walk(a) if x.op == 'it'}
        R.check(sorted(calls) == sorted((f.n, w) for w in want) and its <= {'refs'}, 'container:%s:%s' % (st_, f.n), '%s of %s visits %s' % (f.n, st_, calls), where(f))
    R.floor('containers', 2)


def driver(P, R):
    for n, fld in (('set_all_defaults_for_tag', 'default'), ('unset_all_defaults_for_tag', 'undefault')):
        f = P.one(n)
        if f is None:
            R.viol('driver:' + n, '%s was not found' % n)
            continue
        R.fn(f)
        R.ob('drivers')
        ev = Ev(P, opaque=lambda c: c.method == 'get_default_fns')
        ev.run(f)
        tag = mk('arg', f.lname(1) or 'a0')
        gets = [e for e in ev.events.values() if e.kind == 'call' and e.callee.method == 'get_default_fns']
        ind = [e for e in ev.events.values() if e.kind == 'call' and e.callee.method == '<indirect>']
        good = len(gets) == 1 and len(ind) == 1
        if good:
            ga = gets[0].args[0]
            good = ga.op == 'call' and ga.a[0].endswith('::group') and tag in ga.a[2]
            fv, targ = ind[0].args
            its = [x for x in walk(fv) if x.op == 'it']
            good = good and fv.op == 'fld' and fv.a[1] == fld and any(x is gets[0].val for x in walk(fv)) and len(its) == 1 and its[0].a[0] in ('vals', 'refs') and any(x is tag for x in walk(targ))
        R.check(good, 'driver:' + n, '%s does not apply the %s function of every entry for the group of the tag' % (n, fld), where(f))


# distances (lower, upper) and zero gain by sound class, from the format's documentation
SOUND = {}
for names, lo, hi in ((('DeviceMachinery', 'DeviceForceField', 'AmbientMachinery', 'AmbientNature', 'DeviceDoor', 'Music', 'DeviceNature'), 0.9, 5.0),
                      (('WeaponEmpty', 'WeaponIdle', 'WeaponReady', 'WeaponReload', 'WeaponCharge', 'WeaponOverheat'), 1.0, 9.0),
                      (('ScriptedDialogOther', 'ScriptedDialogPlayer', 'GameEvent', 'UnitDialog', 'ScriptedDialogForceUnspatialized'), 3.0, 20.0),
                      (('FirstPersonDamage', 'ObjectImpacts', 'AmbientComputers', 'ParticleImpacts', 'DeviceComputers', 'SlowParticleImpacts'), 0.5, 3.0),
                      (('VehicleEngine', 'ProjectileImpact', 'VehicleCollision'), 1.4, 8.0), (('WeaponFire',), 4.0, 70.0), (('ScriptedEffect',), 2.0, 5.0),
                      (('ProjectileDetonation',), 8.0, 120.0), (('UnitFootsteps',), 0.9, 10.0)):
    for n in names:
        SOUND[n] = (lo, hi)
ZEROGAIN = {'ObjectImpacts', 'ParticleImpacts', 'SlowParticleImpacts', 'UnitDialog', 'Music', 'AmbientNature', 'AmbientMachinery', 'AmbientComputers', 'ScriptedDialogPlayer', 'ScriptedDialogOther',
            'ScriptedDialogForceUnspatialized', 'ScriptedEffect'}


def sounds(P, R):
    SC = S + 'SoundClass'
    f1, f2 = P.one('default_min_max_distance_sounds'), P.one('default_zero_gain_modifier_for_class')
    if f1 is None or f2 is None:
        R.viol('sound', 'the default distances of sounds were not found')
        return
    for v in [x[0] for x in P.adts[SC]['variants']]:
        R.ob('sound classes')
        ev = Ev(P)
        r, st = ev.run(f1, args=[adt(SC, v, [])])
        got = (num(ev.project(r, 'lower'), 'f64'), num(ev.project(r, 'upper'), 'f64'))
        want = SOUND.get(v)
        R.check(got == want, 'sounddist:' + v, 'sounds of class %s default to the distances %s, expected %s' % (v, got, want), where(f1))
        r, st = Ev(P).run(f2, args=[adt(SC, v, [])])
        R.check(num(r, 'f64') == (0.0 if v in ZEROGAIN else 1.0), 'soundgain:' + v, 'sounds of class %s default to the zero gain %s' % (v, num(r, 'f64')), where(f2))
    dt.OPAQUE |= {'default_min_max_distance_sounds', 'default_zero_gain_modifier_for_class'}
    want = {'distance_bounds.lower': 'lower', 'distance_bounds.upper': 'upper', 'random_pitch_bounds.lower': 1.0, 'random_pitch_bounds.upper': 1.0, 'zero_skip_fraction_modifier': 1.0,
            'one_skip_fraction_modifier': 1.0, 'zero_pitch_modifier': 1.0, 'one_pitch_modifier': 1.0, 'zero_gain_modifier': 'gain', 'one_gain_modifier': 1.0}
    for n, undo in (('set_defaults_for_sound', False), ('unset_defaults_for_sound', True)):
        g = P.one(n)
        if g is None:
            R.viol('sound:' + n, '%s was not found' % n)
            continue
        R.fn(g)
        got, ev = sound_stores(P, g, ())
        top = {k: v for k, v in got.items() if not k.startswith('pitch_ranges')}
        for k in sorted(set(top) | set(want)):
            R.ob('sound defaults')
            w = {0.0} if undo else {want.get(k)}
            R.check(top.get(k) == w, 'sound:%s:%s' % (n, k), '%s of sounds stores %s into %s, expected %s' % (n, sorted(map(str, top.get(k) or [])) or 'nothing', k, sorted(map(str, w))), where(g))
        # what is compared before: the same fields, with zero or with the given defaults
        R.ob('sound guards')
        tested = {}
        for a in ev.atoms:
            if a.op == 'feq':
                for l, r in (a.a, a.a[::-1]):
                    ls = [x for x in walk(l) if x.op == 'idx' and x.a[0].op == 'arr' and all(y.op == 'ref' for y in x.a[0].a[0])]
                    rs = [x for x in walk(r) if x.op == 'idx' and x.a[0].op == 'arr']
                    if len(ls) != 1:
                        continue
                    for i, y in enumerate(ls[0].a[0].a[0]):
                        rv = snum(rs[0].a[0].a[0][i]) if rs and len(rs[0].a[0].a[0]) > i else snum(r)
                        tested.setdefault(dt.render(y), set()).add(rv)
        for k, w in want.items():
            w = w if undo else 0.0
            R.check(tested.get(k) == {w}, 'sound:%s:%s:guard' % (n, k), '%s of sounds compares %s with %s before changing it, expected %s' % (n, k, sorted(map(str, tested.get(k) or [])) or 'nothing', w), where(g))


def sound_stores(P, g, facts):
    ev = dt.AtomEv(P)
    ev.run(g, args=[mk('arg', 'tag')], facts=facts)
    out = {}
    for root, path, v, line in ev.objstores:
        if root.op == 'idx' and root.a[0].op == 'arr' and not path:
            refs = list(root.a[0].a[0])
            vals = list(v.a[0].a[0]) if v.op == 'idx' and v.a[0].op == 'arr' else [v] * len(refs)
            for a, b in zip(refs, vals):
                out.setdefault(dt.render(a), set()).add(snum(b))
        else:
            out.setdefault(dt.render(mk('ref', True, root, path)), set()).add(snum(v))
    return out, ev


def snum(x):
    if x.op == 'k':
        return num(x, 'f64')
    t = show(x, 6)
    if 'default_zero_gain_modifier_for_class' in t:
        return 'gain'
    if x.op == 'fld' and 'default_min_max_distance_sounds' in t:
        return x.a[1]
    return t
