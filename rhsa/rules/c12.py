"""C12: the tag group table is a bijection agreeing with the definitions; the engine table is the defined one."""
from ..layout import *
from ..report import where
from ..ev import LPHI
from ..defs import frozen, current, SPEC
import json, os

RULE = ('The group name, four-character code and parent of every group are obtained by constant propagation through their accessors and compared with the published codes and the '
        'definitions; both look-ups must return, on every path, the group of exactly the entry whose key equals the argument, and give up only after the whole table. The table of '
        'engines, as evaluated by the compiler, must equal the engine definitions with inheritance resolved.')
EXPLANATION = 'Binary search is accepted only over a table strictly sorted by the compared key with a comparator that is exactly the key comparison.'
TG = 'ringhopper_primitives::primitive::group::TagGroup'
FOURCC = os.path.join(os.path.dirname(SPEC), 'fourcc.json')
ORD = ('core::cmp::Ord::cmp', '<str as core::cmp::Ord>::cmp')


def cref(v):
    return mk('ref', False, mk('cst', v), ())


def const_str(ev, st, v):
    v = ev.content(st, v)
    return v.a[1] if v.op == 'k' else None


def check(P, R):
    D = Defs()
    a = P.adts.get(TG)
    fn = {m: P.fns.get(TG + '::' + m) for m in ('as_str', 'as_fourcc', 'from_str', 'from_fourcc', 'subgroup', 'full_subgroup_tree')}
    if a is None or None in fn.values():
        R.viol('anchors', 'the tag group type or its accessors were not found: %s' % [k for k, v in fn.items() if v is None])
        return
    for f in fn.values():
        R.fn(f)
    names, codes, parents = {}, {}, {}
    for v in a['variants']:
        x = adt(TG, v[0], [])
        ev = Ev(P)
        r, st = ev.run(fn['as_str'], args=[cref(x)])
        names[v[0]] = const_str(ev, st, r) if r is not None else None
        r, _ = Ev(P).run(fn['as_fourcc'], args=[cref(x)])
        codes[v[0]] = r.a[1] if r is not None and iskint(r) else None
        r, _ = Ev(P).run(fn['subgroup'], args=[x])
        parents[v[0]] = r
        R.ob('group accessors', 3)
        R.check(names[v[0]] is not None and codes[v[0]] is not None, 'accessor:' + v[0], 'the name or code of %s is not a constant' % v[0], where(fn['as_str']))
    byname = {n: v for v, n in names.items()}
    unset = byname.get('<unset>')
    R.check(len(byname) == len(names), 'dupname', 'two groups share a name', where(fn['as_str']))
    R.check(len(set(codes.values())) == len(codes), 'dupcode', 'two groups share a four-character code', where(fn['as_fourcc']))
    R.check(set(byname) - {'<unset>'} >= set(D.groups), 'groups', 'definitions without a group: %s' % sorted(set(D.groups) - set(byname)), where(fn['as_str']))
    with open(FOURCC) as f:
        spec = json.load(f)
    for n, v in sorted(byname.items()):
        R.ob('groups')
        want = spec.get(n)
        if want is not None:
            R.check(codes[v] == want, 'code:' + n, 'the code of %s is %#x, published as %#x' % (n, codes[v] or 0, want), where(fn['as_fourcc']))
        if n == '<unset>':
            continue
        o = D.groups.get(n, {})
        sup = o.get('supergroup')
        p = parents[v]
        got = names.get(p.a[2][0][1].a[1]) if p is not None and p.op == 'adt' and p.a[1] == 'Some' and p.a[2][0][1].op == 'adt' else None if p is not None and p.op == 'adt' and p.a[1] == 'None' else '?'
        R.check(got == sup, 'parent:' + n, 'the parent of %s is %s, the definitions say %s' % (n, got, sup), where(fn['subgroup']))
        chain = [n]
        while chain[-1] is not None and D.groups.get(chain[-1], {}).get('supergroup') and len(chain) < 9:
            chain.append(D.groups[chain[-1]]['supergroup'])
        t, _ = Ev(P).run(fn['full_subgroup_tree'], args=[adt(TG, v, [])])
        gt = [names.get(y.a[1]) if y.op == 'adt' else '?' for y in t.a[0]] if t is not None and t.op == 'arr' else None
        R.check(gt is not None and [x for x in gt if x != '<unset>'] == chain and gt == chain + ['<unset>'] * (len(gt) - len(chain)), 'chain:' + n, 'the ancestry of %s is %s, the definitions say %s' % (n, gt, chain), where(fn['full_subgroup_tree']))
        # structure of the group
        st_ = o.get('struct')
        R.check(st_ == v or not o, 'variant:' + n, 'group %s is defined by structure %s but its group is %s' % (n, st_, v))
    lookup(P, R, fn['from_fourcc'], codes, 2, {0xffffffff: unset}, 'fourcc')
    lookup(P, R, fn['from_str'], names, 0, {}, 'name')
    froz = frozen()
    cur = current(D)
    for n, o in froz['groups'].items():
        c = cur['groups'].get(n)
        if c is None:
            continue
        for k in ('struct', 'version', 'supergroup', 'supported_engines'):
            R.ob('released group data')
            R.check(o[k] == c[k], 'released:%s:%s' % (n, k), '%s of group %s is %s in the definitions, released as %s' % (k, n, c[k], o[k]), 'src/ringhopper-definitions/json')
    engines(P, R, D, froz, cur)
    R.floor('groups', 83)
    R.floor('engine values', 300)


def lookup(P, R, fn, keys, kf, extra, what):
    """every path: Some/Ok(v) only for the entry whose key equals the argument; None/Err only after the whole table."""
    ev = Ev(P)
    arg = mk('arg', fn.lname(1) or 'a0')
    v, st = ev.run(fn, args=[arg])
    R.ob('group look-ups')
    if v is None:
        R.viol('lookup:' + what, 'the look-up by %s never returns' % what, where(fn))
        return
    byc = {k: n for n, k in keys.items()}
    full = False
    consts = set()
    for x, fs in alts(v):
        R.ob('look-up paths')
        if x.op != 'adt':
            R.viol('lookup:' + what, 'the look-up by %s can return %s, which is not a table entry' % (what, show(x, 3)), where(fn))
            continue
        if x.a[1] in ('None', 'Err'):
            full = full or exhausted(ev, fs, len(keys))
            continue
        g = x.a[2][0][1]
        if g.op == 'adt':
            k = [y for y in (key_eq(c, arg) for c, t in fs if t) if y is not None]
            R.check(any(byc.get(y) == g.a[1] or extra.get(y) == g.a[1] for y in k), 'lookup:%s:%s' % (what, g.a[1]), 'the look-up by %s can return %s for another key' % (what, g.a[1]), where(fn))
            consts |= set(k)
            continue
        good, ex = entry(P, ev, st, g, fs, arg, keys, kf)
        R.check(good, 'lookup:' + what, 'the look-up by %s can return the group of an entry whose key is not the argument' % what, where(fn))
        full = full or ex
    R.check(full or set(byc) <= consts, 'lookup-all:' + what, 'the look-up by %s can miss entries of the table' % what, where(fn))


def key_eq(c, arg):
    """constant the argument equals when c holds"""
    if c.op == 'eq0':
        k, p = lin_parts(c.a[0])
        it = list(p.items())
        if len(it) == 1 and it[0][0] is arg and abs(it[0][1]) == 1:
            return -k * it[0][1]
    if c.op == 'eq':
        for x, y in (c.a, c.a[::-1]):
            if strip(x) is arg and y.op == 'k':
                return y.a[1]
            if strip(x) is arg and y.op == 'ref' and y.a[1].op == 'cst':
                return y.a[1].a[0].a[1]
    return None


def strip(x):
    while x.op == 'at':
        x = x.a[0]
    return x


def table_of(v):
    """(table, index) when v is the value field of a constant table element"""
    if v.op == 'fld' and v.a[0].op == 'idx' and v.a[0].a[0].op == 'arr':
        return v.a[0].a[0], v.a[0].a[1].a[0]
    return None


def entry(P, ev, st, g, fs, arg, keys, kf):
    t = table_of(g)
    if t is None:
        return False, False
    tab, ix = t
    rows = []
    for r in tab.a[0]:
        if r.op != 'tup':
            return False, False
        ks = [y for y in r.a[0] if y.op == 'k' or y.op == 'ref']
        gs = [(i, y) for i, y in enumerate(r.a[0]) if y.op == 'adt']
        if len(gs) != 1 or g.a[1] != str(gs[0][0]):
            return False, False
        rows.append((r, gs[0][1].a[1]))
    # which column is compared?
    for c, tr in fs:
        if not tr:
            continue
        for y in walk(c):
            if c.op in ('eq0', 'eq') and y.op == 'fld' and y.a[0] is g.a[0] and y is not g:
                col = int(y.a[1])
                if (c.op == 'eq0' and c is eq0(sub(y, arg))) or (c.op == 'eq' and {strip(z) for z in c.a} >= {arg}):
                    return all(value(r, col) == keys[n] for r, n in rows), False
    # binary search
    if ix.op == 'fld' and ix.a[1] == 'Ok.0' and ix.a[0].op == 'call' and ix.a[0].a[0].endswith(('::binary_search_by', '::binary_search_by_key')):
        call = ix.a[0]
        for e in ev.events.values():
            if e.kind == 'call' and e.val is call:
                src = e.cont[0]
                n = len(rows)
                if src.op == 'slice' and iskint(src.a[1]) and src.a[1].a[1] == 0 and iskint(src.a[2]):
                    n = src.a[2].a[1]
                    src = src.a[0]
                if src is not tab:
                    return False, False
                # only the entry of the unset group may be left out of the search
                if any(value(r, 0) != '<unset>' for r, _ in rows[n:]):
                    return False, False
                rows = rows[:n]
                probe = mk('arg', 'probe')
                from ..ev import Frame
                r = apply(P, ev, st, e, probe)
                if r is None or not (r.op == 'call' and r.a[0].endswith('::cmp') and len(r.a[2]) == 2):
                    return False, False
                x, y = r.a[2]
                x = unat(x)
                if not (x.op == 'fld' and x.a[0] is probe and unat(y) is arg):
                    return False, False
                col = int(x.a[1])
                vals = [value(rw, col) for rw, _ in rows]
                enc = [z.encode() if isinstance(z, str) else z for z in vals]
                return all(v == keys[n] for v, (_, n) in zip(vals, rows)) and all(p < q for p, q in zip(enc, enc[1:])), True
    return False, False


def unat(x):
    """strip dereferences anywhere on the access path"""
    if x.op == 'at':
        return unat(x.a[0])
    if x.op == 'fld':
        return mk('fld', unat(x.a[0]), x.a[1])
    return x


def apply(P, ev, st, e, probe):
    clo = e.args[-1]
    if clo.op == 'ref':
        clo = ev.content(st, clo)
    if clo.op != 'closure':
        return None
    f = P.fns.get(clo.a[0])
    if f is None:
        return None
    e2 = Ev(P)
    s2 = State(dict(st.mem), dict(st.facts))
    root = mk('cst', clo)
    env = mk('ref', True, root, ()) if f.types[f.locals[1][0]].startswith('&') else clo
    r, _ = e2.run(f, args=[env, probe], st=s2)
    return r


def value(r, col):
    y = r.a[0][col]
    if y.op == 'ref':
        y = y.a[1].a[0]
    return y.a[1] if y.op == 'k' else None


def exhausted(ev, fs, n):
    """the path runs only after an index that starts at 0 and grows by one has reached the table length"""
    for c, t in fs:
        for y in walk(c):
            if y.op == 'lphi':
                inc = LPHI.get(y, {})
                vals = list(inc.values())
                if K(0) in vals and all(z is K(0) or z is add(y, K(1)) for z in vals):
                    for z in (z for z, t_ in fs if z.op == 'le0' and t_):
                        k, p = lin_parts(z.a[0])
                        if p == {y: -1} and k >= 1:
                            return k >= n
    return False


# ------------------------------------------------------------------ engines
def chain(D, n, k):
    out = []
    while n:
        o = D.engines[n]
        if k in o:
            out.append(o[k])
        n = o.get('inherits')
    return out


def hexv(x):
    return int(x, 16)


def resolve(D, n):
    g = lambda k, d=None: (chain(D, n, k) or [d])[0]
    own = D.engines[n]
    b = g('base_memory_address')
    b = b if isinstance(b, dict) else {'value': b}
    c = g('max_cache_file_size')
    c = c if isinstance(c, dict) else {k: c for k in ('user_interface', 'singleplayer', 'multiplayer')}
    bo, bd, rm = g('bitmap_options'), g('build'), g('resource_maps')
    req = {k: [] for k in ('all', 'user_interface', 'singleplayer', 'multiplayer')}
    for o in chain(D, n, 'required_tags'):
        for k in req:
            req[k] += o.get(k, [])
    return {
        'name': n, 'display_name': g('display_name'), 'version': g('version'), 'build_target': g('build_target'), 'custom': g('custom', False),
        'fallback': own.get('fallback', False), 'cache_default': own.get('cache_default', False), 'cache_file_version': g('cache_file_version'),
        'max_script_nodes': g('max_script_nodes'), 'max_tag_space': hexv(g('max_tag_space')), 'external_bsps': g('external_bsps', False),
        'external_models': g('external_models', False), 'compressed_models': g('compressed_models'), 'data_alignment': g('data_alignment'),
        'base_memory_address': {'address': hexv(b['value']), 'inferred': b.get('inferred', False)},
        'max_cache_file_size': {k: hexv(c[k]) for k in ('user_interface', 'singleplayer', 'multiplayer')},
        'bitmap_options': {k: bo[k] for k in ('swizzled', 'texture_dimension_must_modulo_block_size', 'cubemap_faces_stored_separately', 'alignment')},
        'build': bd and {'string': bd['version'], 'enforced': bd.get('enforced', False), 'fallback': bd.get('fallback', [])},
        'resource_maps': rm and {k: rm[k] for k in ('externally_indexed_tags', 'loc')},
        'cache_parser': {'pc': 'PC', 'xbox': 'Xbox'}[g('cache_parser')], 'compression_type': {'none': 'Uncompressed', 'deflate': 'Deflate'}[g('compression_type')],
        'required_tags': req,
    }


def plain(v):
    if isinstance(v, dict):
        if v.get('#') == 'None':
            return None
        if v.get('#') == 'Some':
            return plain(v['0'])
        if set(v) == {'#'}:
            return v['#']
        return {k: plain(x) for k, x in v.items() if k != '#'}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def engines(P, R, D, froz, cur):
    k = P.consts.get('ringhopper_engines::ALL_SUPPORTED_ENGINES')
    if k is None or not isinstance(k.get('v'), list):
        R.viol('engines', 'the engine table was not found')
        return
    got = {e['name']: plain(e) for e in k['v']}
    w = '%s:%s' % (k['file'], k['line'])
    R.check(set(got) == set(D.engines) and len(k['v']) == len(got), 'engines', 'the engine table lists %s, the definitions %s' % (sorted(got), sorted(D.engines)), w)
    order = [e['name'] for e in k['v']]
    R.check(order == sorted(order), 'engines:order', 'the engine table is not sorted by name', w)
    for n in sorted(D.engines):
        want = resolve(D, n)
        for f, x in want.items():
            R.ob('engine values')
            y = got.get(n, {}).get(f)
            if f == 'required_tags' and isinstance(y, dict):
                R.check({a: sorted(set(b)) for a, b in y.items()} == {a: sorted(set(b)) for a, b in x.items()}, 'engine:%s:%s' % (n, f), '%s of engine %s is %s, the definitions resolve to %s' % (f, n, y, x), w)
            else:
                R.check(y == x, 'engine:%s:%s' % (n, f), '%s of engine %s is %s, the definitions resolve to %s' % (f, n, y, x), w)
    for n, o in froz['engines'].items():
        c = cur['engines'].get(n)
        for f, x in o.items():
            R.ob('released engine data')
            if f in ('build_target', 'cache_default', 'custom', 'max_script_nodes', 'required_tags', 'script_compile_target'):
                continue
            R.check(c is None or c.get(f) == x, 'released:%s:%s' % (n, f), '%s of engine %s is %s in the definitions, released as %s' % (f, n, c and c.get(f), x), 'src/ringhopper-definitions/json')
