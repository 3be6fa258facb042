"""Independent reader of the tag definitions (src/ringhopper-definitions/json): the oracle for generated code.

Derives, for every struct, the ordered field list with byte offsets, generated Rust type names, and the flags that govern
presence in tag files and in cache files.  It shares no code with the repository's own definition loader.
"""
import json, os
from .build import REPO

PRIM = {  # json type -> (rust type, size, composite count)
    'TagGroup': ('TagGroup', 4, 1), 'Data': ('Data', 20, 1), 'FileData': ('FileData', 20, 1), 'BSPVertexData': ('BSPVertexData', 20, 1),
    'UTF16String': ('UTF16String', 20, 1), 'float': ('f64', 4, 1), 'uint8': ('u8', 1, 1), 'uint16': ('u16', 2, 1), 'uint32': ('u32', 4, 1),
    'int8': ('i8', 1, 1), 'int16': ('i16', 2, 1), 'int32': ('i32', 4, 1), 'Angle': ('Angle', 4, 1), 'Rectangle': ('Rectangle', 8, 4),
    'Vector2D': ('Vector2D', 8, 2), 'Vector3D': ('Vector3D', 12, 3), 'CompressedVector2D': ('CompressedVector2D', 4, 1),
    'CompressedVector3D': ('CompressedVector3D', 4, 1), 'CompressedFloat': ('CompressedFloat', 2, 1), 'Euler2D': ('Euler2D', 8, 2),
    'Euler3D': ('Euler3D', 12, 3), 'Plane2D': ('Plane2D', 12, 3), 'Plane3D': ('Plane3D', 16, 4), 'Quaternion': ('Quaternion', 16, 4),
    'Matrix3x3': ('Matrix3x3', 36, 9), 'ColorRGBFloat': ('ColorRGBFloat', 12, 3), 'ColorARGBFloat': ('ColorARGBFloat', 16, 4),
    'ColorARGBInt': ('ColorARGBInt', 4, 1), 'String32': ('String32', 32, 1), 'Address': ('Address', 4, 1), 'Index': ('Index', 2, 1),
    'Vector2DInt': ('Vector2DInt', 4, 2), 'TagID': ('ID', 4, 1), 'ID': ('ID', 4, 1), 'ScenarioScriptNodeValue': ('ScenarioScriptNodeValue', 4, 1),
    'Reflexive': ('Reflexive', 12, 1), 'TagReference': ('TagReference', 16, 1),
}
FLAGS = ('non_cached', 'cache_only', 'read_only', 'hidden', 'exclude', 'little_endian', 'shifted_by_one', 'non_null')


def matcher(s):
    s = ''.join('_' if c in '- ' else c for c in s)
    s = ''.join(c for c in s if c not in '\'"()')
    return s.lower()


def rustname(s):
    s = matcher(s)
    if s and s[0].isnumeric():
        s = '_' + s
    return {'type': '_type', 'loop': '_loop'}.get(s, s)


PREF = ["Gbxm", "Ui", "Bsp", "Hud", "Dxt", "Pcm", "Bc7", "Adpcm", "A1r5g5b5", "R5g6b5", "A4r4g4b4", "A8y8", "Ay8", "A8r8g8b8", "X8r8g8b8", "Ucs"]


def camel(s):
    s = rustname(s)
    r = ''
    cap = True
    for c in s:
        if c == '_':
            cap = True
            if not r:
                r = '_'
            continue
        r += c.upper() if cap else c
        cap = False
    for p in PREF:
        r = r.replace(p, p.upper())
    return r


class Field:
    __slots__ = ('name', 'rust', 'matcher', 'kind', 'type', 'inner', 'count', 'off', 'size', 'flags', 'default', 'groups', 'raw')

    @property
    def in_tags(self):
        return not self.flags['cache_only'] and not self.flags['exclude']

    @property
    def in_maps(self):
        return not self.flags['non_cached'] and not self.flags['exclude']


class Defs:
    def __init__(self, root=None):
        root = root or os.path.join(REPO, 'src/ringhopper-definitions/json')
        self.objects, self.groups, self.engines = {}, {}, {}
        for base, dirs, files in os.walk(root):
            for f in sorted(files):
                if not f.endswith('.json'):
                    continue
                for o in json.load(open(os.path.join(base, f))):
                    d = {'group': self.groups, 'engine': self.engines}.get(o['type'], self.objects)
                    d[o['name']] = o
        self.structs = {n: o for n, o in self.objects.items() if o['type'] == 'struct'}
        self.enums = {n: o for n, o in self.objects.items() if o['type'] == 'enum'}
        self.bitfields = {n: o for n, o in self.objects.items() if o['type'] == 'bitfield'}
        self._f = {}

    def size(self, n):
        o = self.objects[n]
        if o['type'] == 'struct':
            return o['size']
        return 2 if o['type'] == 'enum' else o['width'] // 8

    def fields(self, n):
        if n in self._f:
            return self._f[n]
        o = self.structs[n]
        raw = list(o['fields'])
        sflags = {k: bool(o.get(k)) for k in FLAGS}
        out = []
        off = 0
        if o.get('inherits'):
            p = o['inherits']
            sn = ''
            last = 'A'
            for c in p:
                if c.isupper() and not last.isupper():
                    sn += '_'
                last = c
                sn += c.lower()
            raw.insert(0, {'name': sn, 'type': p, '__inherit': True})
        for r in raw:
            t = r['type']
            f = Field()
            f.raw = r
            f.flags = {k: (bool(r.get(k)) or (sflags[k] and '__inherit' not in r)) for k in FLAGS} if t not in ('pad', 'editor_section') else {k: sflags[k] for k in FLAGS}
            f.off = off
            f.groups = None
            f.default = None
            f.inner = None
            if t == 'editor_section':
                continue
            if t == 'pad':
                f.name, f.rust, f.matcher, f.kind, f.type, f.count, f.size = '', '', '', 'pad', 'pad', 1, r['size']
                off += f.size
                out.append(f)
                continue
            f.name, f.rust, f.matcher = r['name'], rustname(r['name']), matcher(r['name'])
            f.count = 'bounds' if r.get('bounds') else r.get('count', 1)
            n1 = 2 if f.count == 'bounds' else f.count
            d = r.get('default')
            f.default = None if d is None else (d if isinstance(d, list) else [d])
            if t in PRIM:
                ty, s, _ = PRIM[t]
                f.kind = t
                if t == 'Reflexive':
                    f.inner = r['struct']
                    ty = 'Reflexive<%s>' % r['struct']
                if t == 'TagReference':
                    f.groups = r['groups']
            else:
                ty, s = t, self.size(t)
                f.kind = self.objects[t]['type']
                f.inner = t
            f.type = ty
            f.size = s * n1
            off += f.size
            out.append(f)
        self._f[n] = out
        return out

    def end(self, n):
        fs = self.fields(n)
        return fs[-1].off + fs[-1].size if fs else 0

    def children(self, g):
        if g == '*':
            return set(self.groups)
        if g == 'model':
            return {'gbxmodel'}
        out = set()
        for n, o in self.groups.items():
            if o.get('supergroup') == g:
                out.add(n)
                out |= self.children(n)
        return out

    def allowed(self, f):
        out = set()
        for g in f.groups:
            if g != '*':
                out.add(g)
            out |= self.children(g)
        return out

    def primary(self):
        return {o['struct'] for o in self.groups.values()}

    def options(self, o):
        """[(name, index, flags)] for an enum/bitfield"""
        l = o.get('options') or o.get('fields')
        out = []
        for i, x in enumerate(l):
            if isinstance(x, str):
                out.append((x, i, {k: False for k in FLAGS}))
            else:
                out.append((x['name'], i, {k: bool(x.get(k)) for k in FLAGS}))
        return out


# ------------------------------------------------------------------ frozen format
# The definitions describe the files of released games. The layout they gave at the pinned commit is recorded once in
# /verif/spec/format.json; a definition that still exists must still describe the same bytes.
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'format.json')


def snapshot(D):
    out = {'structs': {}, 'enums': {}, 'bitfields': {}, 'groups': {}, 'engines': {}}
    for n in D.structs:
        out['structs'][n] = {'size': D.structs[n]['size'], 'fields': {f.rust: [f.off, f.type, f.count, ''.join(k[0] + k[-1] + ' ' for k in ('non_cached', 'cache_only', 'little_endian', 'shifted_by_one') if f.flags[k]),
                                                                              sorted(f.groups) if f.groups else None, f.default] for f in D.fields(n) if f.kind != 'pad' and not f.flags['exclude']}}
    for n, o in D.enums.items():
        out['enums'][n] = {rustname(x): i for x, i, fl in D.options(o) if not fl['exclude']}
    for n, o in D.bitfields.items():
        out['bitfields'][n] = {'width': o['width'], 'fields': {rustname(x): [i, fl['cache_only'], fl['non_cached']] for x, i, fl in D.options(o) if not fl['exclude']}}
    for n, o in D.groups.items():
        out['groups'][n] = {k: o.get(k) for k in ('struct', 'version', 'supergroup', 'supported_engines')}
    for n, o in D.engines.items():
        out['engines'][n] = {k: v for k, v in o.items() if k not in ('display_name', 'comment')}
    return out


def frozen():
    with open(SPEC) as f:
        return json.load(f)


def current(D):
    return json.loads(json.dumps(snapshot(D)))
