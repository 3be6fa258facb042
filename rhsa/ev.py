"""Context-sensitive abstract evaluator over MIR.

A forward dataflow: every place holds a hash-consed value term, every program point a set of must-facts (branch
conditions that hold on every path to it). Local helpers are inlined, so moving code into a helper does not change
what is seen. Joins keep equal values and build gated phis otherwise; loop headers widen to opaque phis. Nothing is
executed and no path is enumerated; the result over-approximates all paths.
"""
import heapq
import re
from .val import *
from .prog import Fn, subst_ty, resolve_callee, strip_generics, succs

INTW = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64,
        'u128': 128, 'i128': 128, 'char': 32, 'bool': 1}
UNSIGNED = {'u8', 'u16', 'u32', 'u64', 'usize', 'u128', 'char', 'bool'}
STD_VARIANTS = {OPT: ['None', 'Some'], RES: ['Ok', 'Err'], 'core::ops::control_flow::ControlFlow': ['Continue', 'Break']}


class State:
    __slots__ = ('mem', 'facts', 'shared')

    def __init__(self, mem=None, facts=None):
        self.mem = mem or {}
        self.facts = facts or {}
        self.shared = False

    def copy(self):
        s = State(dict(self.mem), self.facts)
        s.shared = self.shared = True
        return s

    def add(self, f, v):
        if self.shared:
            self.facts = dict(self.facts)
            self.shared = False
        self.facts[f] = v

    def snap(self):
        self.shared = True
        return self.facts


class Event:
    __slots__ = ('kind', 'callee', 'args', 'cont', 'facts', 'file', 'line', 'fn', 'frame', 'bb', 'val', 'stack', 'x')

    def __repr__(self):
        return '<%s %s(%s) %s:%s>' % (self.kind, self.callee.norm if self.callee else self.x, ', '.join(show(a, 4) for a in self.args), self.fn, self.line)


class Frame:
    __slots__ = ('id', 'fn', 'sub', 'parent', 'depth', 'fns')


class Diverge(Exception):
    pass


class Budget(Exception):
    pass


def unmasked(v, k, keys):
    """the value at k without the updates of parts that are kept apart"""
    while v.op == 'upd' and isinstance(v.a[1], tuple) and any(q != k and q == (k + v.a[1])[:len(q)] for q in keys):
        v = v.a[0]
    return v


class Ev:
    def __init__(self, P, opaque=(), inline=None, max_depth=14, budget=400000, iters=6):
        self.P = P
        self.opaque = opaque if callable(opaque) else (lambda c, s=set(opaque): c.path in s or c.norm in s)
        self.inline = inline  # callable(callee, frame) -> bool | None
        self.max_depth = max_depth
        self.events = {}
        self.iters = {}
        self.ty = {}
        self.arrlen = {}
        self.itercount = {}
        self.noend = set()        # sites of next() taken never to end
        self.nonempty = False     # everything walked through has an element ('some': and what is known of it holds for that one, not for all)
        self.begun = set()
        self.forced = set()
        self.site = None
        self.choose = None      # callable(site, n) -> index: take that element of a constant list at every step of the loop
        self.frames = {}
        self.budget = budget
        self.steps = 0
        self.prom = {}
        self.site_n = {}
        self.diverged = []

    def element(self, it):
        """what an iterator yields, where a rule says so"""
        return None

    # ------------------------------------------------------------ memory
    def project(self, v, e, st=None):
        o = v.op
        if o == 'adt':
            if '.' in e:
                var, f = e.split('.', 1)
                if var != v.a[1]:
                    return mk('bad', v, e)
            else:
                f = e
            for k, x in v.a[2]:
                if k == f:
                    return x
            return mk('fld', v, e)
        if o in ('tup', 'arr') and e.isdigit():
            i = int(e)
            if i < len(v.a[0]):
                return v.a[0][i]
        if o == 'closure' and e.isdigit():
            i = int(e)
            if i < len(v.a[1]):
                return v.a[1][i]
        if o == 'upd':
            base, path, val = v.a
            if path[0] == e:
                if len(path) == 1:
                    return val
                return self.mkupd(self.project(base, e), path[1:], val)
            if isinstance(path[0], V) and isinstance(e, V):
                return mk('upde', v, e)
            return self.project(base, e)
        if o == 'cf':
            x, isres = v.a
            if e == 'Continue.0':
                return self.project(x, 'Ok.0' if isres else 'Some.0', st)
            if e == 'Break.0':
                return err(self.project(x, 'Err.0', st)) if isres else NONE
        if o == 'phi':
            alts = PHI[v]
            out = []
            for x, f, ed in alts:
                if st is not None and st.facts.get(ed) is False:
                    continue
                y = self.project(x, e, st)
                if y.op == 'bad':
                    continue
                out.append((y, f, ed))
            if out:
                return mkphi(('p', v.a[0], e), out)
            return mk('fld', v, e)
        return mk('fld', v, e)

    def proje(self, v, e, st=None):
        if isinstance(e, V):
            return self.projidx(v, e, st)
        return self.project(v, e, st)

    def projidx(self, v, e, st):
        # e: mk('ix', idx) / mk('slc', lo, hi) / mk('cx', off, fromend)
        if e.op == 'ix' and iskint(e.a[0]) and v.op == 'arr':
            i = e.a[0].a[1]
            if 0 <= i < len(v.a[0]):
                return v.a[0][i]
        if e.op == 'cx' and v.op == 'arr':
            i = e.a[0]
            n = len(v.a[0])
            i = n - i if e.a[1] else i
            if 0 <= i < n:
                return v.a[0][i]
        if v.op == 'repeat':
            return v.a[0] if e.op != 'slc' else mk('slice', v, e.a[0], e.a[1])
        if v.op == 'upd':
            base, path, val = v.a
            if path[0] is e:
                return val if len(path) == 1 else self.mkupd(self.projidx(base, e, st), path[1:], val)
            if not isinstance(path[0], V):
                return self.projidx(base, e, st)
            if e.op == 'ix' and path[0].op == 'ix' and iskint(e.a[0]) and iskint(path[0].a[0]):
                return self.projidx(base, e, st)  # different constant indices
        if e.op == 'slc':
            if iskint(e.a[0]) and e.a[0].a[1] == 0 and e.a[1] is self.len(v):
                return v
            return mk('slice', v, e.a[0], e.a[1])
        return mk('idx', v, e)

    def mkupd(self, base, path, val):
        if base.op == 'adt' and not isinstance(path[0], V):
            e = path[0]
            f = e.split('.', 1)[1] if '.' in e else e
            fs = []
            hit = False
            for k, x in base.a[2]:
                if k == f:
                    hit = True
                    fs.append((k, val if len(path) == 1 else self.mkupd(x, path[1:], val)))
                else:
                    fs.append((k, x))
            if hit:
                return adt(base.a[0], base.a[1], fs)
        if base.op == 'tup' and not isinstance(path[0], V) and path[0].isdigit() and int(path[0]) < len(base.a[0]):
            l = list(base.a[0])
            i = int(path[0])
            l[i] = val if len(path) == 1 else self.mkupd(l[i], path[1:], val)
            return mk('tup', tuple(l))
        return mk('upd', base, path, val)

    def initial(self, root):
        if root.op == 'loc':
            return mk('undef', root)
        if root.op == 'cst':
            return root.a[0]
        return mk('at', root)

    def load(self, st, root, path):
        d = st.mem.get(root)
        base = None
        n = 0
        if d:
            for i in range(len(path), -1, -1):
                if path[:i] in d:
                    base = d[path[:i]]
                    n = i
                    break
        if base is None:
            base = self.initial(root)
            n = 0
        v = base
        for e in path[n:]:
            v = self.proje(v, e, st)
        if d and len(d) > (1 if n or () in d else 0):
            L = len(path)
            subs = [(p, x) for p, x in d.items() if len(p) > L and p[:L] == path]
            if subs:
                subs.sort(key=lambda t: len(t[0]))
                for p, x in subs:
                    v = self.mkupd(v, p[L:], x)
        return self.simp(st, v)

    def simp(self, st, v):
        """Resolve phis whose incoming edge is known."""
        n = 0
        while v.op == 'phi' and n < 8:
            n += 1
            alts = PHI[v]
            live = [t for t in alts if st.facts.get(t[2]) is not False]
            for t in alts:
                if st.facts.get(t[2]) is True:
                    live = [t]
                    break
            if len(live) == len(alts) or not live:
                break
            v = mkphi(v.a[0], live)
        return v

    def store(self, st, root, path, v):
        # index elements: collapse to weak update of the container unless const index
        for i, e in enumerate(path):
            if isinstance(e, V) and not (e.op == 'ix' and iskint(e.a[0])):
                base = self.load(st, root, path[:i])
                self.store(st, root, path[:i], mk('welem', self.strip_welem(base), v if i == len(path) - 1 else mk('some', v)))
                return
        d = st.mem.get(root)
        d = dict(d) if d else {}
        L = len(path)
        for p in [p for p in d if len(p) > L and p[:L] == path]:
            del d[p]
        d[path] = v
        st.mem[root] = d

    def strip_welem(self, v):
        return v.a[0] if v.op == 'welem' else v

    def deref(self, p):
        if p.op == 'ref':
            return p.a[1], p.a[2]
        return p, ()

    def place(self, fr, st, pl):
        root = mk('loc', fr.id, pl[0])
        path = ()
        var = None
        for e in pl[1:]:
            if e == '*':
                p = self.load(st, root, path)
                root, path = self.deref(p)
                var = None
            elif e == '?':
                path = path + (mk('unkproj'),)
            else:
                k = e[0]
                if k == '.':
                    nm = e[2]
                    if var is not None:
                        nm = var + '.' + nm
                        var = None
                    path = path + (nm,)
                elif k == 'v':
                    var = e[2]
                elif k == 'i':
                    iv = self.load(st, mk('loc', fr.id, e[1]), ())
                    path = path + (mk('ix', iv),)
                elif k == 'c':
                    path = path + ((mk('ix', K(e[1])) if not e[2] else mk('cx', e[1], True)),)
                elif k == 's':
                    base = self.load(st, root, path)
                    hi = add(self.len(base), K(e[2]), -1) if e[3] else K(e[2])
                    path = path + (mk('slc', K(e[1]), hi),)
        return root, path

    def len(self, v):
        o = v.op
        if o == 'arr':
            return K(len(v.a[0]))
        if o == 'repeat':
            return v.a[1]
        if o == 'slice':
            return add(v.a[2], v.a[1], -1)
        if o == 'k' and v.a[0] == 'str':
            return K(len(v.a[1].encode()))
        if o == 'k' and v.a[0] == 'bytes':
            return K(len(v.a[1]))
        if o in ('welem',):
            return self.len(v.a[0])
        if o == 'upd' and isinstance(v.a[1][0], V):
            return self.len(v.a[0])
        if o == 'vecfrom':
            return v.a[1]
        if o == 'bytesof':
            return self.len(v.a[0])
        return mk('len', v)

    # ------------------------------------------------------------ constants
    def constv(self, fr, st, c):
        ty = c[1]
        d = c[2]
        tys = fr.fn.types[ty] if isinstance(ty, int) else ty
        if 'fn' in d:
            cal = resolve_callee(self.P, fr.fn, d['fn'], fr.sub)
            return mk('fn', cal.path, tuple(sorted(cal.sub.items())), cal.fn.p if cal.fn else '', strip_generics(d['fn']['f']), tuple(cal.args), d['fn']['t'] or '')
        if 'v' in d:
            return self.decode(d['v'], tys)
        if 'promoted' in d:
            return self.promoted(fr, st, d)
        if 'param' in d:
            x = (fr.sub or {}).get(d['param'])
            if x is not None and x.isdigit():
                return K(int(x))
            return mk('param', x or d['param'])
        if 'const' in d:
            k = self.P.consts.get(d['const'])
            if k is not None and k['v'] is not None:
                return self.decode(k['v'], k['tys'])
            ca = tuple(subst_ty(fr.fn.types[x], fr.sub) if isinstance(x, int) else x for x in d.get('ca', []))
            return mk('const', d['const'], ca)
        if tys == '()':
            return UNIT
        if tys.startswith('fn') or '{closure' in tys:
            return mk('zst', tys)
        p = self.P.adt_of(tys)
        a = self.P.adts.get(p)
        if a and a['kind'] == 'struct' and len(a['variants']) == 1 and not a['variants'][0][2]:
            return adt(p, a['variants'][0][0], [])
        if a and a['kind'] == 'struct':
            return mk('zst', subst_ty(tys, fr.sub))
        return mk('zst', subst_ty(tys, fr.sub))

    def promoted(self, fr, st, d):
        # promoted bodies are evaluated once per (function, index, substitution)
        fn = self.P.fns.get(d['of']) or fr.fn
        if d['promoted'] >= len(fn.d.get('prom', [])):
            return mk('promoted', d['of'], d['promoted'])
        pf = fn.promoted(d['promoted'])
        sub = fr.sub if fn is fr.fn or fn.p.startswith(fr.fn.p.split('::{closure')[0]) else {}
        fid = self.frame_id(None, ('prom', fn.p, d['promoted'], tuple(sorted((sub or {}).items()))))
        if fid in self.prom:
            v, mem = self.prom[fid]
            st.mem.update(mem)
            return v
        f2 = Frame()
        f2.id, f2.fn, f2.sub, f2.parent, f2.depth, f2.fns = fid, pf, sub, fr, fr.depth + 1, fr.fns
        s2 = State()
        ev = self.events
        self.events = {}
        try:
            v, so = self.body(f2, s2)
        finally:
            self.events = ev
        if so is None:
            return mk('promoted', d['of'], d['promoted'])
        self.prom[fid] = (v, {k: x for k, x in so.mem.items()})
        st.mem.update(so.mem)
        return v

    def decode(self, x, ty):
        t = ty
        isref = False
        while t.startswith('&'):
            t = t[1:]
            if t.startswith("'"):
                t = t.split(' ', 1)[1]
            if t.startswith('mut '):
                t = t[4:]
            isref = True
        v = self._decode(x, t)
        return mk('ref', False, mk('cst', v), ()) if isref and v.op != 'kraw' else v

    def _decode(self, x, t):
        if isinstance(x, bool):
            return K(x)
        if isinstance(x, int):
            p = self.P.adts.get(self.P.adt_of(t))
            return K(x)
        if isinstance(x, str):
            return K(x)
        if isinstance(x, list):
            et = t[1:].rsplit(']', 1)[0] if t.startswith('[') else ''
            if t.startswith('('):
                return mk('tup', tuple(self.decode(y, '?') if not isinstance(y, str) else mk('ref', False, mk('cst', K(y)), ()) for y in x))
            et = et.split(';')[0].strip()
            return mk('arr', tuple(self.decode(y, et) for y in x))
        if isinstance(x, dict):
            if 'char' in x:
                return K(x['char'])
            if 'f64' in x:
                return mk('k', 'f64', x['f64'])
            if 'f32' in x:
                return mk('k', 'f32', x['f32'])
            if 'bytes' in x:
                return mk('k', 'bytes', bytes.fromhex(x['bytes']))
            if 'fn' in x:
                if 'clo' in x and x['clo'] in self.P.fns:
                    return mk('closure', x['clo'], (), ())
                t = self.P.fns.get(x['fn'])
                if t is not None and not t.gen:
                    return mk('fn', t.p, (), t.p, strip_generics(t.p), (), '')
                return mk('fnaddr', x['fn'])
            if '#' in x:
                p = self.P.adt_of(t)
                a = self.P.adts.get(p)
                fts = {}
                if a:
                    for vn, _, fs in a['variants']:
                        if vn == x['#'] or a['kind'] == 'struct':
                            fts = {f[0]: f[1] for f in fs}
                return adt(p, x['#'], [(k, self.decode(y, fts.get(k, '?'))) for k, y in x.items() if k != '#'])
        return mk('kraw', repr(x))

    # initial value of a decoded constant pointer
    # ('cst', v): root whose content is v
    def operand(self, fr, st, o):
        if o[0] == 'k':
            return self.constv(fr, st, o)
        root, path = self.place(fr, st, o[1])
        return self.load(st, root, path)

    def content(self, st, v):
        """Value behind a reference (for naming pure calls)."""
        n = 0
        while v.op == 'ref' and n < 4:
            r, p = v.a[1], v.a[2]
            v = self.load(st, r, p)
            n += 1
        return v

    # ------------------------------------------------------------ facts
    def refine(self, st, c, truth):
        """Assume boolean value c == truth. Returns False if contradictory."""
        c = self.simp(st, c)
        o = c.op
        if o == 'k':
            return bool(c.a[1]) == truth
        if o == 'not':
            return self.refine(st, c.a[0], not truth)
        if o == 'le0' and not truth:
            c = lnot(c)
            truth = True
            o = c.op
            if o == 'k':
                return bool(c.a[1])
        if c in st.facts:
            return st.facts[c] == truth
        if o == 'phi':
            return self.refine_phi(st, c, lambda x: (bool(x.a[1]) == truth) if x.op == 'k' else None, lambda s, x: self.refine(s, x, truth), (c, truth))
        if o == 'isv':
            return self.refine_isv(st, c.a[0], c.a[1], truth)
        if o == 'eq' and truth:
            st.add(c, truth)
            return True
        if o == 'and':
            if truth:
                st.add(c, True)
                return all(self.refine(st, x, True) for x in c.a[0])
        if o == 'or' and not truth:
            st.add(c, False)
            return all(self.refine(st, x, False) for x in c.a[0])
        if o == 'eq0' and truth is False:
            # x != 0 together with a sign gives a strict bound
            pass
        st.add(c, truth)
        return True

    def refine_phi(self, st, c, test, sub, rec):
        alts = [t for t in PHI[c] if st.facts.get(t[2]) is not False]
        live = []
        for x, f, e in alts:
            t = test(x)
            if t is False:
                continue
            bad = False
            for (k, b) in f:
                if k in st.facts and st.facts[k] != b:
                    bad = True
                    break
            if bad:
                continue
            live.append((x, f, e, t))
        if not live:
            return False
        if len(live) == 1:
            x, f, e, t = live[0]
            for k, b in f:
                if not self.addfact(st, k, b):
                    return False
            st.add(e, True)
            if rec:
                st.add(rec[0], rec[1])
            if t is None:
                return sub(st, x)
            return True
        # several: common facts
        sets = []
        for x, f, e, t in live:
            s = dict(f)
            if t is None:
                tmp = State({}, dict(st.facts))
                r = sub(tmp, x)
                if not r:
                    continue
                for k, b in tmp.facts.items():
                    if st.facts.get(k) is not b:
                        s[k] = b
            sets.append((e, s))
        if not sets:
            return False
        if len(sets) == 1:
            e, s = sets[0]
            for k, b in s.items():
                if not self.addfact(st, k, b):
                    return False
            st.add(e, True)
        else:
            common = dict(sets[0][1])
            for e, s in sets[1:]:
                common = {k: b for k, b in common.items() if s.get(k) is b}
            for k, b in common.items():
                if k.op != 'edge' and not self.addfact(st, k, b):
                    return False
            es = {e for e, _ in sets}
            for x, f, e in alts:
                if e not in es:
                    st.add(e, False)
        if rec:
            st.add(rec[0], rec[1])
        return True

    def addfact(self, st, k, b):
        if k in st.facts:
            return st.facts[k] == b
        if k.op in ('phi', 'isv', 'not', 'edge'):
            if k.op == 'edge':
                st.add(k, b)
                return True
            if k.op == 'isv':
                r = self.refine_isv(st, k.a[0], k.a[1], b)
            else:
                r = self.refine(st, k, b)
            if not r:
                return False
        st.add(k, b)
        return True

    def variants_of(self, v, hint=None):
        if hint:
            if hint in STD_VARIANTS:
                return STD_VARIANTS[hint]
            a = self.P.adts.get(hint)
            if a:
                return [x[0] for x in a['variants']]
        return None

    def isv_test(self, st, v, name):
        """True/False/None whether v is variant `name`."""
        if v.op == 'adt':
            return v.a[1] == name
        if v.op == 'cf':
            x, isres = v.a
            m = {'Continue': 'Ok' if isres else 'Some', 'Break': 'Err' if isres else 'None'}
            return self.isv_test(st, x, m[name])
        f = mk('isv', v, name)
        if f in st.facts:
            return st.facts[f]
        if v.op == 'phi':
            rs = set()
            for x, fs, e in PHI[v]:
                if st.facts.get(e) is False:
                    continue
                rs.add(self.isv_test(st, x, name))
            if len(rs) == 1:
                return rs.pop()
        if v.op == 'lin' or v.op == 'k':
            return None
        # two-variant types: opposite fact
        opp = {'Ok': 'Err', 'Err': 'Ok', 'Some': 'None', 'None': 'Some'}.get(name)
        if opp:
            f2 = mk('isv', v, opp)
            if f2 in st.facts:
                return not st.facts[f2]
        return None

    def refine_isv(self, st, v, name, truth):
        v = self.simp(st, v)
        t = self.isv_test(st, v, name)
        if t is not None and v.op != 'phi':
            return t == truth
        if v.op == 'cf':
            x, isres = v.a
            m = {'Continue': 'Ok' if isres else 'Some', 'Break': 'Err' if isres else 'None'}
            return self.refine_isv(st, x, m[name], truth)
        if v.op == 'phi':
            def test(x):
                r = self.isv_test(st, x, name)
                return None if r is None else r == truth
            return self.refine_phi(st, v, test, lambda s, x: self.refine_isv(s, x, name, truth), (mk('isv', v, name), truth))
        opp = {'Ok': 'Err', 'Err': 'Ok', 'None': 'Some'}.get(name)
        if v.op == 'chk':
            # checked arithmetic: Some <=> no overflow
            is_some = truth if name == 'Some' else not truth
            f = mk('noovf', v.a[0], v.a[1])
            if f in st.facts and st.facts[f] != is_some:
                return False
            st.add(f, is_some)
            if is_some and len(v.a) > 2:
                for c in v.a[2]:
                    if not self.refine(st, c, True):
                        return False
            return True
        if v.op == 'optif':
            # Some(payload) iff cond
            is_some = truth if name == 'Some' else not truth
            return self.refine(st, v.a[0], is_some)
        # canonical polarity for the two-variant std enums
        if name == 'Err':
            name, truth = 'Ok', not truth
        elif name == 'None':
            name, truth = 'Some', not truth
        f = mk('isv', v, name)
        if f in st.facts:
            return st.facts[f] == truth
        st.add(f, truth)
        return True

    # ------------------------------------------------------------ merging
    def merge(self, fr, bb, ins, loop=False):
        """ins: list of (edgekey, State)."""
        if len(ins) == 1 and not loop:
            return ins[0][1].copy()
        first = ins[0][1]
        # facts
        if len(ins) == 1:
            facts = dict(first.facts)
        else:
            facts = {}
            others = [s.facts for _, s in ins[1:]]
            for k, b in first.facts.items():
                for o in others:
                    if o.get(k) is not b:
                        break
                else:
                    facts[k] = b
        out = State({}, facts)
        join = ('j', fr.id, bb)
        edges = [mk('edge', join, i, ek) for i, (ek, _) in enumerate(ins)]
        deltas = None
        roots = {}
        for _, s in ins:
            roots.update(dict.fromkeys(s.mem))
        for root in roots:
            ds = [s.mem.get(root) for _, s in ins]
            if root.op == 'loc' and any(d is None for d in ds):
                # uninitialised on some edge -> dead afterwards
                if root.a[0] == fr.id:
                    continue
            d0 = ds[0]
            if all(d is d0 for d in ds):
                out.mem[root] = d0
                continue
            keys = {}
            for d in ds:
                if d:
                    keys.update(dict.fromkeys(d))
            ks = sorted(keys, key=len)
            based = all(d is not None and () in d for d in ds)
            if any(d is None or d.keys() != keys.keys() for d in ds):
                # collapse to the shortest prefixes; apart from the whole, where every side has it
                keep = []
                for k in ks:
                    if k and not any(k[:len(p)] == p for p in keep) or not k and not based:
                        keep.append(k)
                ks = ([()] if based else []) + keep
            nd = {}
            for k in ks:
                vals = [unmasked(s.mem[root][k], k, ks) if based and not k else self.load(s, root, k) for _, s in ins]
                v0 = vals[0]
                if all(v is v0 for v in vals):
                    nd[k] = v0
                else:
                    if deltas is None:
                        deltas = [tuple(sorted(((f, b) for f, b in s.facts.items() if facts.get(f) is not b), key=lambda t: t[0].i)) for _, s in ins]
                    nd[k] = mkphi(join, list(zip(vals, deltas, edges)))
            out.mem[root] = nd
        return out

    # ------------------------------------------------------------ running
    def frame_id(self, parent, key):
        k = (parent, key)
        i = self.frames.get(k)
        if i is None:
            i = len(self.frames)
            self.frames[k] = i
        return i

    def run(self, fn, args=None, sub=None, st=None, facts=()):
        """Entry point. Returns (retval, State) or (None, None) if it never returns."""
        fr = Frame()
        fr.id = self.frame_id(None, ('entry', fn.p))
        fr.fn, fr.sub, fr.parent, fr.depth, fr.fns = fn, sub or {}, None, 0, (fn.p,)
        st = st or State()
        if args is None:
            args = [mk('arg', fn.lname(i + 1) or 'a%d' % i) for i in range(fn.argc)]
        for i, a in enumerate(args):
            self.note_ty(a, fn.lty(i + 1))
            self.store(st, mk('loc', fr.id, i + 1), (), a)
        for f, b in facts:
            self.refine(st, f, b)
        return self.body(fr, st)

    def body(self, fr, st):
        fn = fr.fn
        rpo = fn.rpo()
        num = {b: i for i, b in enumerate(rpo)}
        edges = {}   # bb -> {edgekey: State}
        edges[0] = {'entry': st}
        headers = set()
        for b in rpo:
            for s in fn.succ(b):
                if num[s] <= num[b]:
                    headers.add(s)
        heap = [(0, 0)]
        inq = {0}
        visits = {}
        rets = {}
        widened = {}  # header -> {(root,key)}: forced lphi
        hdr_in = {}
        fwd = {}
        while heap:
            _, b = heapq.heappop(heap)
            inq.discard(b)
            self.steps += 1
            if self.steps > self.budget:
                raise Budget('step budget exceeded in %s' % fn.p)
            ins = edges[b]
            visits[b] = visits.get(b, 0) + 1
            if b in headers:
                # what is known on entry changed (an outer loop was refined): what an earlier pass through this loop left behind is out of date
                sig = {ek: (frozenset(s.facts.items()), frozenset((r, frozenset(d.items())) for r, d in s.mem.items())) for ek, s in ins.items() if ek == 'entry' or self._is_fwd(fr, ek, b)}
                if b in fwd and fwd[b] != sig and visits[b] < 40:
                    for h in headers:
                        if fn.dominates(b, h):
                            hdr_in.pop(h, None)
                    for ek in [k for k in ins if k not in sig]:
                        del ins[ek]
                fwd[b] = sig
                cur = self.merge_header(fr, b, ins, widened.setdefault(b, {}), hdr_in.get(b))
                if cur is None:
                    continue
                hdr_in[b] = cur
                cur = cur.copy()
            else:
                lst = sorted(ins.items(), key=lambda t: str(t[0]))
                cur = self.merge(fr, b, lst)
            outs = self.block(fr, b, cur, rets)
            seen = set()
            for (tgt, ek, s) in outs:
                d = edges.setdefault(tgt, {})
                seen.add((tgt, ek))
                d[ek] = s
                if tgt not in inq:
                    inq.add(tgt)
                    heapq.heappush(heap, (num[tgt], tgt))
            # edges from b that became infeasible on a later visit
            for t in fn.succ(b):
                d = edges.get(t)
                if d:
                    for ek in [k for k in d if k != 'entry' and k[0] == b and (t, k) not in seen]:
                        del d[ek]
        if not rets:
            return None, None
        lst = sorted(rets.items())
        if len(lst) == 1:
            s = lst[0][1]
        else:
            s = self.merge(fr, 'ret', lst)
        rv = self.load(s, mk('loc', fr.id, 0), ())
        # drop this frame's locals unless a reference to them escapes
        esc = False
        for x in walk(rv):
            if x.op == 'loc' and x.a[0] == fr.id:
                esc = True
                break
        if not esc and fr.parent is not None:
            for r in [r for r in s.mem if r.op == 'loc' and r.a[0] == fr.id]:
                del s.mem[r]
        return rv, s

    def merge_header(self, fr, b, ins, wid, prev):
        lst = sorted(ins.items(), key=lambda t: str(t[0]))
        facts = dict(lst[0][1].facts)
        for _, s in lst[1:]:
            facts = {k: v for k, v in facts.items() if s.facts.get(k) is v}
        if prev is not None:
            facts = {k: v for k, v in facts.items() if prev.facts.get(k) is v}
        out = State({}, facts)
        roots = {}
        for _, s in lst:
            roots.update(dict.fromkeys(s.mem))
        for root in roots:
            ds = [s.mem.get(root) for _, s in lst]
            if root.op == 'loc' and root.a[0] == fr.id and any(d is None for d in ds):
                continue
            keys = {}
            for d in ds:
                if d:
                    keys.update(dict.fromkeys(d))
            w = wid.setdefault(root, {})
            keys.update(dict.fromkeys(w))
            ks = []
            for k in sorted(keys, key=len):
                if not any(k[:len(p)] == p for p in ks):
                    ks.append(k)
            exact = all(d is not None and d.keys() == keys.keys() for d in ds)
            based = all(d is not None and () in d for d in ds)
            if exact:
                ks = list(keys)
            elif based:
                # the whole, and the parts of it that are kept apart somewhere
                ks = []
                for k in sorted((k for k in keys if k), key=len):
                    if not any(k[:len(p)] == p for p in ks):
                        ks.append(k)
                ks.insert(0, ())
            nd = {}
            for k in ks:
                if k in w:
                    nd[k] = w[k]
                    continue
                vals = [unmasked(s.mem[root][k], k, ks) if based and not k else self.load(s, root, k) for _, s in lst]
                v0 = vals[0]
                if all(v is v0 for v in vals):
                    nd[k] = v0
                else:
                    entry = [v for (ek, _), v in zip(lst, vals) if ek == 'entry' or self._is_fwd(fr, ek, b)]
                    init = entry[0] if len(entry) == 1 else None
                    v = mk('lphi', fr.id, b, root, k, self.hint(vals))
                    if v not in LPHI:
                        LPHI[v] = {}
                    w[k] = v
                    nd[k] = v
                if k in w:
                    pass
            for k, v in w.items():
                if k in nd:
                    info = LPHI.setdefault(v, {})
                    for (ek, s) in lst:
                        info[ek] = self.load(s, root, k)
                        if ek == 'entry' or self._is_fwd(fr, ek, b):
                            LFWD.setdefault(v, set()).add(ek)
            out.mem[root] = nd
        # incoming values for widened slots (for induction reasoning)
        for root, w in wid.items():
            for k, v in w.items():
                info = LPHI.setdefault(v, {})
                for (ek, s) in lst:
                    if root in s.mem:
                        info[ek] = self.load(s, root, k)
        if prev is not None and prev.mem == out.mem and len(prev.facts) == len(out.facts):
            again = {s for s in self.forced if s[0] == fr.id and fr.fn.dominates(b, s[1])}
            if again:
                # the first time around it could not end; now it can
                self.forced -= again
                return out
            return None
        return out

    def hint(self, vals):
        """iterators keep their identity through widening"""
        for v in vals:
            if v.op == 'it':
                return v
        return None

    def _is_fwd(self, fr, ek, b):
        return not fr.fn.dominates(b, ek[0])

    def block(self, fr, b, st, rets):
        fn = fr.fn
        stmts, t = fn.bb[b]
        for i, s in enumerate(stmts):
            rv = s[1]
            k = rv[0]
            if k == 'dead':
                st.mem.pop(mk('loc', fr.id, s[0][0]), None)
                continue
            if k == 'setdisc':
                root, path = self.place(fr, st, s[0])
                self.store(st, root, path, mk('opaque', fr.id, b, i))
                continue
            self.site = (fr.id, b, i)
            v = self.rvalue(fr, st, b, i, rv, s[2])
            root, path = self.place(fr, st, s[0])
            if len(s[0]) == 1:
                self.note_ty(v, fr.fn.lty(s[0][0]))
            self.store(st, root, path, v)
            if root.op != 'loc' or self.on_store_local:
                self.on_store(fr, b, i, root, path, v, st, s[2])
        k = t[0]
        if k == 'goto':
            return [(t[1], (b, 0), st)]
        if k == 'drop':
            return [(t[2], (b, 0), st)]
        if k == 'ret':
            rets[b] = st
            return []
        if k == 'unreach':
            return []
        if k == 'switch':
            return self.switch(fr, b, st, t)
        if k == 'assert':
            c = self.operand(fr, st, t[1])
            ops = [self.operand(fr, st, o) for o in t[4]]
            self.event(fr, b, st, 'assert', None, [c] + ops, t[6], x=t[3])
            if not self.refine(st, c, bool(t[2])):
                return []
            return [(t[5], (b, 0), st)]
        if k == 'call':
            return self.call(fr, b, st, t)
        return []

    on_store_local = False

    def on_store(self, fr, b, i, root, path, v, st, line):
        pass

    def switch(self, fr, b, st, t):
        v = self.operand(fr, st, t[1])
        v = self.simp(st, v)
        outs = []
        cases = t[2]
        if v.op == 'disc':
            x, names = v.a[0], dict(v.a[1])
            rest = dict(names)
            for j, (val, tgt) in enumerate(cases):
                nm = names.get(val)
                rest.pop(val, None)
                s = st.copy()
                if nm is not None and self.refine_isv(s, x, nm, True):
                    outs.append((tgt, (b, j), s))
            s = st.copy()
            good = True
            for val, tgt in cases:
                nm = names.get(val)
                if nm is not None and not self.refine_isv(s, x, nm, False):
                    good = False
            if good and names:
                if not rest:
                    good = False
                elif len(rest) == 1:
                    good = self.refine_isv(s, x, next(iter(rest.values())), True)
                else:
                    # restrict phis to remaining variants
                    pass
            if good and fr.fn.bb[t[3]][1][0] != 'unreach':
                outs.append((t[3], (b, 'o'), s))
            return outs
        isbool = len(cases) == 1 and cases[0][0] == 0 and not self.is_int_val(fr, t[1], v)
        if isbool:
            s = st.copy()
            if self.refine(s, v, False):
                outs.append((cases[0][1], (b, 0), s))
            s = st.copy()
            if self.refine(s, v, True):
                outs.append((t[3], (b, 'o'), s))
            return outs
        # integer / char
        boolty = self.opty(fr, t[1]) == 'bool'
        for j, (val, tgt) in enumerate(cases):
            s = st.copy()
            if boolty:
                good = self.refine(s, v, val != 0)
            else:
                good = self.refine(s, self.inteq(v, val), True)
            if good:
                outs.append((tgt, (b, j), s))
        s = st.copy()
        good = True
        for val, tgt in cases:
            if boolty:
                good = good and self.refine(s, v, val == 0)
            else:
                good = good and self.refine(s, self.inteq(v, val), False)
        if good and fr.fn.bb[t[3]][1][0] != 'unreach':
            outs.append((t[3], (b, 'o'), s))
        return outs

    def inteq(self, v, val):
        if v.op == 'phi':
            alts = PHI[v]
            return mkphi(('eq', v.a[0], val), [(eq0(add(x, K(-val))), f, e) for x, f, e in alts])
        return eq0(add(v, K(-val)))

    def opty(self, fr, o):
        if o[0] == 'k':
            return fr.fn.types[o[1]] if isinstance(o[1], int) else o[1]
        pl = o[1]
        if len(pl) == 1:
            return subst_ty(fr.fn.types[fr.fn.locals[pl[0]][0]], fr.sub)
        return None

    def is_int_val(self, fr, o, v):
        t = self.opty(fr, o)
        if t is not None:
            return t != 'bool'
        return v.op in ('lin',) or iskint(v)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, b, i, rv, line):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, st, rv[1])
        if k in ('ref', 'raw'):
            root, path = self.place(fr, st, rv[2])
            if not path and root.op not in ('loc', 'cst'):
                return root
            return mk('ref', bool(rv[1]), root, path)
        if k == 'cast':
            v = self.operand(fr, st, rv[2])
            to = subst_ty(fr.fn.types[rv[3]], fr.sub)
            frm = subst_ty(fr.fn.types[rv[4]], fr.sub) if len(rv) > 4 else None
            return self.cast(rv[1], v, to, frm, st)
        if k == 'bin':
            a = self.operand(fr, st, rv[2])
            c = self.operand(fr, st, rv[3])
            ty = subst_ty(fr.fn.types[rv[4]], fr.sub)
            return self.binop(rv[1], a, c, ty)
        if k == 'un':
            a = self.operand(fr, st, rv[2])
            if rv[1] == 'Not':
                ty = self.opty(fr, rv[2])
                if ty == 'bool' or a.op in ('le0', 'eq0', 'isv', 'not', 'eq', 'phi') or (a.op == 'k' and a.a[0] == 'bool'):
                    if a.op == 'phi':
                        return mkphi(('not', a.a[0]), [(lnot(x), f, e) for x, f, e in PHI[a]])
                    return lnot(a)
                if iskint(a) and ty in INTW and ty in UNSIGNED:
                    return K((~a.a[1]) & ((1 << INTW[ty]) - 1))
                return mk('bnot', a)
            if rv[1] == 'Neg':
                ty = self.opty(fr, rv[2])
                if ty in INTW:
                    return scale(a, -1)
                return mk('neg', a)
            if rv[1] == 'PtrMetadata':
                return self.len(self.content(st, a)) if a.op == 'ref' else self.len(mk('at', a)) if a.op != 'ref' else None
            return mk('un', rv[1], a)
        if k == 'disc':
            root, path = self.place(fr, st, rv[1])
            v = self.load(st, root, path)
            ty = subst_ty(fr.fn.types[rv[2]], fr.sub)
            return self.disc(v, ty)
        if k == 'agg':
            vs = [self.operand(fr, st, o) for o in rv[2]]
            kk = rv[1]
            if kk[0] == 'tuple':
                return mk('tup', tuple(vs))
            if kk[0] == 'array':
                return mk('arr', tuple(vs))
            if kk[0] == 'adt':
                return adt(kk[1], kk[2], list(zip(kk[4], vs)))
            if kk[0] == 'closure':
                return mk('closure', kk[1], tuple(vs), tuple(sorted((fr.sub or {}).items())))
            return mk('agg', kk[0], tuple(vs))
        if k == 'repeat':
            v = self.operand(fr, st, rv[1])
            n = rv[2]
            n = (fr.sub or {}).get(n, n)
            n = n.split('_')[0]
            try:
                nn = K(int(n))
            except ValueError:
                nn = mk('param', n)
            return mk('repeat', v, nn)
        return mk('opaque', fr.id, b, i)

    def disc(self, v, ty):
        p = self.P.adt_of(ty)
        if p in STD_VARIANTS:
            names = tuple(enumerate(STD_VARIANTS[p]))
        else:
            a = self.P.adts.get(p)
            names = tuple((int(x[1]), x[0]) for x in a['variants']) if a else ()
        if v.op == 'adt':
            for d, n in names:
                if n == v.a[1]:
                    return K(d)
        if v.op == 'disc':
            return v
        return mk('disc', v, names)

    def cast(self, kind, v, to, frm, st):
        if kind.startswith('PointerCoercion'):
            m = re.match(r"(?:&(?:'\w+ )?(?:mut )?|\*(?:const|mut) )\[.*; (\d+)(?:_usize)?\]$", frm or '')
            if m:
                x = self.len(self.content(st, v) if v.op == 'ref' else mk('at', v))
                if x.op == 'len':
                    self.arrlen[x.a[0]] = int(m.group(1))
            return v
        if kind == 'IntToInt':
            if v.op == 'k' and v.a[0] == 'bool':
                return K(int(v.a[1]))
            if iskint(v) and to in INTW:
                w = INTW[to]
                x = v.a[1] & ((1 << w) - 1)
                if to not in UNSIGNED and x >> (w - 1):
                    x -= 1 << w
                return K(x)
            if v.op == 'disc':
                return mk('cast', v, to)
            if frm == 'bool':
                return mk('cast', v, 'int')
            if frm in INTW and to in INTW:
                fu, tu = frm in UNSIGNED, to in UNSIGNED
                fw, tw = INTW[frm], INTW[to]
                if (fu == tu and fw <= tw) or (fu and not tu and fw < tw):
                    return v
                return mk('cast', v, frm + '>' + to)
            return mk('cast', v, (frm or '?') + '>' + to)
        if kind == 'Transmute' or kind == 'PtrToPtr':
            return mk('cast', v, to) if not to.startswith(('*', '&')) else v
        return mk('cast', v, (frm or '?') + '>' + to)

    def note_ty(self, v, ty):
        """remember the integer type a value was used at"""
        if ty in INTW and v.op not in ('k', 'lin', 'mul', 'ovf', 'neg'):
            o = self.ty.get(v)
            if o is None or INTW[ty] < INTW[o] or (INTW[ty] == INTW[o] and ty in UNSIGNED):
                self.ty[v] = ty

    def binop(self, op, a, b, ty):
        isint = ty in INTW and ty not in ('bool',)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if isint:
            self.note_ty(a, ty)
            if base not in ('Shl', 'Shr'):
                self.note_ty(b, ty)
            if base in ('Add', 'Sub', 'Mul'):
                if base == 'Add':
                    r = add(a, b)
                elif base == 'Sub':
                    r = sub(a, b)
                else:
                    r = mul(a, b)
                if op.endswith('WithOverflow'):
                    return tup(r, self.ovf(base, a, b, r, ty))
                return r
            if base in ('Eq', 'Ne'):
                c = self.cmp_eq(a, b)
                return c if base == 'Eq' else self.bnot(c)
            if base == 'Lt':
                return lt(a, b)
            if base == 'Le':
                return le(a, b)
            if base == 'Gt':
                return lt(b, a)
            if base == 'Ge':
                return le(b, a)
            if iskint(a) and iskint(b):
                x, y = a.a[1], b.a[1]
                w = INTW[ty]
                try:
                    r = {'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                         'Shl': lambda: (x << y) & ((1 << w) - 1), 'Shr': lambda: x >> y,
                         'Div': lambda: int(x / y) if x < 0 or y < 0 else x // y,
                         'Rem': lambda: x % y if x >= 0 and y > 0 else None}[base]()
                    if r is not None:
                        return K(r)
                except (KeyError, ZeroDivisionError):
                    pass
            if op.endswith('WithOverflow'):
                return tup(mk('bin', base, a, b), mk('ovfop', base, a, b))
            if base in ('BitAnd', 'BitOr', 'BitXor') and a.i > b.i:
                a, b = b, a
            if base == 'BitAnd':
                for x, y in ((a, b), (b, a)):
                    if iskint(x) and x.a[1] == 0:
                        return K(0)
            if base in ('BitOr', 'BitXor'):
                for x, y in ((a, b), (b, a)):
                    if iskint(x) and x.a[1] == 0:
                        return y
            return mk('bin', base, a, b)
        if ty == 'bool':
            if base == 'Eq':
                return self.cmp_eqv(a, b)
            if base == 'Ne':
                return self.bnot(self.cmp_eqv(a, b))
            if base in ('BitAnd', 'BitOr'):
                if base == 'BitAnd':
                    if FALSE in (a, b):
                        return FALSE
                    if a is TRUE:
                        return b
                    if b is TRUE:
                        return a
                    return mk('and', tuple(sorted((a, b), key=lambda x: x.i)))
                if TRUE in (a, b):
                    return TRUE
                if a is FALSE:
                    return b
                if b is FALSE:
                    return a
                return mk('or', tuple(sorted((a, b), key=lambda x: x.i)))
        if base in ('Eq', 'Ne'):
            c = mk('feq', *sorted((a, b), key=lambda x: x.i)) if ty in ('f32', 'f64') else self.cmp_eqv(a, b)
            return c if base == 'Eq' else self.bnot(c)
        return mk('bin', base, a, b)

    def bnot(self, c):
        if c.op == 'phi':
            return mkphi(('not', c.a[0]), [(lnot(x), f, e) for x, f, e in PHI[c]])
        return lnot(c)

    def cmp_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == 'phi' and (iskint(y)):
                return mkphi(('eq', x.a[0], y), [(self.cmp_eq(z, y), f, e) for z, f, e in PHI[x]])
            if x.op == 'disc' and iskint(y):
                nm = dict(x.a[1]).get(y.a[1])
                if nm:
                    return mk('isv', x.a[0], nm)
        if a.op == 'disc' and b.op == 'disc':
            return self.cmp_eqv(a.a[0], b.a[0])
        if a.op == 'adt' or b.op == 'adt':
            return self.cmp_eqv(a, b)
        return eq0(sub(a, b))

    def cmp_eqv(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == 'phi' and (y.op == 'k' or (y.op == 'adt' and not y.a[2])):
                return mkphi(('eqv', x.a[0], y), [(self.cmp_eqv(z, y), f, e) for z, f, e in PHI[x]])
        return eq(a, b)

    def ovf(self, base, a, b, r, ty):
        """overflow flag of a op b (type ty): as a linear condition where exact"""
        if iskint(r):
            lo, hi = self.range(ty)
            return K(not (lo <= r.a[1] <= hi))
        if base == 'Sub' and ty in UNSIGNED:
            return lt(a, b)
        return mk('ovf', base, a, b, ty)

    def range(self, ty):
        w = INTW[ty]
        return (0, (1 << w) - 1) if ty in UNSIGNED else (-(1 << (w - 1)), (1 << (w - 1)) - 1)

    # ------------------------------------------------------------ calls
    def event(self, fr, b, st, kind, callee, args, line, x=None, val=None):
        if callee is not None and callee.norm.startswith(('core::fmt::', 'alloc::fmt::')):
            return None
        e = Event()
        e.kind, e.callee, e.args, e.x, e.val = kind, callee, args, x, val
        e.cont = [self.content(st, a) for a in args]
        e.facts = st.snap()
        e.file, e.line, e.fn, e.frame, e.bb = fr.fn.file, line, fr.fn.p, fr.id, b
        e.stack = fr.fns
        self.events[(fr.id, b, kind, callee.path if callee else x)] = e
        return e

    def call(self, fr, b, st, t):
        op, aops, dest, target, line = t[1], t[2], t[3], t[4], t[5]
        self.site = (fr.id, b, 'call')
        args = [self.operand(fr, st, o) for o in aops]
        if op[0] == 'k' and 'fn' in op[2]:
            c = resolve_callee(self.P, fr.fn, op[2]['fn'], fr.sub)
        else:
            fv = self.operand(fr, st, op)
            c = None
            if fv.op == 'ref' and self.content(st, fv).op in ('closure', 'fn'):
                fv = self.content(st, fv)
            if fv.op in ('fn', 'closure'):
                r = self.apply(fr, st, fv, args, b, line)
                return self.finish(fr, b, r, dest, target)
            from .prog import Callee
            c = Callee()
            c.path = c.norm = '<indirect>'
            c.fn = None
            c.sub = {}
            c.args = []
            c.trait = None
            c.virt = True
            c.method = '<indirect>'
            c.targs = []
            args = [fv] + args
        r = self.docall(fr, st, c, args, b, line, aops)
        return self.finish(fr, b, r, dest, target)

    def finish(self, fr, b, r, dest, target):
        if r is None or target is None:
            return []
        v, s = r
        if s is None:
            return []
        root, path = self.place(fr, s, dest)
        if len(dest) == 1:
            self.note_ty(v, fr.fn.lty(dest[0]))
        self.store(s, root, path, v)
        if root.op != 'loc':
            self.on_store(fr, b, 'call', root, path, v, s, fr.fn.bb[b][1][5])
        return [(target, (b, 0), s)]

    def docall(self, fr, st, c, args, b, line, aops=None, tag=0):
        """Returns (value, State) or None if it diverges."""
        from . import models
        h = self.pre(fr, st, c, args, b, line)
        if h is not None:
            return h
        if not self.opaque(c):
            m = models.lookup(c)
            if m is not None:
                r = m(self, fr, st, c, args, b, line)
                if r is not NotImplemented:
                    if isinstance(r, V):
                        return r, st
                    return r
            if c.fn is not None and c.fn.is_closure and len(args) == 2 and args[1].op == 'tup' and c.trait and c.trait.startswith('core::ops::function::'):
                # Fn*::call*(closure, (args,)) resolved to the closure body: its arguments arrive untupled
                r = models.m_callfn(self, fr, st, c, args, b, line)
                if r is not NotImplemented:
                    return r
                args = [args[0]] + list(args[1].a[0])
            if c.fn is not None and self.may_inline(c, fr):
                return self.inline_call(fr, st, c.fn, c.sub, args, b, line, tag)
        e = self.event(fr, b, st, 'call', c, args, line)
        r = self.opaque_call(fr, st, c, args, b, line, aops)
        if e is not None and r is not None:
            e.val = r[0]
        return r

    def pre(self, fr, st, c, args, b, line):
        """Hook: return (value, State) to override a call."""
        return None

    def may_inline(self, c, fr):
        if c.fn.p in fr.fns or fr.depth >= self.max_depth:
            return False
        if self.inline is not None:
            r = self.inline(c, fr)
            if r is not None:
                return r
        return len(c.fn.bb) <= 400

    def inline_call(self, fr, st, fn, sub, args, b, line, tag=0):
        f2 = Frame()
        f2.id = self.frame_id(fr.id, (b, fn.p, tag))
        f2.fn, f2.sub, f2.parent, f2.depth = fn, sub, fr, fr.depth + 1
        f2.fns = fr.fns + (fn.p,)
        s = st
        for r in [r for r in s.mem if r.op == 'loc' and r.a[0] == f2.id]:
            del s.mem[r]
        for i, a in enumerate(args):
            self.store(s, mk('loc', f2.id, i + 1), (), a)
        v, so = self.body(f2, s)
        if so is None:
            return None
        return v, so

    def mutrefs(self, st, v, seen, depth=0):
        """Mutable references reachable from an argument value."""
        if depth > 5 or v in seen:
            return
        seen.add(v)
        if v.op == 'ref':
            if v.a[0]:
                yield v
            else:
                c = None
            return
        if v.op in ('adt',):
            for _, x in v.a[2]:
                yield from self.mutrefs(st, x, seen, depth + 1)
        elif v.op in ('tup', 'arr'):
            for x in v.a[0]:
                yield from self.mutrefs(st, x, seen, depth + 1)
        elif v.op == 'closure':
            for x in v.a[1]:
                yield from self.mutrefs(st, x, seen, depth + 1)
        elif v.op in ('it', 'cast', 'cf', 'fld'):
            for x in v.a:
                if isinstance(x, V):
                    yield from self.mutrefs(st, x, seen, depth + 1)

    def argty(self, fr, o):
        t = self.opty(fr, o)
        return t or ''

    def opaque_call(self, fr, st, c, args, b, line, aops=None):
        # canonical argument naming: contents behind shared refs
        named = []
        impure = False
        muts = []
        for i, a in enumerate(args):
            ms = list(self.mutrefs(st, a, set()))
            if not ms and aops is not None and i < len(aops) and self.argty(fr, aops[i]).startswith('&mut') and a.op != 'ref':
                muts.append((a, ()))
                impure = True
            for m in ms:
                muts.append((m.a[1], m.a[2]))
                impure = True
            named.append(self.content(st, a) if a.op == 'ref' else a)
        from . import models
        nonce = None
        if impure or models.impure(c):
            nonce = (fr.id, b)
        v = mk('call', c.norm, tuple(c.args), tuple(named), nonce)
        for root, path in muts:
            if root.op == 'cst':
                continue
            # reference to a slice / array element: contents change, length does not
            old = self.load(st, root, path)
            if path and isinstance(path[-1], V) and path[-1].op == 'slc':
                self.store(st, root, path, mk('mut', fr.id, b))
            elif models.keeps_len(c, old):
                self.store(st, root, path, mk('welem', self.strip_welem(old), mk('mut', fr.id, b)))
            else:
                self.store(st, root, path, mk('mut', fr.id, b, root, path))
        if c.fn is None and not c.virt and c.norm in models.NORETURN:
            return None
        return v, st

    def apply(self, fr, st, f, args, b, line, tag=0):
        """Call a function value. Returns (v, State) or None."""
        if f.op == 'ref' and self.content(st, f).op in ('closure', 'fn'):
            f = self.content(st, f)
        if f.op == 'closure':
            fn = self.P.fns.get(f.a[0])
            if fn is not None and fn.p not in fr.fns and fr.depth < self.max_depth:
                ty = fn.types[fn.locals[1][0]]
                tagk = ('clo', tag)
                fid = self.frame_id(fr.id, (b, fn.p, tagk))
                if ty.startswith('&'):
                    root = mk('loc', 'env%s' % (fid,), 'env')
                    self.store(st, root, (), f)
                    a0 = mk('ref', ty.startswith('&mut'), root, ())
                else:
                    a0 = f
                return self.inline_call(fr, st, fn, dict(f.a[2]), [a0] + list(args), b, line, tagk)
        if f.op == 'fn':
            from .prog import Callee
            c = Callee()
            c.path, sub, fp = f.a[0], dict(f.a[1]), f.a[2]
            c.norm = f.a[3] if f.a[5] and not fp else strip_generics(c.path)
            c.fn = self.P.fns.get(fp) if fp else None
            c.sub = sub
            c.args = list(f.a[4])
            c.trait = f.a[5] or None
            c.virt = False
            c.method = f.a[3].rsplit('::', 1)[-1]
            c.targs = c.args[1:]
            # tuple-variant constructors used as functions
            cv = self.ctor(c.path, args)
            if cv is not None:
                return cv, st
            return self.docall(fr, st, c, args, b, line, tag=('fnv', tag))
        from .prog import Callee
        c = Callee()
        c.path = c.norm = '<indirect>'
        c.fn = None
        c.sub, c.args, c.trait, c.virt, c.method, c.targs = {}, [], None, True, '<indirect>', []
        self.event(fr, b, st, 'call', c, [f] + list(args), line)
        return self.opaque_call(fr, st, c, [f] + list(args), b, line)

    def ctor(self, path, args):
        p = strip_generics(path)
        if '::' in p:
            base, var = p.rsplit('::', 1)
            names = STD_VARIANTS.get(base)
            if names and var in names:
                return adt(base, var, [(str(i), a) for i, a in enumerate(args)])
            a = self.P.adts.get(base)
            if a and a['kind'] == 'enum' and any(v[0] == var for v in a['variants']):
                return adt(base, var, [(str(i), x) for i, x in enumerate(args)])
        a = self.P.adts.get(p)
        if a and a['kind'] == 'struct':
            v = a['variants'][0]
            return adt(p, v[0], [(f[0], x) for f, x in zip(v[2], args)])
        return None

    def split_states(self, fr, key, rs):
        outs = []
        for i, (v, s) in enumerate(rs):
            self.store(s, mk('loc', fr.id, 'split'), (), v)
            outs.append(((key, i), s))
        s = outs[0][1] if len(outs) == 1 else self.merge(fr, ('split', key), outs)
        root = mk('loc', fr.id, 'split')
        v = self.load(s, root, ())
        s.mem.pop(root, None)
        return v, s

    def split2(self, fr, key, rs):
        return self.split_states(fr, key, rs)

    # split the state on a condition, run each side, merge the results
    def split(self, fr, st, key, branches):
        """branches: list of (refiner(state)->bool, runner(state)->(V,State)|None)."""
        outs = []
        for i, (ref, run) in enumerate(branches):
            s = st.copy()
            if not ref(s):
                continue
            r = run(s)
            if r is None:
                continue
            v, so = r if isinstance(r, tuple) else (r, s)
            self.store(so, mk('loc', fr.id, 'split'), (), v)
            outs.append(((key, i), so))
        if not outs:
            return None
        if len(outs) == 1:
            s = outs[0][1]
        else:
            s = self.merge(fr, ('split', key), outs)
        root = mk('loc', fr.id, 'split')
        v = self.load(s, root, ())
        s.mem.pop(root, None)
        return v, s


LPHI = {}
LFWD = {}  # loop value -> incoming edges from outside the loop
