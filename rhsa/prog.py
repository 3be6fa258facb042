"""Loads the MIR dumps into one program: functions by path, impl lookup, type substitution, CFG helpers."""
import json, os, re, gc

CRATES = ['ringhopper_definitions', 'ringhopper_engines_codegen', 'ringhopper_engines', 'ringhopper_primitives',
          'ringhopper_structs_codegen', 'ringhopper_structs', 'ringhopper', 'invader']


class Fn:
    __slots__ = ('d', 'p', 'n', 'crate', 'types', 'file', 'line', 'bb', 'locals', 'argc', 'gen', '_succ', '_rpo', '_dom', '_pred', 'prom_of')

    def __init__(self, d, crate, types):
        self.d = d
        self.p = d.get('p')
        self.n = d.get('n')
        self.crate = crate
        self.types = types
        self.file = d.get('file')
        self.line = d.get('line')
        self.bb = d['bb']
        self.locals = d['locals']
        self.argc = d['argc']
        self.gen = d.get('gen', [])
        self._succ = self._rpo = self._dom = self._pred = None
        self.prom_of = None

    def ty(self, i):
        return self.types[i] if isinstance(i, int) else i

    def lty(self, i):
        return self.types[self.locals[i][0]]

    def lname(self, i):
        l = self.locals[i]
        return l[1] if len(l) > 1 else None

    @property
    def trait(self):
        t = self.d.get('trait')
        return t[0] if t else None

    @property
    def selfty(self):
        s = self.d.get('self')
        return self.types[s] if s is not None else None

    @property
    def is_closure(self):
        return self.d.get('kind') == 'Closure'

    @property
    def parent(self):
        return self.d.get('parent')

    def promoted(self, i):
        b = dict(self.d['prom'][i])
        b['p'] = self.p + '::promoted#%d' % i
        b['n'] = 'promoted'
        b['gen'] = self.gen
        b['file'] = self.file
        b['line'] = self.line
        return Fn(b, self.crate, self.types)

    def succ(self, b):
        return succs(self.bb[b][1])

    def calls(self):
        """(bb, term) of every call terminator."""
        for i, (st, t) in enumerate(self.bb):
            if t[0] == 'call':
                yield i, t

    def rpo(self):
        if self._rpo is None:
            seen = set()
            order = []
            st = [(0, iter(self.succ(0)))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ(s))))
                        break
                else:
                    order.append(b)
                    st.pop()
            order.reverse()
            self._rpo = order
        return self._rpo

    def preds(self):
        if self._pred is None:
            p = {}
            for b in self.rpo():
                for s in self.succ(b):
                    p.setdefault(s, []).append(b)
            self._pred = p
        return self._pred

    def idom(self):
        if self._dom is None:
            rpo = self.rpo()
            num = {b: i for i, b in enumerate(rpo)}
            idom = {rpo[0]: rpo[0]}
            pr = self.preds()
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    new = None
                    for p in pr.get(b, ()):
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while num[x] > num[y]:
                                        x = idom[x]
                                    while num[y] > num[x]:
                                        y = idom[y]
                                new = x
                    if idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        d = self.idom()
        if b not in d:
            return True
        while True:
            if a == b:
                return True
            n = d[b]
            if n == b:
                return False
            b = n

    def __repr__(self):
        return '<Fn %s>' % self.p


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    return []


_ident = re.compile(r"(?<![\w:'])([A-Za-z_]\w*)(?![\w]|::)")
_subcache = {}


def subst_ty(s, m):
    if not m:
        return s
    key = (s, tuple(sorted(m.items())))
    r = _subcache.get(key)
    if r is None:
        r = _ident.sub(lambda x: m.get(x.group(1), x.group(1)), s)
        _subcache[key] = r
    return r


def balanced(s):
    d = 0
    for i, c in enumerate(s):
        if c in '<([{':
            d += 1
        elif c in '>)]}':
            if c == '>' and i and s[i - 1] == '-':
                continue
            d -= 1
            if d < 0:
                return False
    return d == 0


_patcache = {}


def unify(pat, gens, ty):
    """Match type pattern `pat` with generics `gens` against concrete type string; returns dict or None."""
    key = (pat, tuple(gens))
    rx = _patcache.get(key)
    if rx is None:
        out = ''
        pos = 0
        seen = set()
        for m in _ident.finditer(pat):
            if m.group(1) in gens:
                out += re.escape(pat[pos:m.start()])
                g = m.group(1)
                out += '(?P=%s)' % g if g in seen else '(?P<%s>.+)' % g
                seen.add(g)
                pos = m.end()
        out += re.escape(pat[pos:])
        rx = re.compile(out)
        _patcache[key] = rx
    m = rx.fullmatch(ty)
    if not m:
        return None
    d = m.groupdict()
    for v in d.values():
        if not balanced(v):
            return None
    return d


def strip_generics(p):
    """core::option::Option::<T>::map -> core::option::Option::map (turbofish only)."""
    if '::<' not in p:
        return p
    out = []
    i = 0
    while i < len(p):
        if p.startswith('::<', i):
            d = 0
            j = i + 2
            while j < len(p):
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
        else:
            out.append(p[i])
            i += 1
    return ''.join(out)


class Program:
    def __init__(self, dumpdir, crates=None):
        self.fns = {}
        self.crates = {}
        self.consts = {}
        self.adts = {}
        self.impls = []       # (trait, selfty, args, items, preds, crate)
        self.impl_index = {}  # (trait, method) -> [Fn]
        self.trait_impls = {}
        self.closures_of = {}
        gc.disable()
        for c in crates or CRATES:
            path = os.path.join(dumpdir, c + '.json')
            with open(path) as f:
                d = json.load(f)
            types = d['types']
            self.crates[c] = d
            for k, v in d['adts'].items():
                if k not in self.adts or v['local']:
                    self.adts[k] = v
            for fd in d['fns']:
                fn = Fn(fd, c, types)
                if fn.p in self.fns:
                    # e.g. closures with equal printed paths: disambiguate
                    n = 2
                    while '%s@%d' % (fn.p, n) in self.fns:
                        n += 1
                    fn.p = '%s@%d' % (fn.p, n)
                self.fns[fn.p] = fn
                if fn.is_closure:
                    self.closures_of.setdefault(fn.parent, []).append(fn)
                elif fn.trait and fd.get('self') is not None:
                    self.impl_index.setdefault((fn.trait, fn.n), []).append(fn)
            for k in d['consts']:
                self.consts[k['p']] = dict(k, tys=types[k['ty']], crate=c)
            for i in d['impls']:
                t = (i[0], types[i[1]], [types[x] if isinstance(x, int) else x for x in i[2]], i[3], [(types[a], b) for a, b in i[4]], c)
                self.impls.append(t)
                self.trait_impls.setdefault(i[0], []).append(t)
        gc.enable()
        self._satcache = {}
        self._rescache = {}
        self._pathgens = {}

    # ---- types
    def adt_of(self, ty):
        """ADT path of a type string (strips references, generics)."""
        t = ty
        while t.startswith('&') or t.startswith('*'):
            t = t.lstrip('&*')
            if t.startswith('mut '):
                t = t[4:]
            elif t.startswith('const '):
                t = t[6:]
            t = t.strip()
        i = t.find('<')
        if i > 0:
            t = t[:i]
        return t

    def implements(self, ty, trait):
        k = (ty, trait)
        if k in self._satcache:
            return self._satcache[k]
        self._satcache[k] = False
        r = False
        if trait.startswith('core::') or trait.startswith('alloc::') or trait.startswith('std::') or trait.startswith('byteorder::'):
            r = True
        else:
            for (tr, st, args, items, preds, c) in self.trait_impls.get(trait, ()):
                gens = self._gens_in(st, preds)
                m = unify(st, gens, ty)
                if m is None:
                    continue
                if all(self.implements(subst_ty(a, m), b) for a, b in preds if b != trait or a != st):
                    r = True
                    break
        self._satcache[k] = r
        return r

    def _gens_in(self, st, preds):
        g = set()
        for a, b in preds:
            if re.fullmatch(r'[A-Z]\w*', a):
                g.add(a)
        if re.fullmatch(r'[A-Z]\w{0,2}', st):
            g.add(st)
        for m in _ident.finditer(st):
            if re.fullmatch(r'[A-Z]\d?', m.group(1)):
                g.add(m.group(1))
        return sorted(g)

    def resolve_trait(self, trait, method, selfty, targs=()):
        """Resolve <selfty as trait<targs>>::method to (Fn, substs) or None."""
        key = (trait, method, selfty, tuple(targs))
        if key in self._rescache:
            return self._rescache[key]
        best = None
        for fn in self.impl_index.get((trait, method), ()):
            st = fn.selfty
            gens = [g for g in fn.gen if g != 'Self']
            m = unify(st, gens, selfty)
            if m is None:
                continue
            ta = [fn.types[x] if isinstance(x, int) else x for x in fn.d['trait'][1]][1:]
            ok = True
            mm = dict(m)
            for a, b in zip(ta, targs):
                u = unify(subst_ty(a, mm), gens, b)
                if u is None:
                    ok = False
                    break
                mm.update(u)
            if not ok:
                continue
            # blanket impl: check bounds
            if re.fullmatch(r'[A-Z]\w*', st) and st in gens:
                preds = None
                for (tr, s2, args, items, pr, c) in self.trait_impls.get(trait, ()):
                    if s2 == st and c == fn.crate:
                        preds = pr
                if preds and not all(self.implements(subst_ty(a, mm), b) for a, b in preds):
                    continue
                if best is None:
                    best = (fn, mm)
                continue
            best = (fn, mm)
            break
        if best is None:
            # default method of the trait (never for a type parameter: its impl is unknown)
            fn = self.fns.get(trait + '::' + method)
            if fn is not None and not re.fullmatch(r'[A-Z][A-Z]?\d?', selfty):
                best = (fn, {'Self': selfty})
        self._rescache[key] = best
        return best

    def callee(self, fn, op, sub=None):
        """Resolve a call operand. Returns Callee."""
        return resolve_callee(self, fn, op, sub)

    def fn_by_suffix(self, suffix, crate=None):
        r = [f for p, f in self.fns.items() if (p == suffix or p.endswith('::' + suffix)) and (crate is None or f.crate == crate)]
        return r

    def one(self, suffix, crate=None):
        r = self.fn_by_suffix(suffix, crate)
        return r[0] if len(r) == 1 else None


class Callee:
    __slots__ = ('path', 'norm', 'fn', 'sub', 'args', 'trait', 'virt', 'method', 'targs')

    def __repr__(self):
        return 'Callee(%s)' % self.path


def resolve_callee(P, fn, fd, sub):
    """fd: the {"f","a","r","v","t"} dict. sub: substitution for the caller's generics."""
    c = Callee()
    args = [subst_ty(fn.types[x], sub) if isinstance(x, int) else subst_ty(x, sub or {}) for x in fd['a']]
    c.args = args
    c.trait = fd['t']
    c.virt = fd['v']
    c.path = fd['f']
    c.method = fd['f'].rsplit('::', 1)[-1]
    c.fn = None
    c.sub = {}
    c.targs = args[1:]
    r = fd['r']
    if isinstance(r, list):
        c.path = r[0]
        t = P.fns.get(r[0])
        if t is not None:
            c.fn = t
            a = [subst_ty(fn.types[x], sub) if isinstance(x, int) else subst_ty(x, sub or {}) for x in r[1]]
            c.sub = dict(zip(t.gen, a))
    elif r == 1:
        t = P.fns.get(fd['f'])
        if t is not None:
            c.fn = t
            c.sub = dict(zip(t.gen, args))
    elif r is None and c.trait and not c.virt and args:
        x = P.resolve_trait(c.trait, c.method, args[0], args[1:])
        if x is not None:
            t, m = x
            c.fn = t
            c.sub = dict(m)
            c.path = t.p
            # method-level generics: the tail of args
            own = [g for g in t.gen if g not in c.sub]
            if own and len(args) >= len(own):
                c.sub.update(zip(own, args[-len(own):]))
        elif c.trait.startswith('ringhopper'):
            pass
    c.norm = strip_generics(c.path)
    return c
