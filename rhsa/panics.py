"""Freedom from panics, function by function: every assertion, index, slice and unwrap of an abstractly evaluated body is discharged from the
branch facts, or made a condition on the caller where the function is a reader with an agreed contract."""
import os
import re
from .arith import Arith
from .build import REPO
from .ev import Ev, State, INTW
from .layout import SIMPLE, TAGDATA, alts
from .prog import subst_ty
from .val import *

READS = ('read', 'read_from_tag_file', 'read_from_map')
# functions of the standard library that panic unless a condition on their arguments holds
SLICEFN = ('core::slice::', 'alloc::slice::', 'alloc::vec::Vec::', 'core::str::', 'alloc::string::String::')


class PanicEv(Ev):
    """readers of other structures are judged on their own"""

    def __init__(self, P, owner, root, **k):
        super().__init__(P, **k)
        self.owner = owner
        self.rootp = root

    def pre(self, fr, st, c, args, b, line):
        if c.trait in (SIMPLE, TAGDATA) and c.method in READS and c.fn is not None and c.fn.p != self.rootp and self.owner.judged(c):
            self.event(fr, b, st, 'reader', c, args, line)
            return self.opaque_call(fr, st, c, args, b, line)
        return None


class Panics:
    def __init__(self, P, R):
        self.P = P
        self.R = R
        self.todo = []
        self.seen = set()
        self.single = {}

    def judged(self, c):
        return True

    def apart(self, ev, e, tag):
        """left undecided by the wording of the property"""
        return False

    # ------------------------------------------------------------ sizes
    def size(self, ty):
        for tr, m in ((SIMPLE, 'simple_size'), (TAGDATA, 'size')):
            r = self.P.resolve_trait(tr, m, ty)
            if r is not None and not (tr == TAGDATA and r[0].selfty == 'T'):
                v, st = Ev(self.P).run(r[0], sub=r[1])
                return kval(v) if v is not None and iskint(v) else None
        return None

    # ------------------------------------------------------------ one function
    def run(self, f, sub=None, mode=None, ty=None, opaque=None):
        R = self.R
        R.fn(f)
        k = {'opaque': opaque} if opaque else {}
        ev = PanicEv(self.P, self, f.p, **k)
        ar = ev.arith = Arith(ev)
        st = self.known(ev, f)
        ev.mode = mode
        if mode == 'S':
            ev.addfact(st, mk('isv', mk('at', mk('arg', f.lname(3))), 'BSP'), True)
        elif mode is not None:
            data, at, end = (mk('arg', f.lname(i)) for i in (1, 2, 3))
            for a in (at, end):
                ev.note_ty(a, 'usize')
            ev.addfact(st, self.contract(mode, data, at, end, self.size(ty)), True)
            if mode == 'B':
                ev.addfact(st, le(add(at, K(self.size(ty))), K(1 << 62)), True)
        ev.run(f, sub=sub or {}, st=st)
        name = short_fn(f.p) if ty is None else short_ty(ty) + '::' + f.p.rsplit('::', 1)[-1]
        for e in list(ev.events.values()):
            self.event(ev, ar, e, name)
        return ev

    def known(self, ev, f):
        st = State()
        for i in range(1, f.argc + 1):
            m = re.match(r"&(?:'\w+ )?(?:mut )?\[\w+; (\d+)(?:_usize)?\]$", f.lty(i))
            if m:
                ev.addfact(st, eq0(sub_(mk('len', mk('at', mk('arg', f.lname(i)))), int(m.group(1)))), True)
        return st

    def line(self, file, n):
        try:
            return open(os.path.join(REPO, file)).read().split('\n')[n - 1]
        except (OSError, IndexError):
            return ''

    def contract(self, mode, data, at, end, size):
        if mode == 'A':
            return le(add(at, K(size)), end)
        return le(mk('len', mk('at', data)), end)

    def event(self, ev, ar, e, name):
        w = '%s:%s (%s)' % (e.file, e.line, e.fn)
        what, bad = self.judged_richly(ev, ar, e)
        if what is None:
            return
        self.R.ob(what)
        if bad is None or self.alone(ev, e):
            return
        tag, msg = bad
        if self.apart(ev, e, tag):
            return
        self.R.viol('%s:%s:%s' % (name, tag, short_fn(e.fn)), msg, w)

    def alone(self, ev, e):
        """the function around it holds up without anything known of its caller"""
        for p in reversed(e.stack):
            f = self.P.fns.get(p)
            if f is None or f.is_closure or f.gen or p == ev.rootp:
                continue
            if p not in self.single:
                self.single[p] = None
                k = {'opaque': ev.opaque} if getattr(ev, 'opaque', None) else {}
                e2 = PanicEv(self.P, self, p, **k)
                a2 = e2.arith = Arith(e2)
                e2.run(f, st=self.known(e2, f))
                res = {}
                for x in list(e2.events.values()):
                    what, bad = self.judged_richly(e2, a2, x)
                    if what is not None:
                        res.setdefault((x.fn, x.bb, x.kind, x.x), []).append(bad is None)
                self.single[p] = res
            res = self.single[p]
            if res and all(res.get((e.fn, e.bb, e.kind, e.x), [False])):
                return True
        return False

    def judged_richly(self, ev, ar, e):
        what, bad = self.judge(ev, ar, e)
        if bad is not None:
            f = self.enriched(e.facts)
            if f is not e.facts:
                e.facts = f
                what, bad = self.judge(ev, ar, e)
        return what, bad

    def enriched(self, facts):
        """facts, with what a successful reading of a structure says of the size of the data"""
        more = {}
        for c, t in facts.items():
            if t and c.op == 'isv' and c.a[1] == 'Ok' and c.a[0].op == 'call' and c.a[0].a[0].rsplit('::', 1)[-1] in ('read', 'read_from_tag_file'):
                y = c.a[0]
                n = self.ensures(y.a[0].rsplit('::', 1)[-1], y.a[1][0]) if y.a[1] and len(y.a[2]) >= 3 else None
                if n is not None:
                    x = y.a[2][0]
                    more[le(add(y.a[2][1], K(n)), mk('len', mk('at', x)) if x.op != 'slice' else self_len(x))] = True
        if not more:
            return facts
        more.update(facts)
        return more

    def ensures(self, m, ty):
        """size of a structure that is read successfully only where the data holds all of it, as its reader tells"""
        k = ('ensures', m, ty)
        if k in self.single:
            return self.single[k]
        self.single[k] = None
        r = self.P.resolve_trait(TAGDATA if m == 'read_from_tag_file' else SIMPLE, m, ty)
        n = self.size(ty)
        if r is None or n is None or r[0].gen and not r[1]:
            return None
        f, sb = r
        ev = Ev(self.P)
        ar = ev.arith = Arith(ev)
        st = State()
        data, at, end = (mk('arg', f.lname(i)) for i in (1, 2, 3))
        for a in (at, end):
            ev.note_ty(a, 'usize')
        ev.addfact(st, le(add(at, K(n)), end), True)
        v, st = ev.run(f, sub=sb, st=st)
        if v is None:
            return None
        goal = le(add(at, K(n)), mk('len', mk('at', data)))
        good = True
        for y, fs in alts(v):
            if y.op == 'adt' and y.a[1] == 'Err':
                continue
            ff = dict(st.facts)
            ff.update(fs)
            if not ar.prove(ff, goal):
                good = False
        self.single[k] = n if good else None
        return self.single[k]

    def judge(self, ev, ar, e):
        """(what kind of obligation, None or (tag, message))"""
        if e.kind == 'assert':
            if e.x == 'other' and pointer_check(e.args[0]):
                return None, None
            want = e.args[0] if not e.x.startswith(('overflow', 'div', 'rem')) or e.x in ('overflow:Shl', 'overflow:Shr') else lnot(e.args[0])
            return 'arithmetic and bounds assertions', None if ar.prove(e.facts, want) else (e.x, 'an assertion made by the compiler (%s) may fail: %s' % (e.x, show(want, 4)))
        if e.kind == 'index':
            ix, ln = e.args[1:3]
            good = ar.prove(e.facts, lt(ix, ln)) if e.x == 'idx' else self.slice_ok(ar, e.facts, ix, ln)
            return 'index and slice expressions', None if good else ('index', 'an index or slice may be out of bounds: %s of %s' % (show(ix, 4), show(ln, 3)))
        if e.kind == 'unwrap':
            return 'unwraps', None if self.is_variant(ev, ar, e.facts, e.args[0], e.x) else ('unwrap', 'a value taken for granted may be missing: %s' % show(e.args[0], 4))
        if e.kind == 'panic':
            if 'debug_assert' in self.line(e.file, e.line):
                return None, None
            return 'explicit panics', None if self.impossible(ar, e.facts) else ('panic', 'an explicit panic can be reached')
        if e.kind == 'alloc':
            n = e.args[-1] if e.callee.method != 'resize' else e.args[1]
            good = self.bounded(ar, e.facts, n, (e.callee.args or ['?'])[0])
            return 'allocations', None if good else ('alloc', 'the amount of memory asked for is not bounded by the size of the data: %s' % show(n, 4))
        if e.kind == 'reader':
            return 'readers called', self.reader(ev, ar, e)
        if e.kind == 'call':
            cond = self.requires(ev, e)
            if cond is not None:
                m = e.callee.method
                return 'library calls with conditions', None if ar.prove(e.facts, cond) else (m, 'what %s requires may not hold: %s' % (m, show(cond, 4)))
        return None, None

    def reader(self, ev, ar, e):
        c = e.callee
        ty = c.args[0]
        mode = None
        if c.method != 'read_from_map':
            mode, data, at, end = self.fits(ev, ar, e)
            if mode is None:
                return 'reader:' + short_ty(ty), 'a reader of %s is called without the structure having been made sure to fit: at %s, end %s' % (short_ty(ty), show(at, 4), show(end, 4))
        elif ty.endswith('::ScenarioStructureBSP') or ev.mode == 'S' and len(e.args) > 2 and e.args[2] is mk('arg', self.P.fns[ev.rootp].lname(3)):
            mode = 'S'
        sub = dict(c.sub)
        k = (c.fn.p, tuple(sorted(sub.items())), mode)
        if k not in self.seen:
            self.seen.add(k)
            self.todo.append((c.fn, sub, mode, ty))
        return None

    def fits(self, ev, ar, e):
        data, at, end = e.args[0], e.args[1], e.args[2]
        size = self.size(e.callee.args[0])
        mode = None
        lns = [mk('len', mk('at', data))] + ([ev.len(e.cont[0])] if e.cont[0] is not None else [])
        if size is None:
            pass
        elif ar.prove(e.facts, le(add(at, K(size)), end)):
            mode = 'A'
        elif any(ar.prove(e.facts, le(ln, end)) for ln in lns) and ar.prove(e.facts, le(add(at, K(size)), K(1 << 62))):
            mode = 'B'
        return mode, data, at, end

    def drain(self):
        while self.todo:
            f, sub, mode, ty = self.todo.pop()
            self.run(f, sub, mode, ty)

    # ------------------------------------------------------------ conditions
    def slice_ok(self, ar, facts, ix, ln):
        if ix.op != 'adt':
            return False
        d = dict(ix.a[2])
        nm = ix.a[0].rsplit('::', 1)[-1]
        s, en = d.get('start', K(0)), d.get('end', ln)
        if nm in ('RangeInclusive', 'RangeToInclusive'):
            en = add(d.get('last', d.get('end', en)), K(1))
        return ar.prove(facts, le(s, en)) and ar.prove(facts, le(en, ln))

    def requires(self, ev, e):
        c, m = e.callee, e.callee.method
        n = c.norm
        if n.startswith(SLICEFN):
            ln = lambda i: ev.len(e.cont[i]) if e.cont[i] is not None else mk('len', mk('at', e.args[i]))
            if m in ('split_at', 'split_at_mut'):
                return le(e.args[1], ln(0))
            if m in ('copy_from_slice', 'clone_from_slice'):
                return eq0(sub(ln(0), ln(1)))
            if m in ('chunks', 'chunks_exact', 'chunks_mut', 'chunks_exact_mut', 'windows', 'rchunks'):
                return lnot(eq0(e.args[1]))
            if m in ('remove', 'swap_remove') and 'Vec' in n:
                return lt(e.args[1], ln(0))
            if m in ('split_off', 'insert') and 'Vec' in n:
                return le(e.args[1], ln(0))
        if c.trait and c.trait.endswith('byteorder::ByteOrder') or n.startswith('byteorder::'):
            w = re.match(r'(read|write)_[uif](\d+)$', m)
            if w:
                ln = ev.len(e.cont[0]) if e.cont[0] is not None else mk('len', mk('at', e.args[0]))
                return le(K(int(w.group(2)) // 8), ln)
        return None

    def is_variant(self, ev, ar, facts, v, want):
        if facts.get(mk('isv', v, want)) is True:
            return True
        for y, fs in alts(v):
            if y.op == 'adt' and y.a[1] == want:
                continue
            ff = dict(facts)
            clash = False
            for c, t in fs:
                if ff.get(c, t) is not t:
                    clash = True
                ff[c] = t
            if clash or ff.get(mk('isv', y, want)) is True:
                continue
            if y.op == 'adt' and self.impossible(ar, ff, [c for c, t in fs]):
                continue
            if want == 'Some' and y.op == 'collected' and y.a[0] in ('max', 'min', 'last') and self.nonempty(ev, ar, ff, y.a[2]):
                continue
            if want == 'Ok' and y.op == 'call' and self.total(ev, ar, ff, y):
                continue
            return False
        return True

    def impossible(self, ar, facts, first=()):
        """the facts contradict each other"""
        order = list(first) + [c for c in reversed(list(facts)) if c not in first]
        n = 0
        for c in order:
            t = facts.get(c)
            if c.op not in ('le0', 'eq0', 'not', 'ovf', 'and', 'or') or t is None:
                continue
            n += 1
            if n > 14:
                break
            neg = c if not t else lnot(c)
            if t and c.op == 'eq0':
                neg = mk('not', c)
            rest = {k: v for k, v in facts.items() if k is not c}
            if t and c.op == 'eq0':
                if ar.prove(rest, le0(add(c.a[0], K(1)))) or ar.prove(rest, le0(sub(K(1), c.a[0]))):
                    return True
            elif ar.prove(rest, neg):
                return True
        return False

    def nonempty(self, ev, ar, facts, site):
        n = ev.itercount.get(site)
        return n is not None and ar.prove(facts, le(K(1), n))

    def bounded(self, ar, facts, n, elem):
        if iskint(n):
            return kval(n) <= 1 << 24
        if elem in ('u8', 'i8') and ar.prove(facts, le(n, K(1 << 32))):
            return True
        if ar.prove(facts, le(n, K(1 << 24))):
            return True
        for x in {x for c in facts for x in walk(c) if x.op == 'len'} | {x for x in walk(n) if x.op == 'len'}:
            if ar.prove(facts, le(n, scale(x, 4))):
                return True
        return False

    def total(self, ev, ar, facts, y):
        """calls that cannot fail on what they are given"""
        m = y.a[0].rsplit('::', 1)[-1]
        if m == 'from_bytes_until_nul':
            return has_nul(ev, ar, y.a[2][0])
        if m in ('try_from', 'try_into') and len(y.a[1]) > 1:
            for t in y.a[1]:
                k = re.match(r"(?:&(?:'\w+ )?)?\[u8; (\d+)", t)
                if k:
                    x = y.a[2][0]
                    x = x if x.op == 'slice' else mk('at', x)
                    return ar.prove(facts, eq0(sub(ev.len(x), K(int(k.group(1))))))
        return False


def self_len(x):
    return add(x.a[2], x.a[1], -1)


def pointer_check(c):
    """checks of raw pointers the compiler adds to what macros of the standard library expand to"""
    return any(x.op == 'cast' and isinstance(x.a[1], str) and '*' in x.a[1] for x in walk(c))


def sub_(a, n):
    return add(a, K(-n))


def has_nul(ev, ar, x):
    """bytes whose tail, at least one long, was filled with zeros"""
    if x.op != 'welem' or x.a[1].op != 'mut':
        return False
    site = x.a[1].a
    for e in ev.events.values():
        if e.kind == 'call' and e.callee.method == 'fill' and e.frame == site[0] and e.args[1] is K(0):
            t = e.args[0]
            if t.op == 'fld' and t.a[1] in ('1', 1) and t.a[0].op == 'call' and t.a[0].a[0].endswith('split_at_mut') and t.a[0].a[3] == site[:2]:
                k = t.a[0].a[2][1]
                return ar.prove(e.facts, lt(k, ev.len(x)))
    return False


def short_fn(n):
    n = re.sub(r'<[^<>]*>', '', n.replace('ringhopper::', '').replace('ringhopper_primitives::', ''))
    return n.strip('<>:')[-70:]


def short_ty(t):
    return re.sub(r'\b(?:[A-Za-z_][A-Za-z0-9_]*::)+', '', t)
