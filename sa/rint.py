"""Random interpretation of value numbers (after Gulwani and Necula).

Two value numbers with different normal forms are separated when some
interpretation of their free symbols and uninterpreted operations gives them
different values.  Nothing of the analysed program runs here: the domain is the
value-number graph itself, with loops as the summarised recurrences.
"""
import math
import time
from hashlib import blake2b
from fractions import Fraction as Fr
import terms as TM
from terms import T, D, NODES, const_of

FMT = '%.8e'           # digits of a number used as a hash key
NAN = ('nan',)
CAP = 130


class Invalid(Exception):
    """the interpretation does not give the term a value

    need: (decision, outcome) which would have avoided that"""

    def __init__(self, why='', need=None):
        Exception.__init__(self, why)
        self.need = need


class Dec:
    __slots__ = ('kind', 'data')

    def __init__(self, kind, data):
        self.kind, self.data = kind, data


def fnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def rnd(x):
    """hash key of an evaluated value"""
    if isinstance(x, bool):
        return ('b', x)
    if isinstance(x, (int, float)):
        if x != x or x in (math.inf, -math.inf):
            raise Invalid('nan')
        if abs(x) < 1e-9:
            return 0
        if abs(x) < 1e15 and abs(x - round(x)) < 1e-9 * max(1, abs(x)):
            return int(round(x))
        return float(FMT % x)
    if isinstance(x, tuple):
        if x[:1] == ('t',):
            return x
        i = id(x)
        r = _rc.get(i)
        if r is not None and r[0] is x and r[2] is FMT:
            return r[1]
        v = tuple([rnd(y) for y in x])
        if len(x) > 1 and x[0] in ('o', 'q'):
            v = ('#', blake2b(repr(v).encode(), digest_size=12).digest())
        if len(_rc) > 400000:
            _rc.clear()
        _rc[i] = (x, v, FMT)
        return v
    return x


_rc = {}
STEPS = 60000

COMPUTED = set('sqrt P size sum loop exists first pow idiv mod floor ceil trunc round nearbyint div0 == push_back after last '
               'mapupd mapcat append pop_back bit& bit| bit^ bit<< bit>> e2i'.split())
FREEFN = set('acos acosh log10 log2 expm1 log1p erfc tgamma lgamma asin tan atan sinh tanh asinh atanh cbrt erf cosh '
             'sin cos exp log'.split())


class Env:
    """one interpretation"""

    def __init__(self, seed, mode, pool, lits):
        self.seed = seed
        self.mode = mode
        self.pool = pool          # interesting numeric constants
        self.lits = lits          # tag/type -> list of literals
        self.memo = {}
        self.bound = {}
        self.steps = 0
        self.maxsteps = STEPS
        self.hm = {}
        self.forced_h = {}
        self.solved_h = {}
        self.solved_b = {}
        self.solved_l = {}
        self.hfl = {}
        self.conflict = False
        self.caps = {}
        self.scale = {}
        self.cov = set()
        self.decided = []
        self.solved_e = {}
        self.solved_n = {}
        self.clock = None
        self.stuck = None
        self.twin = None
        self.twins = {}
        self.kin = {}
        # now and then longer sequences made of the strings compared with
        self.big = sum(len(v) for k, v in lits.items() if k[0] == 's') > 2 and self.h('big') % 5 == 0

    def clear(self):
        self.memo = {}
        self.cov = set()

    def h(self, key):
        r = self.hm.get(key)
        if r is None:
            d = blake2b(repr((self.seed, key)).encode(), digest_size=8).digest()
            r = self.hm[key] = int.from_bytes(d, 'little')
        return r

    def token_of(self, t):
        """hash of the token that stands for an opaque term"""
        if t.fv or t.tag not in ('sym', 'sel', 'app', 'deref'):
            return None
        if True:
            try:
                if t.tag == 'sym':
                    v = self.tok('sym', t.args[0])
                elif t.tag == 'sel':
                    v = self.sel(self.ev(t.args[0]), self.comp(t.args[1]))
                elif t.tag == 'app' and t.args[0] not in COMPUTED and t.args[0] not in FREEFN:
                    v = self.tok(t.args[0], tuple(self.arg(x) for x in t.args[1:]))
                elif t.tag == 'app' and t.args[0] == 'size':
                    v = self.ev(t.args[1])
                    while isinstance(v, tuple) and v[0] in ('q', 'o') and v[1] != '':
                        v = v[1]
                    if not (isinstance(v, tuple) and v[0] == 't'):
                        return None
                    v = self.tok('size', v)
                else:
                    return None
            except Invalid:
                return None
            if isinstance(v, tuple) and v[0] == 't':
                return v[1]
        return None

    def force(self, forced):
        for tid, vals in forced.items():
            if tid == 'eqs':
                continue
            h = self.token_of(NODES[tid])
            if h is not None:
                self.forced_h[h] = vals
        self.clear()
        # boundary cases: make the two sides of a few comparisons equal
        for q, c, lin in forced.get('eqs', ()):
            k = self.h(('solve', q.id, str(c)))
            if k % 4:
                continue
            aid, cc = lin[(k >> 8) % len(lin)]
            h = self.token_of(NODES[aid])
            if h is None:
                continue
            try:
                self.solved_h[h] = 0
                self.clear()
                rest = self.evn(q)
                v = (float(c) - rest) / float(cc)
                if NODES[aid].isint and v != int(v) or NODES[aid].nonneg and v < 0:
                    self.solved_h.pop(h)
                else:
                    self.solved_h[h] = v
            except (Invalid, ZeroDivisionError, OverflowError):
                self.solved_h.pop(h, None)
        self.clear()

    def guide(self, d, avoid=None):
        """choose the values of opaque terms such that the decisions of d lead
        to a leaf other than `avoid` (avoid=None: along a path picked at
        random)"""
        for _ in range(60):
            if not isinstance(d, D):
                return True
            try:
                v = bool(self.var(d.var))
            except Invalid:
                return False
            a, b = (d.hi, d.lo) if v else (d.lo, d.hi)
            if avoid is not None:
                bad = a is avoid
            else:
                bad = (self.h(('guide', d.id)) >> 9) & 1
            if not bad:
                d = a
                continue
            self.steps = 0
            if not self.decide(d.var, not v, False):
                if avoid is not None:
                    return False
                d = a
                continue
            d = b
        return False

    def holds(self, w, want):
        """does the decision w come out as wanted, and all earlier ones too"""
        self.steps = 0
        try:
            if bool(self.var(w)) != want:
                return False
        except (Invalid, ZeroDivisionError, OverflowError):
            return False
        for x, y in self.decided:
            try:
                if bool(self.var(x)) != y:
                    return False
            except (Invalid, ZeroDivisionError, OverflowError):
                return False
        return True

    def attempt(self, table, h, v, w, want):
        had = h in table
        old = table.get(h)
        table[h] = v
        self.clear()
        if self.holds(w, want):
            return True
        if had:
            table[h] = old
        else:
            del table[h]
        self.clear()
        return False

    def decide(self, w, want, keep=True):
        """choose the values of opaque terms such that the decision w comes out
        as wanted, without changing earlier decisions"""
        ok = self.decide1(w, want)
        if ok and keep:
            self.decided.append((w, want))
        return ok

    def decide1(self, w, want):
        if self.holds(w, want):
            return True
        self.clear()
        try:
            if w.kind in ('lt', 'eq'):
                return self.decide_num(w, want)
            if w.kind == 'eqt':
                t, lit = w.data
                l = self.ev(lit)
                x = t
                n = 0
                while isinstance(x, D) and n < 40:
                    x = x.hi if self.var(x.var) else x.lo
                    n += 1
                h = self.token_of(x) if isinstance(x, T) else None
                if h is not None and isinstance(l, tuple) and l[0] == 'n':
                    return self.attempt(self.solved_n, h, want, w, want)
                if h is None or not (isinstance(l, tuple) and l[0] in ('e', 's')):
                    return False
                return self.attempt(self.solved_l, h, l if want else '?', w, want)
            x = w.data
            if isinstance(x, T):
                if x.tag == 'app' and x.args[0] == '==':
                    p, q = self.ev(x.args[1]), self.ev(x.args[2])
                    if rnd(p) == rnd(q):
                        return False
                    if len(x.args) > 3 and x.args[3][0] == 'e':
                        u, v = self.resolve(p, *x.args[3]), self.resolve(q, *x.args[3])
                        for y, z in ((p, v), (q, u)):
                            if y[0] == 't' and z[0] == 'e':
                                return self.attempt(self.solved_l, y[1], z if want else '?', w, want)
                    return self.attempt(self.solved_e, tuple(sorted((repr(rnd(p)), repr(rnd(q))))), want, w, want)
                if x.tag == 'app' and x.args[0] in ('exists', 'loop', 'first'):
                    return self.decide_size(x, w, want)
                h = self.token_of(x)
                if h is None:
                    return False
                return self.attempt(self.solved_b, h, want, w, want)
        except (Invalid, ZeroDivisionError, OverflowError):
            self.clear()
        return False

    def sizes_in(self, x):
        out = []
        st = [x]
        seen = set()
        while st and len(seen) < 400:
            n = st.pop()
            if isinstance(n, tuple):
                st.extend(n)
                continue
            if not isinstance(n, (T, D)) or n.id in seen:
                continue
            seen.add(n.id)
            if isinstance(n, D):
                d = n.var.data
                st.extend(d if isinstance(d, tuple) else (d,))
                st += [n.hi, n.lo]
            elif n.tag == 'poly':
                st += [NODES[i] for m, _ in n.args[0] for i, _ in m]
            else:
                if n.tag == 'app' and n.args[0] == 'size' and not n.fv:
                    out.append(n)
                st.extend(n.args)
        return out

    def decide_size(self, x, w, want):
        for n in self.sizes_in(x)[:4]:
            h = self.token_of(n)
            if h is None:
                continue
            for v in (0, 1, 2, 3):
                if self.attempt(self.solved_h, h, v, w, want):
                    return True
        return False

    def decide_num(self, w, want):
        q, c = w.data
        x = q
        n = 0
        while isinstance(x, D) and n < 40:
            x = x.hi if self.var(x.var) else x.lo
            n += 1
        k = self.h(('decide', q.id, str(c), len(self.decided)))
        if x.tag == 'poly':
            lin = [(mm[0][0], cc) for mm, cc in x.args[0] if len(mm) == 1 and mm[0][1] == 1 and
                   sum(1 for m2, _ in x.args[0] for a2, _ in m2 if a2 == mm[0][0]) == 1]
        else:
            lin = [(x.id, 1)]
        lin = [(NODES[i], cc) for i, cc in lin if NODES[i].tag in ('sym', 'sel', 'app', 'deref')]
        if lin:
            j = (k >> 8) % len(lin)
            lin = lin[j:] + lin[:j]
        for t, cc in lin:
            h = self.token_of(t)
            if h is None:
                continue
            old = self.solved_h.get(h)
            self.solved_h[h] = 0
            self.clear()
            try:
                rest = self.evn(x)
                v = (float(c) - rest) / float(cc)      # equality
            except (Invalid, ZeroDivisionError, OverflowError):
                v = None
            if old is None:
                del self.solved_h[h]
            else:
                self.solved_h[h] = old
            self.clear()
            if v is None:
                continue
            for r in range(2):
                step = (1 + (k >> 20) % 3) if t.isint else 0.1 + ((k >> (20 + 9 * r)) % 1000) / 500.
                s = 1 if float(cc) > 0 else -1
                u = v
                if w.kind == 'eq':
                    u += 0 if want else step * s
                elif want:
                    u -= step * s
                elif (k >> 32) % 3 or r:
                    u += step * s
                if t.isint:
                    u = math.floor(u) if (w.kind == 'lt' and want) == (s > 0) else math.ceil(u)
                if t.nonneg and u < 0:
                    u = 0 if t.isint else -u
                if self.attempt(self.solved_h, h, u, w, want):
                    return True
                if w.kind == 'eq':
                    break
        if x.tag == 'poly' and self.bisect(w, want, x, float(c), k):
            return True
        # any opaque number the difference depends on
        hs = []
        for t in self.atoms_in(x):
            h = self.token_of(t)
            if h is not None and (h, t.isint, t.nonneg) not in hs:
                hs.append((h, t.isint, t.nonneg))
            if len(hs) >= 8:
                break
        if hs:
            j = (k >> 12) % len(hs)
            hs = hs[j:] + hs[:j]
        for h, isint, nonneg in hs:
            vals = [0, 1, 2, 3, 5] + ([-1, -2] if not nonneg else []) if isint else \
                [0.03, 0.3, 0.71, 1.13, 2.3, 5.7, 17.] + ([-0.4, -1.7, -6.3] if not nonneg else [])
            j = (k >> 24) % len(vals)
            vals = vals[j:] + vals[:j]
            f = float(c)
            if f not in vals and abs(f) < 1e9 and (not nonneg or f > 1):
                vals = ([int(f), int(f) + 1, int(f) - 1] if isint else [f, f * 1.1 + 0.01, f * 0.9 - 0.01]) + vals
            for v in vals:
                if self.late():
                    return False
                if self.attempt(self.solved_h, h, v, w, want):
                    return True
        return False

    def bisect(self, w, want, x, c, k):
        """a root of a polynomial condition in one of its opaque numbers"""
        ts = []
        for m, _ in x.args[0]:
            for i, _ in m:
                if NODES[i].tag in ('sym', 'sel', 'app', 'deref') and not NODES[i].isint and NODES[i] not in ts:
                    ts.append(NODES[i])
        if not ts:
            return False
        j = (k >> 16) % len(ts)
        for t in (ts[j:] + ts[:j])[:6]:
            h = self.token_of(t)
            if h is None or self.late():
                continue
            old = self.solved_h.get(h)

            def f(v):
                self.solved_h[h] = v
                self.clear()
                try:
                    return self.evn(x) - c
                except (Invalid, ZeroDivisionError, OverflowError, TypeError):
                    return None
            g = [(v, f(v)) for v in (0., 0.2, 0.7, 1.3, 2.9, 7., 19.) + (() if t.nonneg else (-0.3, -0.9, -2.3, -8.))]
            g = sorted((v, y) for v, y in g if y is not None)
            v = None
            for (u, y), (u2, y2) in zip(g, g[1:]):
                if y * y2 <= 0 and (y or y2):
                    for _ in range(60):
                        m = (u + u2) / 2
                        ym = f(m)
                        if ym is None:
                            break
                        if y * ym <= 0:
                            u2, y2 = m, ym
                        else:
                            u, y = m, ym
                    v = (u, u2)
                    break
            if old is None:
                del self.solved_h[h]
            else:
                self.solved_h[h] = old
            self.clear()
            if v is None:
                continue
            for u in ((v[0],) if w.kind == 'eq' else (v[0] * 0.97, v[0] * 1.03, v[0] * 0.7, v[0] * 1.5)):
                if self.attempt(self.solved_h, h, u, w, want):
                    return True
        return False

    def late(self):
        return self.clock is not None and time.time() > self.clock

    def atoms_in(self, x):
        """opaque numbers a term depends on"""
        out = []
        st = [x]
        seen = set()
        while st and len(seen) < 200:
            n = st.pop(0)
            if isinstance(n, tuple):
                st.extend(n)
                continue
            if not isinstance(n, (T, D)) or n.id in seen:
                continue
            seen.add(n.id)
            if isinstance(n, D):
                try:
                    st.append(n.hi if self.var(n.var) else n.lo)
                except Invalid:
                    pass
            elif n.tag == 'poly':
                st += [NODES[i] for m, _ in n.args[0] for i, _ in m]
            elif n.tag in ('sym', 'sel', 'deref'):
                out.append(n)
            elif n.tag == 'app':
                if n.args[0] in FREEFN or n.args[0] in COMPUTED and n.args[0] not in ('sum', 'size', 'loop', 'exists', 'first', 'mapupd', 'mapcat', 'last', 'after'):
                    st.extend(n.args[1:])
                elif n.args[0] in ('sum', 'loop', 'first', 'last', 'after'):
                    st.extend(self.sizes_in(n))
                else:
                    out.append(n)
        return out

    def reach(self, path):
        """make a sequence of decisions come out as wanted"""
        for w, want in path:
            if self.late() or not self.decide(w, want):
                return False
        return True

    def seek(self, d, rg):
        """choose values for which a diagram of truth values comes out true"""
        while isinstance(d, D):
            if self.late():
                return False
            w = d.var
            self.steps = 0
            try:
                b = bool(self.var(w))
            except (Invalid, ZeroDivisionError, OverflowError):
                b = rg.random() < .5
            if rg.random() < .25:
                b = not b
            for o in (b, not b):
                c = d.hi if o else d.lo
                if c is not TM.FALSE and self.decide(w, o):
                    d = c
                    break
            else:
                self.stuck = w
                return False
        return d is TM.TRUE

    # --- tokens: ('t', h)
    def tok(self, *key):
        key = rnd(key)
        h = self.h(key)
        if self.twin is None:
            return ('t', h)
        r = self.twins.get(h)
        if r is None:
            # the twin object agrees with the other one except for some parts
            k2 = self.other(key)
            if k2 is key:
                r = h
            else:
                h2 = self.h(k2)
                if key == self.twin[1] or (h >> 9) % 7 == 0:
                    r = h
                    self.kin[h] = h2
                else:
                    r = h2
            self.twins[h] = r
        return ('t', r)

    def set_twin(self, p, q):
        def key(x):
            k, n = x
            return (k, n) if k == 'sym' else rnd(('deref', (self.tok('sym', n),)))
        self.twin = None
        self.twin = (key(p), key(q))

    def other(self, k):
        if k == self.twin[1]:
            return self.twin[0]
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 't':
                h = self.kin.get(k[1])
                return k if h is None else ('t', h)
            v = tuple([self.other(x) for x in k])
            if any(x is not y for x, y in zip(v, k)):
                return v
        return k

    def num(self, x, isint=False, nonneg=False, tid=None):
        if x is True or x is False:
            return 1 if x else 0
        if isinstance(x, (int, float)):
            return x
        if x[0] == 'e':
            return x[2]
        if x is NAN or x[0] == 'nan':
            raise Invalid('nan')
        if x[0] == 's' or x[0] == 'n':
            x = self.tok('num', x)
        if x[0] != 't':
            x = self.tok('num', x)
        h = x[1]
        # the type of a value is that of its most specific mention
        o = self.hfl.get(h)
        fl = (isint or nonneg and isint, nonneg) if o is None else (isint or o[0], nonneg or o[1])
        if fl != o:
            if o is not None:
                self.conflict = True
            self.hfl[h] = fl
        isint, nonneg = fl
        if h in self.solved_h:
            return self.solved_h[h]
        f = self.forced_h.get(h)
        if f is not None and (h >> 40) % 3 == 0:
            v = f[(h >> 8) % len(f)]
            if isint and v != int(v):
                v = math.floor(v)
            if nonneg and v < 0:
                v = -v
            return v
        if isint:
            v = (h >> 3) % 5
            if not nonneg and (h >> 20) % 4 == 0:
                v = -v
            if self.mode == 2 and self.pool and (h >> 24) % 3 == 0:
                p = self.pool[(h >> 30) % len(self.pool)]
                v = int(math.floor(p))
                if nonneg and v < 0:
                    v = -v
                if abs(v) > 40:
                    v = v if not nonneg else v
            return v
        if self.mode == 0:       # small integers
            v = float((h >> 3) % 7) - 2
        elif self.mode == 1:     # positive reals
            v = 0.05 + 3.0 * ((h >> 5) % 1000003) / 1000003.0
        elif self.mode == 3:     # small positive reals, velocities
            v = 0.55 * ((h >> 5) % 1000003) / 1000003.0
        else:
            v = 4.0 * ((h >> 5) % 1000003) / 1000003.0 - 2.0
            if self.pool and (h >> 40) % 4 == 0:
                v = self.pool[(h >> 44) % len(self.pool)]
        if nonneg and v < 0:
            v = -v
        return v

    def boolean(self, x):
        if isinstance(x, bool):
            return x
        if isinstance(x, (int, float)):
            return abs(x) > 1e-9
        if x[0] == 't':
            b = self.solved_b.get(x[1])
            return bool((x[1] >> 11) & 1) if b is None else b
        if x[0] == 'n':
            return False
        return bool((self.h(('bool', rnd(x))) >> 11) & 1)

    def resolve(self, x, tag, ty=None):
        """literal a token stands for when compared with literals"""
        if isinstance(x, tuple) and x[0] == 't':
            l = self.solved_l.get(x[1])
            if l is not None:
                return x if l == '?' else l
            ls = self.lits.get((tag, ty), ())
            n = len(ls)
            i = (x[1] >> 13) % (n if self.big and n and tag == 's' else n + 1)
            if i < n:
                return ls[i]
        return x

    # --- aggregates
    # ('o', base, ((comp, val), ...)): base a token or ''
    # ('q', base, (items...)): sequence base ++ items
    def is_empty(self, b):
        return b == ''

    def size(self, v):
        if isinstance(v, tuple):
            if v[0] == 'q':
                return (0 if v[1] == '' else self.size(v[1])) + len(v[2])
            if v[0] == 'o':
                for c, x in v[2]:
                    if c == ('f', '#size'):
                        return x
                if v[1] != '':
                    return self.size(v[1])
                return len(v[2])
            if v[0] == 's':
                return len(v[1])
            if v[0] == 'arr':
                return v[2]
        t = self.tok('size', v)
        z = self.solved_h.get(t[1])
        if z is not None:
            return max(0, int(z))
        return (t[1] >> 7) % 8 if self.big else (t[1] >> 7) % 4

    def sel(self, v, comp):
        while isinstance(v, tuple):
            if v[0] == 'o':
                for c, x in v[2]:
                    if c == comp:
                        return x
                if v[1] == '':
                    break
                v = v[1]
                continue
            if v[0] == 'q' and comp[0] == 'i' and isinstance(comp[1], int):
                n = 0 if v[1] == '' else self.size(v[1])
                if comp[1] >= n and comp[1] - n < len(v[2]):
                    return v[2][comp[1] - n]
                if v[1] == '':
                    break
                v = v[1]
                continue
            if v[0] == 'arr' and comp[0] == 'i':
                return v[1]
            break
        return self.tok('sel', v, comp)

    def upd(self, v, comp, x):
        if isinstance(v, tuple) and v[0] == 'q' and comp[0] == 'i' and isinstance(comp[1], int):
            n = 0 if v[1] == '' else self.size(v[1])
            if n <= comp[1] < n + len(v[2]):
                it = list(v[2])
                it[comp[1] - n] = x
                return ('q', v[1], tuple(it))
            if v[1] != '' and comp[1] < n:
                return ('q', self.upd(v[1], comp, x), v[2])
        base, fs = (v[1], dict(v[2])) if isinstance(v, tuple) and v[0] == 'o' else (v, {})
        same = False
        if base != '':
            old = self.sel(base, comp)
            if fnum(x) and isinstance(old, tuple) and old[0] == 't' and old[1] in self.hfl:
                old = self.num(old)
            same = rnd(old) == rnd(x)
        if same:
            fs.pop(comp, None)
        else:
            fs[comp] = x
        if not fs and base != '':
            return base
        return ('o', base, tuple(sorted(fs.items(), key=lambda c: repr(c[0]))))

    def push(self, v, x):
        if isinstance(v, tuple) and v[0] == 'q':
            return ('q', v[1], v[2] + (x,))
        if isinstance(v, tuple) and v[0] == 'o' and v[1] == '' and all(c[0] == 'i' for c, _ in v[2]):
            items = [y for _, y in sorted(v[2], key=lambda c: c[0][1])]
            return ('q', '', tuple(items) + (x,))
        return ('q', v, (x,))

    # --- evaluation
    def ev(self, n):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Invalid('too long')
        free = not n.fv
        if free:
            r = self.memo.get(n.id)
            if r is not None:
                return r
        if isinstance(n, D):
            x = n
            while isinstance(x, D):
                b = bool(self.var(x.var))
                self.cov.add((x.id, b))
                x = x.hi if b else x.lo
            r = self.ev(x)
        else:
            r = self.leaf(n)
        if free:
            self.memo[n.id] = r
        return r

    def evn(self, n):
        v = self.ev(n)
        if isinstance(v, (int, float)):
            return v
        if isinstance(n, T):
            return self.num(v, n.isint, n.nonneg, n.id)
        # leaf reached through a diagram
        x = n
        while isinstance(x, D):
            x = x.hi if self.var(x.var) else x.lo
        return self.num(v, x.isint, x.nonneg, x.id)

    def evb(self, n):
        if n is TM.TRUE:
            return True
        if n is TM.FALSE:
            return False
        return self.boolean(self.ev(n))

    def var(self, w):
        if w.kind in ('lt', 'eq'):
            q, c = w.data
            v, c = self.evn(q), float(c)
            d = v - c
            if d != 0:
                sc = abs(c) + (self.scale.get(q.id, abs(v)) if isinstance(q, T) and q.tag == 'poly' else abs(v))
                if abs(d) <= 1e-12 * sc:
                    d = 0
                elif abs(d) <= 1e-8 * sc and not (isinstance(v, int) and c == int(c)):
                    raise Invalid('borderline')
            return d < 0 if w.kind == 'lt' else d == 0
        if w.kind == 'eqt':
            t, lit = w.data
            return self.eqlit(self.ev(t), self.ev(lit))
        return self.boolean(self.ev(w.data))

    def eqlit(self, v, l):
        if isinstance(l, tuple) and l and l[0] in ('e', 's'):
            v = self.resolve(v, l[0], l[1] if l[0] == 'e' else None)
        elif isinstance(l, tuple) and l[0] == 'n' and isinstance(v, tuple) and v[0] == 't':
            b = self.solved_n.get(v[1])
            if b is not None:
                return b
            return (v[1] >> 17) % 4 == 0
        elif isinstance(l, tuple) and isinstance(v, tuple) and v[0] == 't' and l[0] == 'p':
            return False
        return rnd(v) == rnd(l)

    def comp(self, c):
        k, x = c
        if isinstance(x, (T, D)):
            v = self.ev(x)
            if k == 'i':
                v = self.num(v, True, True) if not fnum(v) else v
                if abs(v - round(v)) < 1e-9:
                    v = int(round(v))
            elif fnum(v):
                v = rnd(v)
            return (k, v)
        return (k, x)

    def arg(self, a):
        if isinstance(a, (T, D)):
            return self.ev(a)
        if isinstance(a, tuple):
            return tuple(self.arg(x) for x in a)
        if isinstance(a, Fr):
            return float(a)
        return a

    def leaf(self, n):
        tag = n.tag
        if tag == 'poly':
            s = 0.0
            sc = 0.0
            allint = True
            for m, c in n.args[0]:
                p = 1
                for a, e in m:
                    x = self.evn(NODES[a])
                    if e < 0 and abs(x) < 1e-12:
                        raise Invalid('division by zero', self.nonneg_need(NODES[a], 'eq'))
                    try:
                        if e != int(e) and x < 0:
                            raise Invalid('root', self.nonneg_need(NODES[a]))
                        p *= x ** e
                    except (OverflowError, ZeroDivisionError):
                        raise Invalid('overflow')
                try:
                    x = float(c) * p
                except OverflowError:
                    raise Invalid('overflow')
                s += x
                sc += abs(x)
            if abs(s) < 1e-13 * sc:
                s = 0.0
            elif abs(s) < 1e-10 * sc and not n.isint:
                raise Invalid('cancellation')
            self.scale[n.id] = sc
            if n.isint or abs(s) < 1e15 and s == int(s):
                if abs(s) < 1e15:
                    return int(round(s)) if abs(s - round(s)) < 1e-6 else s
            if s != s or abs(s) == math.inf:
                raise Invalid('nan')
            return s
        if tag == 'sym':
            if n.id in self.bound:
                return self.bound[n.id]
            v = self.tok('sym', n.args[0])
            if n.isint:
                return self.num(v, True, n.nonneg, n.id)
            return v
        if tag == 'bool':
            return n.args[0]
        if tag == 'enum':
            return ('e', n.args[0], n.args[1])
        if tag == 'str':
            return ('s', n.args[0])
        if tag == 'null':
            return ('n',)
        if tag == 'sel':
            b = self.ev(n.args[0])
            v = self.sel(b, self.comp(n.args[1]))
            if n.isint and isinstance(v, tuple) and v[0] == 't':
                return self.num(v, True, n.nonneg, n.id)
            return v
        if tag == 'obj':
            base = n.args[0]
            if base == '':
                fs = {}
                for c, x in n.args[1]:
                    fs[self.comp(c)] = self.ev(x)
                if fs and all(c[0] == 'i' for c in fs):
                    ks = sorted(c[1] for c in fs)
                    if ks == list(range(len(ks))):
                        return ('q', '', tuple(fs[('i', i)] for i in ks))
                if not fs and n.args[2] == 'vec':
                    return ('q', '', ())
                return ('o', '', tuple(sorted(fs.items(), key=lambda c: repr(c[0]))))
            v = self.ev(base)
            for c, x in n.args[1]:
                v = self.upd(v, self.comp(c), self.ev(x))
            return v
        if tag == 'store':
            v = self.ev(n.args[0])
            return self.upd(v, self.comp(n.args[1]), self.ev(n.args[2]))
        if tag == 'filled':
            c = self.evn(n.args[0]) if isinstance(n.args[0], (T, D)) else n.args[0]
            x = self.ev(n.args[1])
            if 0 <= c <= 8 and c == int(c):
                return ('q', '', (x,) * int(c))
            return ('arr', x, c)
        if tag == 'app':
            return self.app(n)
        if tag in ('ptr', 'ref'):
            root = tuple(self.arg(a) for a in n.args[0])
            return ('p', root, tuple(self.comp(c) for c in n.args[1]))
        if tag == 'undef' or tag == 'void' or tag == 'log':
            return ('n', tag)
        return self.tok(tag, tuple(self.arg(a) for a in n.args))

    def iterate(self, K, dom):
        """values of K in the domain (a prefix of the naturals)"""
        saved = self.bound.get(K.id)
        k = 0
        try:
            while True:
                self.bound[K.id] = k
                if not self.evb(dom):
                    return
                yield k
                k += 1
                if k > CAP:
                    raise Invalid('long loop')
        finally:
            if saved is None:
                self.bound.pop(K.id, None)
            else:
                self.bound[K.id] = saved

    def nonneg_need(self, x, kind='lt'):
        if x.fv:
            return None
        return Dec(kind, (x, 0)), False

    def app(self, n):
        name = n.args[0]
        a = n.args[1:]
        if name == 'P':
            return self.evn(a[0])
        if name in ('isnan', 'isinf') or name.startswith('smash::is_any_nan'):
            # rarely so, unless it is asked for
            t = self.tok(name, tuple(self.arg(x) for x in a))
            b = self.solved_b.get(t[1])
            return (t[1] >> 11) % 24 == 0 if b is None else b
        if name == 'sqrt':
            x = self.evn(a[0])
            if x < 0:
                if x > -1e-9:
                    return 0.0
                raise Invalid('sqrt', self.nonneg_need(a[0]))
            return math.sqrt(x)
        if name in FREEFN and len(a) == 1:
            x = self.evn(a[0])
            try:
                if name == 'cbrt':
                    return math.copysign(abs(x) ** (1 / 3), x)
                if name == 'tgamma':
                    return math.gamma(x)
                return getattr(math, name)(x)
            except (ValueError, OverflowError, AttributeError):
                raise Invalid(name)
        if name == 'pow':
            x, y = self.evn(a[0]), self.evn(a[1])
            try:
                r = x ** y
            except (OverflowError, ZeroDivisionError):
                raise Invalid('pow')
            if isinstance(r, complex):
                raise Invalid('pow', self.nonneg_need(a[0]))
            return r
        if name in ('idiv', 'mod'):
            x, y = self.evn(a[0]), self.evn(a[1])
            if y == 0:
                raise Invalid('div0')
            if fnum(x) and fnum(y) and x == int(x) and y == int(y):
                x, y = int(x), int(y)
                q = abs(x) // abs(y)
                q = q if (x >= 0) == (y > 0) else -q
                return q if name == 'idiv' else x - q * y
            return self.tok(name, x, y)
        if name in ('floor', 'ceil', 'trunc', 'round', 'nearbyint'):
            x = self.evn(a[0])
            if abs(x) > 1e12:
                raise Invalid('range')
            if abs(x - round(x)) < 1e-9:
                return int(round(x))
            return {'floor': math.floor, 'ceil': math.ceil, 'trunc': int,
                    'round': lambda v: int(math.floor(abs(v) + 0.5)) * (1 if v >= 0 else -1),
                    'nearbyint': round}[name](x)
        if name == 'div0':
            raise Invalid('div0')
        if name == 'size':
            return self.size(self.ev(a[0]))
        if name == '==':
            x, y = self.ev(a[0]), self.ev(a[1])
            if rnd(x) == rnd(y):
                return True
            if len(a) > 2:
                # consistent with comparisons of either side with literals
                if a[2][0] == 'e':
                    u, v = self.resolve(x, 'e', a[2][1]), self.resolve(y, 'e', a[2][1])
                    if u is not x or v is not y or x[0] == 'e' or y[0] == 'e':
                        return rnd(u) == rnd(v)
                elif a[2][0] == 'p':
                    u, v = (z if isinstance(z, tuple) and z[0] == 'n' else self.eqlit(z, ('n',)) for z in (x, y))
                    u, v = u is True or isinstance(u, tuple), v is True or isinstance(v, tuple)
                    if u or v:
                        return u and v
            if self.solved_e:
                b = self.solved_e.get(tuple(sorted((repr(rnd(x)), repr(rnd(y))))))
                if b is not None:
                    return b
            if isinstance(x, tuple) and isinstance(y, tuple) and (x[0] == 't' or y[0] == 't') and \
                    self.h(('eq',) + tuple(sorted((repr(rnd(x)), repr(rnd(y)))))) % 3 == 0:
                return True
            return False
        if name == 'push_back':
            return self.push(self.ev(a[0]), self.ev(a[1]))
        if name == 'sum':
            K, dom, body = a
            s = 0.0
            for _ in self.iterate(K, dom):
                s += self.evn(body)
            return s
        if name == 'exists':
            K, b = a
            # domain and condition are merged: search a bounded prefix
            saved = self.bound.get(K.id)
            r = False
            try:
                for k in range(12):
                    self.bound[K.id] = k
                    if self.evb(b):
                        r = True
                        break
            finally:
                self.restore(K, saved)
            return r
        if name == 'first':
            K, dom, c = a
            for k in self.iterate(K, dom):
                if self.evb(c):
                    return k
            return -1
        if name == 'after':
            init, dom, K = a
            k = 0
            for k_ in self.iterate(K, dom):
                k = k_ + 1
            i0 = self.ev(init)
            if fnum(i0):
                return i0 + k
            return ('aft', rnd(i0), k)
        if name == 'last':
            K, dom, u, init = a
            v = None
            some = False
            for _ in self.iterate(K, dom):
                v = self.ev(u)
                some = True
            return v if some else self.ev(init)
        if name == 'mapupd':
            K, dom, e, x, init = a
            c = self.ev(init)
            saved = self.bound.get(e.id)
            try:
                for k in self.iterate(K, dom):
                    self.bound[e.id] = self.sel(c, ('i', k))
                    c = self.upd(c, ('i', k), self.ev(x))
            finally:
                self.restore(e, saved)
            return c
        if name == 'mapcat':
            K, dom, items, init = a
            c = self.ev(init)
            for _ in self.iterate(K, dom):
                for g, x in items:
                    if self.evb(g):
                        c = self.push(c, self.ev(x))
            return c
        if name == 'loop':
            return self.loop(n)
        if name == 'append':
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(y, tuple) and y[0] == 'q' and y[1] == '':
                for z in y[2]:
                    x = self.push(x, z)
                return x
            return self.tok('append', x, y)
        if name == 'pop_back':
            x = self.ev(a[0])
            if isinstance(x, tuple) and x[0] == 'q' and x[2]:
                return ('q', x[1], x[2][:-1])
            return self.tok('pop_back', x)
        if name.startswith('bit') and len(a) == 2 and len(name) < 7:
            x, y = self.evn(a[0]), self.evn(a[1])
            if x == int(x) and y == int(y):
                x, y = int(x), int(y)
                op = name[3:]
                if op == '&':
                    return x & y
                if op == '|':
                    return x | y
                if op == '^':
                    return x ^ y
                if op == '<<' and 0 <= y < 64:
                    return x << y
                if op == '>>' and 0 <= y < 64:
                    return x >> y
        if name == 'e2i':
            v = self.ev(a[0])
            if isinstance(v, tuple) and v[0] == 'e':
                return v[2]
        r = self.tok(name, tuple(self.arg(x) for x in a))
        if n.isint:
            return self.num(r, True, n.nonneg, n.id)
        return r

    def restore(self, s, v):
        if v is None:
            self.bound.pop(s.id, None)
        else:
            self.bound[s.id] = v

    # --- generic loops
    def phis(self, sysd, depth):
        pass

    def loop_run(self, a, step):
        """iterate the recurrence; step(kind) is called with 'iter', 'break',
        'return' or 'end' while the loop variables are bound"""
        K, vs, conds, sysd = a[0], a[1], a[2], a[3]
        kind = a[4] if len(a) > 4 else ''
        d = int(K.args[0][1:])
        ph = [[TM.mkT('sym', 'φ%d_%d%s' % (d, i, x)) for x in ('', 'i', 'u')] for i in range(len(sysd))]
        vals = [self.ev(i) for i, _ in sysd]
        saved = [(p, self.bound.get(p.id)) for pp in ph for p in pp] + [(K, self.bound.get(K.id))]
        k = 0
        post = len(conds) > 3
        try:
            while True:
                self.bound[K.id] = k
                for pp, v in zip(ph, vals):
                    for p in pp:
                        self.bound[p.id] = v
                if not self.evb(conds[0]):
                    return step('end')
                r = step('iter')
                if self.evb(conds[1]):
                    return step('break')
                if self.evb(conds[2]):
                    return step('return')
                new = [self.ev(u) for _, u in sysd]
                if post and not self.evb(conds[3]):
                    for pp, v in zip(ph, new):
                        for p in pp:
                            self.bound[p.id] = v
                    return step('end')
                vals = new
                k += 1
                if k > CAP:
                    raise Invalid('long loop')
        finally:
            for s, v in saved:
                self.restore(s, v)

    def loop(self, n):
        a = n.args[1:]
        vs = a[1]
        kind = a[4]

        def step(what):
            if what == 'iter':
                return None
            if kind == 'returns':
                return what == 'return'
            if kind in ('ret', 'retv', 'retc'):
                if what == 'return':
                    return self.ev(vs[0])
                return ('n', 'noret')
            if what == 'break':
                return self.ev(vs[1])
            if what == 'return':
                return ('n', 'left')
            return self.ev(vs[0])
        return self.loop_run(a, step)

    # --- events
    def trace(self, evs):
        out = []
        for g, t in evs:
            if self.evb(g):
                self.event(t, out)
        return out

    def event(self, t, out):
        if t.args[0] == 'loop':
            a = t.args[1:]
            flat = a[1]

            def step(what):
                if what == 'end':
                    return
                if what == 'iter':
                    for i in range(0, len(flat), 2):
                        if self.evb(flat[i]):
                            self.event(flat[i + 1], out)
            self.loop_run(a, step)
            return
        out.append((t.args[0], tuple(rnd(self.arg(x)) for x in t.args[1:])))


# ------------------------------------------------------------------ pools
def gather(vs):
    """numeric constants compared with, literals by type, and per-term
    interesting values"""
    pool = set()
    lits = {}
    forced = {}
    eqs = []
    eqseen = set()
    seen = set()
    st = list(vs)
    while st:
        n = st.pop()
        if isinstance(n, tuple):
            st.extend(n)
            continue
        if not isinstance(n, (T, D)) or n.id in seen:
            continue
        seen.add(n.id)
        if isinstance(n, D):
            d = n.var.data
            if n.var.kind in ('lt', 'eq'):
                q, c = d
                pool.add(float(c))
                st.append(q)
                if q.tag == 'poly' and not q.fv and len(q.args[0]) > 1 and len(q.args[0]) < 8:
                    lin = [(mm[0][0], cc) for mm, cc in q.args[0] if len(mm) == 1 and mm[0][1] == 1 and
                           sum(1 for m2, _ in q.args[0] for a2, _ in m2 if a2 == mm[0][0]) == 1 and
                           NODES[mm[0][0]].tag in ('sym', 'sel', 'app', 'deref')]
                    if lin and (q.id, c) not in eqseen:
                        eqseen.add((q.id, c))
                        eqs.append((q, c, lin))
                m = [(mm, cc) for mm, cc in (q.args[0] if q.tag == 'poly' else ((((q.id, 1),), 1),))]
                if len(m) == 1 and len(m[0][0]) == 1 and m[0][0][0][1] == 1:
                    x = float(c) / float(m[0][1])
                    forced.setdefault(m[0][0][0][0], set()).update(
                        (x, x + 1, x - 1) if NODES[m[0][0][0][0]].isint else (x, x + 1e-3, x - 1e-3, x * 1.5 + 0.1))
            elif n.var.kind == 'eqt':
                st.append(d[0])
                st.append(d[1])
            else:
                st.append(d)
            st.append(n.hi)
            st.append(n.lo)
            continue
        if n.tag == 'enum':
            lits.setdefault(('e', n.args[0]), set()).add(('e', n.args[0], n.args[1]))
        elif n.tag == 'str':
            lits.setdefault(('s', None), set()).add(('s', n.args[0]))
        if n.tag == 'poly':
            for m, c in n.args[0]:
                for a, e in m:
                    st.append(NODES[a])
        else:
            st.extend(a for a in n.args if isinstance(a, (T, D, tuple)))
    pool = sorted(p for p in pool if abs(p) < 1e9)[:60]
    forced['eqs'] = eqs[:200]
    return pool, {k: sorted(v) for k, v in lits.items()}, {k: (v if k == 'eqs' else sorted(v)) for k, v in forced.items()}


def differ(x, y):
    """evaluated values certainly differ"""
    if isinstance(x, bool) or isinstance(y, bool):
        if isinstance(x, bool) and isinstance(y, bool):
            return x != y
        return rnd(x) != rnd(y)
    if fnum(x) and fnum(y):
        s = max(abs(x), abs(y), 1e-3)
        if isinstance(x, int) and isinstance(y, int) and s < 1e11:
            return x != y
        if s > 1e12:
            return False
        return abs(x - y) > 1e-6 * s + 1e-7
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return True
        if x[:1] == ('t',) or y[:1] == ('t',):
            return x != y
        return any(differ(p, q) for p, q in zip(x, y))
    if fnum(x) != fnum(y):
        return True
    return x != y


def passes(t):
    """[(condition, values)] of the first passes of a loop, or None"""
    if t.tag == 'app':
        name, a = t.args[0], t.args[1:]
    elif t.tag == 'ev' and t.args[0] == 'loop':
        name, a = 'loop', t.args[1:]
    else:
        return None
    if name not in ('sum', 'exists', 'first', 'last', 'mapupd', 'mapcat', 'loop'):
        return None
    r = _passes.get(t.id)
    if r is not None:
        return r
    K = a[0]
    mp = {K.id: TM.ZERO}
    out = []

    def S(x):
        if isinstance(x, tuple):
            return [z for y in x for z in S(y)]
        return [TM.subst(x, mp)] if isinstance(x, (T, D)) else []
    try:
        if name == 'exists':
            out = [(S(a[1])[0], [])]
        elif name == 'mapupd':
            mp[a[2].id] = TM.sel(a[4], ('i', TM.ZERO))
            out = [(S(a[1])[0], S(a[3]))]
        elif name in ('sum', 'first', 'last'):
            out = [(S(a[1])[0], S(a[2]))]
        elif name == 'mapcat':
            out = [(S(a[1])[0], S(a[2]))]
        else:
            vs, cs, sysd = a[1], a[2], a[3]
            d = int(K.args[0][1:])
            cur = [i for i, _ in sysd]
            before = TM.TRUE
            for n in range(2 if sysd else 1):
                mp = {K.id: TM.num(n)}
                for i, v in enumerate(cur):
                    for x in ('', 'i', 'u'):
                        mp[TM.mkT('sym', 'φ%d_%d%s' % (d, i, x)).id] = v
                c = [S(x)[0] for x in cs]
                before = TM.and_(before, c[0])
                out.append((before, S(vs) + c[1:] + [S(u)[0] for _, u in sysd]))
                before = TM.and_(before, TM.not_(TM.or_(*c[1:3])))
                cur = [S(u)[0] for _, u in sysd]
                if before is TM.FALSE:
                    break
    except (TypeError, KeyError, IndexError, AttributeError, ValueError, TM.TooBig):
        out = []
    _passes[t.id] = out
    return out


_passes = {}


def branches(vs):
    """the decisions of the diagrams in vs that do not depend on loop variables:
    {(id, outcome): [(parent id, parent outcome)...]} with None for a root"""
    par = {}
    nodes = {}
    seen = set()
    looped = 0
    st = [(v, None) for v in vs]
    while st:
        n, p = st.pop()
        if isinstance(n, tuple):
            st.extend((x, p) for x in n)
            continue
        if not isinstance(n, (T, D)):
            continue
        if isinstance(n, D) and not n.var.fv and not n.fv:
            l = par.setdefault(n.id, [])
            if len(l) < 6 and p not in l:
                l.append(p)
            if n.id in seen:
                continue
            seen.add(n.id)
            nodes[n.id] = n
            d = n.var.data
            st.extend((x, p) for x in (d if isinstance(d, tuple) else (d,)))
            st.append((n.hi, (n.id, True)))
            st.append((n.lo, (n.id, False)))
            continue
        if (n.id, p) in seen:
            continue
        if n.id in seen and len(seen) > 20000:
            continue
        seen.add(n.id)
        seen.add((n.id, p))
        if isinstance(n, D):
            d = n.var.data
            st.extend((x, p) for x in (d if isinstance(d, tuple) else (d,)))
            st += [(n.hi, p), (n.lo, p)]
        elif n.tag == 'poly':
            st += [(NODES[i], p) for m, _ in n.args[0] for i, _ in m]
        elif n.tag not in ('sym', 'str', 'bool', 'enum', 'null'):
            st += [(x, p) for x in n.args if isinstance(x, (T, D, tuple))]
            if not n.fv and looped < 150:
                for c, xs in passes(n) or ():
                    looped += 1
                    st += [(ite_(c, x), p) for x in xs]
    return nodes, par


def ite_(c, x):
    if c is TM.FALSE or c is TM.TRUE:
        return x
    return TM.ite(c, x, TM.UNDEF)


def path_to(nodes, par, target, rnd_):
    """a sequence of decisions that leads to an outcome of a decision"""
    i, want = target
    out = [(nodes[i].var, want)]
    depth = 0
    while depth < 400:
        ps = par.get(i) or [None]
        p = ps[rnd_.randrange(len(ps))]
        if p is None:
            return out[::-1]
        i, b = p
        out.append((nodes[i].var, b))
        depth += 1
    return None


def twins(vs):
    """pairs of argument objects that one interpretation takes for alike"""
    names = set()
    seen = set()
    st = list(vs)

    def arg(x):
        return x == 'this' or x[0] == 'a' and x[1:].isdigit()
    while st:
        n = st.pop()
        if isinstance(n, tuple):
            st.extend(n)
            continue
        if not isinstance(n, (T, D)) or n.id in seen:
            continue
        seen.add(n.id)
        if isinstance(n, D):
            d = n.var.data
            st.extend(d if isinstance(d, tuple) else (d,))
            st.append(n.hi)
            st.append(n.lo)
        elif n.tag == 'sym':
            if arg(n.args[0]):
                names.add(('sym', n.args[0]))
        elif n.tag == 'poly':
            for m, c in n.args[0]:
                for a, e in m:
                    st.append(NODES[a])
        else:
            if n.tag == 'deref' and isinstance(n.args[0], T) and n.args[0].tag == 'sym' and arg(n.args[0].args[0]):
                names.add(('deref', n.args[0].args[0]))
            st.extend(a for a in n.args if isinstance(a, (T, D, tuple)))
    names = {x for x in names if x[0] == 'deref' or ('deref', x[1]) not in names}
    names = sorted(names, key=lambda x: (x[1] != 'this', x))[:4]
    return [(x, y) for i, x in enumerate(names) for y in names[i + 1:]]


class TooMany(Exception):
    pass


def where_unlike(a, b, cap=6000):
    """the diagram of the cases in which two diagrams have different leaves"""
    memo = {}

    def inner(x, y):
        """two different leaves"""
        r = TM.FALSE
        if x.tag == 'poly' or y.tag == 'poly':
            at = [set(), set()]
            for s, z in zip(at, (x, y)):
                for m, c in (z.args[0] if z.tag == 'poly' else ()):
                    s.update(i for i, _ in m)
                if z.tag != 'poly':
                    s.add(z.id)
            for i in at[0] ^ at[1]:
                if not NODES[i].fv:
                    for c, _ in (passes(NODES[i]) or ())[:1]:
                        r = TM.or_(r, c)
            return TM.TRUE if r is TM.FALSE else r
        if x.tag != y.tag or len(x.args) != len(y.args) or x.fv or y.fv:
            return TM.TRUE
        p, q = passes(x), passes(y)
        if p is not None:
            if not p or not q or x.args[0] != y.args[0]:
                return TM.TRUE
            for (c, xs), (d, ys) in zip(p, q):
                e = go(c, d)
                if len(xs) != len(ys):
                    e = TM.or_(e, c)
                else:
                    for u, v in zip(xs, ys):
                        e = TM.or_(e, TM.and_(c, d, go(u, v)))
                r = TM.or_(r, e)
            return TM.TRUE if r is TM.FALSE else r
        if x.tag in ('app', 'ev'):
            if x.args[0] != y.args[0]:
                return TM.TRUE
            for u, v in zip(x.args[1:], y.args[1:]):
                if isinstance(u, (T, D)) and isinstance(v, (T, D)):
                    r = TM.or_(r, go(u, v))
                elif u != v:
                    return TM.TRUE
            return TM.TRUE if r is TM.FALSE else r
        if x.tag == 'obj' and x.args[0] == y.args[0] and [c for c, _ in x.args[1]] == [c for c, _ in y.args[1]]:
            for (_, u), (_, v) in zip(x.args[1], y.args[1]):
                if isinstance(u, (T, D)) and isinstance(v, (T, D)):
                    r = TM.or_(r, go(u, v))
            return TM.TRUE if r is TM.FALSE else r
        return TM.TRUE

    def go(x, y):
        if x is y:
            return TM.FALSE
        if isinstance(x, T) and isinstance(y, T):
            k = (x.id, y.id)
            r = memo.get(k)
            if r is None:
                memo[k] = TM.TRUE
                r = memo[k] = inner(x, y)
            return r
        k = (x.id, y.id)
        r = memo.get(k)
        if r is None:
            if len(memo) > cap:
                raise TooMany()
            v = TM.top(x, y)
            r = TM.ite(TM.mk(v, TM.TRUE, TM.FALSE), go(TM.restrict(x, v, True), TM.restrict(y, v, True)),
                       go(TM.restrict(x, v, False), TM.restrict(y, v, False)))
            memo[k] = r
        return r
    try:
        return go(a, b)
    except (TooMany, TM.TooBig, RecursionError, TypeError):
        return None
