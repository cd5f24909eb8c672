"""Hash-consed value numbers in normal form.

A value V is a multi-terminal decision diagram: either a leaf term T or a node
D(var, hi, lo).  Numeric leaves are polynomials with exact rational
coefficients; boolean values are diagrams with leaves TRUE / FALSE.  Equal
normal forms are the same Python object.
"""
from fractions import Fraction as Fr
import math
import sys

sys.setrecursionlimit(100000)

NODES = []          # id -> T / D
_intern = {}
EMPTY = frozenset()


class TooBig(Exception):
    pass


class T:
    __slots__ = ('tag', 'args', 'id', 'isint', 'nonneg', 'fv', '_p')

    def __repr__(self):
        return show(self)


class D:
    __slots__ = ('var', 'hi', 'lo', 'id', 'fv')

    def __repr__(self):
        return show(self)


class Var:
    __slots__ = ('key', 'gid', 'kind', 'data', 'fv')


def _k(a):
    if isinstance(a, (T, D)):
        return ('#', a.id)
    if isinstance(a, tuple):
        return tuple(_k(x) for x in a)
    return (type(a).__name__, a)


def _fvs(args):
    fv = EMPTY
    for a in args:
        if isinstance(a, (T, D)):
            if a.fv:
                fv = fv | a.fv if fv else a.fv
        elif isinstance(a, tuple):
            f = _fvs(a)
            if f:
                fv = fv | f if fv else f
    return fv


def mkT(tag, *args, isint=False, nonneg=False, bind=None, fv=None):
    key = (tag,) + tuple(_k(a) for a in args)
    t = _intern.get(key)
    if t is not None:
        return t
    t = T()
    t.tag = tag
    t.args = args
    t.isint = isint
    t.nonneg = nonneg
    t._p = None
    f = _fvs(args) if fv is None else fv
    if bind:
        f = f - bind
    t.fv = f
    t.id = len(NODES)
    NODES.append(t)
    _intern[key] = t
    return t


# ---------------------------------------------------------------- symbols
def sym(name, isint=False, nonneg=False, bound=False):
    t = mkT('sym', name, isint=isint, nonneg=nonneg)
    if bound and not t.fv:
        t.fv = frozenset([t.id])
    return t


def strlit(s):
    return mkT('str', s)


TRUE = mkT('bool', True)
FALSE = mkT('bool', False)
NULL = mkT('null')
UNDEF = mkT('undef')
VOID = mkT('void')


def enumc(name, val):
    return mkT('enum', name.rsplit('::', 1)[0], int(val))


_enum_names = {}


# ---------------------------------------------------------------- polynomials
_pintern = {}


def num(c):
    c = Fr(c)
    return from_poly({(): c} if c else {})




def poly(t):
    """dict mono -> coeff of leaf t"""
    if t.tag == 'poly':
        if t._p is None:
            t._p = dict(t.args[0])
        return t._p
    return {((t.id, 1),): Fr(1)}


def from_poly(p):
    items = [(m, c) for m, c in p.items() if c != 0]
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return NODES[m[0][0]]
    if len(items) > 4000:
        raise TooBig('polynomial')
    if len(items) > 1:
        items.sort()
    key = tuple([(m, c.numerator, c.denominator) for m, c in items])
    t = _pintern.get(key)
    if t is not None:
        return t
    isint = all(c.denominator == 1 and all(e > 0 and NODES[a].isint for a, e in m)
                for m, c in items)
    fv = EMPTY
    for m, c in items:
        for a, e in m:
            f = NODES[a].fv
            if f:
                fv = fv | f
    t = T()
    t.tag = 'poly'
    t.args = (tuple(items),)
    t.isint = isint
    t.nonneg = False
    t._p = None
    t.fv = fv
    t.id = len(NODES)
    NODES.append(t)
    _pintern[key] = t
    return t


ZERO = num(0)
ONE = num(1)


def is_num(t):
    return t.tag == 'poly'


def const_of(t):
    """Fraction if t is a numeric constant else None"""
    if isinstance(t, T) and t.tag == 'poly':
        it = t.args[0]
        if not it:
            return Fr(0)
        if len(it) == 1 and it[0][0] == ():
            return it[0][1]
    return None


def p_add(a, b, s=1):
    r = dict(poly(a))
    for m, c in poly(b).items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return from_poly(r)


def mono_mul(m1, m2):
    """product of two monomials; returns (mono, extra poly factor or None)"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        t = NODES[a]
        if t.tag == 'app' and t.args[0] == 'sqrt':
            if e >= 2 or e < 0:
                q, r = divmod(e, 2)
                if r:
                    d[a] = 1
                else:
                    del d[a]
                f = p_pow(t.args[1], q)
                extra = f if extra is None else p_mul(extra, f)
    return tuple(sorted(d.items())), extra


def p_mul(a, b):
    pa, pb = poly(a), poly(b)
    if len(pa) * len(pb) > 20000:
        raise TooBig('product')
    r = {}
    rest = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            if not m1:
                m, ex = m2, None
            elif not m2:
                m, ex = m1, None
            else:
                m, ex = mono_mul(m1, m2)
            c = c1 * c2
            if ex is None:
                r[m] = r.get(m, 0) + c
            else:
                rest.append((m, c, ex))
    out = from_poly(r)
    for m, c, ex in rest:
        out = p_add(out, p_mul(from_poly({m: c}), ex))
    return out


def p_neg(a):
    return from_poly({m: -c for m, c in poly(a).items()})


def p_scale(a, k):
    if k == 0:
        return ZERO
    return from_poly({m: c * k for m, c in poly(a).items()})


def p_pow(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return p_inv(p_pow(a, -n)) if len(poly(a)) > 1 else p_inv_mono(a, -n)
    r = ONE
    for _ in range(n):
        r = p_mul(r, a)
    return r


def p_inv_mono(a, n):
    pa = poly(a)
    if not pa:
        return mkT('app', 'div0', ONE)
    (m, c), = pa.items()
    mm, ex = mono_mul((), tuple((x, -e * n) for x, e in m))
    r = from_poly({mm: Fr(1) / c ** n})
    return r if ex is None else p_mul(r, ex)


def primitive(a):
    """(content, primitive part) with leading coefficient 1"""
    items = a.args[0] if a.tag == 'poly' else None
    if items is None:
        return Fr(1), a
    lead = items[0][1]
    return lead, p_scale(a, Fr(1) / lead)


def p_inv(a):
    pa = poly(a)
    if len(pa) <= 1:
        return p_inv_mono(a, 1)
    # factor out common monomial
    common = None
    for m in pa:
        d = dict(m)
        if common is None:
            common = {x: e for x, e in d.items()}
        else:
            for x in list(common):
                e = d.get(x, 0)
                if x not in d:
                    e = 0
                common[x] = min(common[x], e)
            for x, e in d.items():
                if x not in common and e < 0:
                    common[x] = e
    common = {x: e for x, e in (common or {}).items() if e != 0 and
              not (NODES[x].tag == 'app' and NODES[x].args[0] == 'sqrt')}
    pre = ONE
    if common:
        cm = tuple(sorted(common.items()))
        inv = from_poly({tuple((x, -e) for x, e in cm): Fr(1)})
        a = p_mul(a, inv)
        pre = inv
        if len(poly(a)) <= 1:
            return p_mul(pre, p_inv_mono(a, 1))
    k, prim = primitive(a)
    at = mkT('app', 'P', prim)
    r = from_poly({((at.id, -1),): Fr(1) / k})
    return p_mul(pre, r)


def p_div(a, b):
    cb = const_of(b)
    if cb is not None:
        if cb == 0:
            return mkT('app', 'div0', a)
        return p_scale(a, 1 / cb)
    if a is b:
        return ONE
    # a multiple of b?
    pa, pb = poly(a), poly(b)
    if len(pb) > 1 and len(pa) == len(pb):
        k1, q1 = primitive(a)
        k2, q2 = primitive(b)
        if q1 is q2:
            return num(k1 / k2)
    return p_mul(a, p_inv(b))


def clear_dens(a):
    """multiply out P[..]^-n atoms (for zero tests)"""
    for _ in range(12):
        pa = poly(a)
        tgt = None
        n = 0
        for m in pa:
            for x, e in m:
                t = NODES[x]
                if t.tag == 'app' and t.args[0] == 'P':
                    if tgt is None or t.id > tgt.id:
                        tgt = t
        if tgt is None:
            return a
        for m in pa:
            for x, e in m:
                if x == tgt.id and e < 0:
                    n = max(n, -e)
        out = ZERO
        for m, c in pa.items():
            e0 = 0
            rest = []
            for x, e in m:
                if x == tgt.id:
                    e0 = e
                else:
                    rest.append((x, e))
            out = p_add(out, p_mul(from_poly({tuple(rest): c}),
                                   p_pow(tgt.args[1], n + e0)))
        a = out
        if not poly(a):
            return a
    return a


def p_zero(a):
    if not poly(a):
        return True
    try:
        return not poly(clear_dens(a))
    except TooBig:
        return False


# ---------------------------------------------------------------- decision vars
_groups = {}
_vars = {}
_gfv = {}


def _gid(kind, t):
    k = (kind, t.id)
    g = _groups.get(k)
    if g is None:
        g = len(_groups)
        _groups[k] = g
        _gfv[g] = t.fv
    return g


def _var(gid, order, sub, kind, data):
    k = (gid, order, sub)
    v = _vars.get(k)
    if v is None:
        v = Var()
        v.key = k
        v.gid = gid
        v.kind = kind
        v.data = data
        v.fv = _gfv[gid]
        _vars[k] = v
    return v


def mk(var, hi, lo):
    if hi is lo:
        return hi
    key = ('D', var.key, hi.id, lo.id)
    n = _intern.get(key)
    if n is None:
        n = D()
        n.var = var
        n.hi = hi
        n.lo = lo
        n.fv = var.fv | hi.fv | lo.fv
        n.id = len(NODES)
        NODES.append(n)
        _intern[key] = n
        if len(NODES) > 6000000:
            raise TooBig('nodes')
    return n


def implied(v, val, w):
    """value of w given v=val (same group, w later in the order), or None"""
    if v is w:
        return val
    if v.kind in ('lt', 'eq'):
        c, c2 = v.key[1], w.key[1]
        if v.kind == 'lt':
            if val:
                if c2 >= c:
                    return w.kind == 'lt'
                return None
            if c2 < c:
                return False
            return None
        # eq
        if val:
            if c2 > c:
                return w.kind == 'lt'
            if c2 < c:
                return False
        return None
    if v.kind == 'eqt':
        return False if val else None
    return None


_rmemo = {}


def restrict(n, var, val):
    if isinstance(n, T) or n.var.gid != var.gid:
        return n
    k = (n.id, var.key, val)
    r = _rmemo.get(k)
    if r is not None:
        return r
    im = implied(var, val, n.var)
    if im is True:
        r = restrict(n.hi, var, val)
    elif im is False:
        r = restrict(n.lo, var, val)
    else:
        r = mk(n.var, restrict(n.hi, var, val), restrict(n.lo, var, val))
    _rmemo[k] = r
    return r


def top(*ns):
    v = None
    for n in ns:
        if isinstance(n, D) and (v is None or n.var.key < v.key):
            v = n.var
    return v


_imemo = {}


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = _imemo.get(k)
    if r is not None:
        return r
    r = None
    if isinstance(a, T) and isinstance(b, T):
        r = merge_leaf(c, a, b)
    if r is None:
        v = top(c, a, b)
        if v is None:
            raise TypeError('non-boolean condition %r' % c)
        r = mk(v, ite(restrict(c, v, True), restrict(a, v, True), restrict(b, v, True)),
               ite(restrict(c, v, False), restrict(a, v, False), restrict(b, v, False)))
    _imemo[k] = r
    return r


def not_(a):
    return ite(a, FALSE, TRUE)


def and_(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def or_(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


_amemo = {}


def map1(name, f, a):
    if isinstance(a, T):
        return f(a)
    k = (name, a.id)
    r = _amemo.get(k)
    if r is None:
        r = ite(mk(a.var, TRUE, FALSE), map1(name, f, a.hi), map1(name, f, a.lo))
        _amemo[k] = r
    return r


def map2(name, f, a, b):
    if isinstance(a, T) and isinstance(b, T):
        return f(a, b)
    k = (name, a.id, b.id)
    r = _amemo.get(k)
    if r is None:
        v = top(a, b)
        r = ite(mk(v, TRUE, FALSE),
                map2(name, f, restrict(a, v, True), restrict(b, v, True)),
                map2(name, f, restrict(a, v, False), restrict(b, v, False)))
        _amemo[k] = r
    return r


def leaves(v, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    st = [v]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if isinstance(n, T):
            acc.append(n)
        else:
            st.append(n.hi)
            st.append(n.lo)
    return acc


def nleaves(v):
    return 1 if isinstance(v, T) else len(leaves(v))


def mapn(f, args, cap=96):
    """apply f to all combinations of leaves of args (list of V)"""
    if all(isinstance(a, T) for a in args):
        return f(*args)
    prod = 1
    for a in args:
        prod *= nleaves(a)
    if prod > cap:
        return None
    memo = {}

    def rec(args):
        v = top(*args)
        if v is None:
            return f(*args)
        k = tuple(a.id for a in args)
        r = memo.get(k)
        if r is None:
            r = ite(mk(v, TRUE, FALSE),
                    rec([restrict(a, v, True) for a in args]),
                    rec([restrict(a, v, False) for a in args]))
            memo[k] = r
        return r
    return rec(list(args))


# ---------------------------------------------------------------- arithmetic on V
def asnum(t):
    """numeric leaf from any leaf"""
    if t.tag == 'bool':
        return ONE if t.args[0] else ZERO
    if t.tag == 'enum':
        return num(t.args[1])
    return t


def add(a, b):
    return map2('add', lambda x, y: p_add(asnum(x), asnum(y)), a, b)


def sub(a, b):
    return map2('sub', lambda x, y: p_add(asnum(x), asnum(y), -1), a, b)


def mul(a, b):
    return map2('mul', lambda x, y: p_mul(asnum(x), asnum(y)), a, b)


def div(a, b):
    return map2('div', lambda x, y: p_div(asnum(x), asnum(y)), a, b)


def neg(a):
    return map1('neg', lambda x: p_neg(asnum(x)), a)


def idiv_leaf(x, y):
    x, y = asnum(x), asnum(y)
    cx, cy = const_of(x), const_of(y)
    if cy is not None and cy != 0:
        if cx is not None:
            q = abs(cx) // abs(cy)
            return num(q if (cx >= 0) == (cy > 0) else -q)
        if cy == 1:
            return x
        if cy == -1:
            return p_neg(x)
    return mkT('app', 'idiv', x, y, isint=True, nonneg=is_nonneg(x) and is_nonneg(y))


def mod_leaf(x, y):
    x, y = asnum(x), asnum(y)
    cx, cy = const_of(x), const_of(y)
    if cx is not None and cy is not None and cy != 0:
        return num(math.fmod(int(cx), int(cy)))
    return mkT('app', 'mod', x, y, isint=True, nonneg=is_nonneg(x))


def idiv(a, b):
    return map2('idiv', idiv_leaf, a, b)


def mod(a, b):
    return map2('mod', mod_leaf, a, b)


def is_nonneg(t):
    c = const_of(t)
    if c is not None:
        return c >= 0
    if t.tag == 'poly':
        return all(cc >= 0 and all(NODES[a].nonneg or e % 2 == 0 for a, e in m)
                   for m, cc in t.args[0])
    return t.nonneg


# ---------------------------------------------------------------- comparisons
def _lt_leaf(a, b):
    """a < b"""
    a, b = asnum(a), asnum(b)
    d = p_add(a, b, -1)
    c = const_of(d)
    if c is not None:
        return TRUE if c < 0 else FALSE
    return _cmp0(d)[0]


def _le_leaf(a, b):
    a, b = asnum(a), asnum(b)
    d = p_add(a, b, -1)
    c = const_of(d)
    if c is not None:
        return TRUE if c <= 0 else FALSE
    return _cmp0(d)[1]


def _eq0(d):
    c = const_of(d)
    if c is not None:
        return TRUE if c == 0 else FALSE
    if p_zero(d):
        return TRUE
    return _cmp0(d)[2]


_c0 = {}


def _cmp0(d):
    """(d<0, d<=0, d==0) for a non constant leaf d"""
    r = _c0.get(d.id)
    if r is not None:
        return r
    p = dict(poly(d))
    c = p.pop((), Fr(0))
    q = from_poly(p)
    items = q.args[0] if q.tag == 'poly' else (((q.id, 1),), Fr(1)),
    if q.tag == 'poly':
        items = q.args[0]
        lead = items[0][1]
    else:
        lead = Fr(1)
    sc = abs(lead)
    isint = all(all(e > 0 and NODES[a].isint for a, e in m) for m in p)
    if isint:
        # make integer with gcd 1
        den = 1
        for v in p.values():
            den = den * v.denominator // math.gcd(den, v.denominator)
        g = 0
        for v in p.values():
            g = math.gcd(g, int(v * den))
        sc = Fr(g, den)
    sgn = 1 if lead > 0 else -1
    q = p_scale(q, Fr(sgn) / sc)
    k = -c / sc * sgn          # d<0  <=>  sgn*q < -c/sc
    # d<0 <=> q<k (sgn>0)  or q>k (sgn<0)
    nn = is_nonneg(q)
    gid = _gid('num', q)

    def LT(c):
        if nn and c <= 0:
            return FALSE
        return mk(_var(gid, c, 0, 'lt', (q, c)), TRUE, FALSE)

    def EQ(c):
        return mk(_var(gid, c, 1, 'eq', (q, c)), TRUE, FALSE)
    if isint:
        fl = Fr(math.floor(k))
        ce = Fr(math.ceil(k))
        lt = LT(ce)
        le = LT(fl + 1)
        eq = and_(LT(k + 1), not_(LT(k))) if k.denominator == 1 else FALSE
    else:
        lt = LT(k)
        if nn and k < 0:
            le, eq = FALSE, FALSE
        else:
            le = or_(lt, EQ(k))
            eq = and_(not_(lt), EQ(k))
    if sgn > 0:
        r = (lt, le, eq)
    else:
        r = (not_(le), not_(lt), eq)
    _c0[d.id] = r
    return r


def lt(a, b):
    return map2('lt', _lt_leaf, a, b)


def le(a, b):
    return map2('le', _le_leaf, a, b)


LITERAL = ('str', 'enum', 'null', 'bool', 'ptr', 'fnref')
# enumerations with a known closed set of values: type -> list of values
ENUM_DOMAIN = {}


def _eqt(t, lit):
    gid = _gid('eqt', t)
    return mk(_var(gid, (lit.id,), 0, 'eqt', (t, lit)), TRUE, FALSE)


def _eq_leaf(a, b, kind=None):
    if a is b:
        return TRUE
    if a.tag == 'poly' or b.tag == 'poly' or a.tag == 'bool' and b.tag == 'poly':
        return _eq0(p_add(asnum(a), asnum(b), -1))
    la, lb = a.tag in LITERAL, b.tag in LITERAL
    if la and lb:
        return FALSE
    if a.tag == 'bool' or b.tag == 'bool':
        x, y = (a, b) if b.tag == 'bool' else (b, a)
        t = bool_atom(x)
        return t if y is TRUE else not_(t)
    if la:
        a, b, la, lb = b, a, lb, la
    if lb:
        if b.tag == 'enum' and b.args[0] in ENUM_DOMAIN:
            dom = ENUM_DOMAIN[b.args[0]]
            vals = [mkT('enum', b.args[0], v) for v in dom]
            last = max(vals, key=lambda x: x.id)
            if b is last and len(vals) > 1:
                r = TRUE
                for v in vals:
                    if v is not last:
                        r = ite(_eqt(a, v), FALSE, r)
                return r
        return _eqt(a, b)
    if a.isint or b.isint or numericish(a) or numericish(b):
        return _eq0(p_add(a, b, -1))
    if a.id > b.id:
        a, b = b, a
    if kind:
        return bool_atom(mkT('app', '==', a, b, kind))
    return bool_atom(mkT('app', '==', a, b))


def numericish(t):
    return t.tag == 'app' and t.args[0] in ('sum', 'sqrt', 'sin', 'cos', 'exp', 'log', 'pow')


_EQK = {}


def eq(a, b, kind=None):
    """kind: ('e', enumeration) or ('p',), what is compared if it is not a number"""
    if kind:
        f = _EQK.get(kind)
        if f is None:
            f = _EQK[kind] = ('eq:' + repr(kind), lambda x, y: _eq_leaf(x, y, kind))
        return map2(f[0], f[1], a, b)
    return map2('eq', _eq_leaf, a, b)


def eq_num(a, b):
    return map2('eqn', lambda x, y: _eq0(p_add(asnum(x), asnum(y), -1)), a, b)


def bool_atom(t):
    """boolean V for an opaque leaf"""
    if t.tag == 'bool':
        return t
    gid = _gid('b', t)
    return mk(_var(gid, 0, 0, 'b', t), TRUE, FALSE)


def truth(v):
    """convert any V used as a condition"""
    def f(t):
        if t.tag == 'bool':
            return t
        if t.tag == 'poly' or t.isint:
            return not_(_eq0(t))
        if t.tag == 'null':
            return FALSE
        if t.tag in ('ptr', 'str'):
            return TRUE
        return bool_atom(t)
    return map1('truth', f, v)


def truth_ptr(v):
    return not_(eq(v, NULL))


# ---------------------------------------------------------------- functions
def app(name, *args, isint=False, nonneg=False, boolean=False):
    def f(*ls):
        t = mkT('app', name, *ls, isint=isint, nonneg=nonneg)
        return bool_atom(t) if boolean else t
    vs = [a for a in args if isinstance(a, (T, D))]
    if len(vs) == len(args):
        r = mapn(f, list(args))
        if r is not None:
            return r
    return f(*args)


def fold_const_sqrt(c):
    if c < 0:
        return None
    n, d = c.numerator, c.denominator
    sn, sd = math.isqrt(n), math.isqrt(d)
    if sn * sn == n and sd * sd == d:
        return num(Fr(sn, sd))
    return None


def _sqrt_leaf(t):
    t = asnum(t)
    c = const_of(t)
    if c is not None:
        r = fold_const_sqrt(c)
        if r is not None:
            return r
    # perfect square monomial of nonneg atoms?
    p = poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if m and all(e % 2 == 0 for a, e in m) and c > 0:
            r = fold_const_sqrt(c)
            if r is not None:
                h = from_poly({tuple((a, e // 2) for a, e in m): Fr(1)})
                return p_mul_v(r, _abs_leaf(h))
    # pull out positive square content
    return mkT('app', 'sqrt', t, nonneg=True)


def p_mul_v(a, b):
    return mul(a, b)


def sqrt(a):
    return map1('sqrt', _sqrt_leaf, a)


def _abs_leaf(t):
    t = asnum(t)
    if is_nonneg(t):
        return t
    c = const_of(t)
    if c is not None:
        return num(abs(c))
    return ite(_lt_leaf(t, ZERO), p_neg(t), t)


def fabs(a):
    return map1('abs', _abs_leaf, a)


def vmin(a, b):
    return ite(lt(b, a), b, a)


def vmax(a, b):
    return ite(lt(a, b), b, a)


def _pow_leaf(x, y):
    x, y = asnum(x), asnum(y)
    c = const_of(y)
    if c is not None:
        if c.denominator == 1 and abs(c) <= 16:
            return p_pow(x, int(c))
        if c.denominator == 2 and abs(c) <= 8:
            s = _sqrt_leaf(x)
            return map1('pow%d' % c.numerator, lambda l: p_pow(l, c.numerator), s)
        cx = const_of(x)
        if cx == 1:
            return ONE
    cx = const_of(x)
    if cx == 10 and c is not None and c.denominator == 1 and abs(c) < 60:
        return num(Fr(10) ** int(c))
    return mkT('app', 'pow', x, y, nonneg=True)


def vpow(a, b):
    return map2('pow', _pow_leaf, a, b)


def _signed(t):
    """(sign, |t| canonical) with positive leading coefficient"""
    t = asnum(t)
    p = t.args[0] if t.tag == 'poly' else None
    if p and p[0][1] < 0:
        return -1, p_neg(t)
    return 1, t


def odd_fn(name):
    def f(t):
        if const_of(asnum(t)) == 0:
            return ZERO
        s, q = _signed(t)
        r = mkT('app', name, q)
        return r if s > 0 else p_neg(r)
    return lambda a: map1(name, f, a)


def even_fn(name, at0=None):
    def f(t):
        if at0 is not None and const_of(asnum(t)) == 0:
            return at0
        s, q = _signed(t)
        return mkT('app', name, q)
    return lambda a: map1(name, f, a)


def plain_fn(name, at=None, nonneg=False, isint=False):
    at = at or {}

    def f(t):
        c = const_of(asnum(t))
        if c is not None and c in at:
            return at[c]
        return mkT('app', name, asnum(t), nonneg=nonneg, isint=isint)
    return lambda a: map1(name, f, a)


def _trunc_leaf(t):
    t = asnum(t)
    if t.isint:
        return t
    c = const_of(t)
    if c is not None:
        return num(int(c))
    return mkT('app', 'trunc', t, isint=True, nonneg=is_nonneg(t))


def trunc(a):
    return map1('trunc', _trunc_leaf, a)


def _floor_leaf(t):
    t = asnum(t)
    if t.isint:
        return t
    c = const_of(t)
    if c is not None:
        return num(math.floor(c))
    return mkT('app', 'floor', t, isint=True)


def _ceil_leaf(t):
    t = asnum(t)
    if t.isint:
        return t
    c = const_of(t)
    if c is not None:
        return num(math.ceil(c))
    return mkT('app', 'ceil', t, isint=True)


UNARY = {
    'sqrt': sqrt, 'abs': fabs, 'fabs': fabs,
    'sin': odd_fn('sin'), 'tan': odd_fn('tan'), 'asin': odd_fn('asin'),
    'atan': odd_fn('atan'), 'sinh': odd_fn('sinh'), 'tanh': odd_fn('tanh'),
    'asinh': odd_fn('asinh'), 'atanh': odd_fn('atanh'), 'cbrt': odd_fn('cbrt'),
    'erf': odd_fn('erf'),
    'cos': even_fn('cos', ONE), 'cosh': even_fn('cosh', ONE),
    'exp': plain_fn('exp', {0: ONE}, nonneg=True), 'log': plain_fn('log', {1: ZERO}),
    'log10': plain_fn('log10'), 'log2': plain_fn('log2'),
    'acos': plain_fn('acos'), 'acosh': plain_fn('acosh'),
    'tgamma': plain_fn('tgamma'), 'lgamma': plain_fn('lgamma'),
    'expm1': plain_fn('expm1'), 'log1p': plain_fn('log1p'), 'erfc': plain_fn('erfc'),
    'floor': lambda a: map1('floor', _floor_leaf, a),
    'ceil': lambda a: map1('ceil', _ceil_leaf, a),
    'trunc': trunc,
    'round': plain_fn('round', isint=True), 'lround': plain_fn('round', isint=True),
    'nearbyint': plain_fn('nearbyint', isint=True), 'rint': plain_fn('nearbyint', isint=True),
}


# ---------------------------------------------------------------- objects
# obj(base, ((comp, V), ...)): value of an aggregate; base None: nothing else
# comp: ('f', name) | ('i', int) | ('k', T)
def obj(base, fields, ty=''):
    fs = []
    if base is UNDEF:
        base = None
        ty = 'vec' if fields and all(c[0] == 'i' for c in fields) else ''
    for c, v in fields.items():
        if base is not None and isinstance(v, T) and v is sel_raw(base, c):
            continue
        fs.append((c, v))
    if not fs and base is not None:
        return base
    fs.sort(key=lambda x: (x[0][0], str(x[0][1]) if not isinstance(x[0][1], int) else '%08d' % x[0][1]))
    return mkT('obj', base if base is not None else '', tuple(fs), ty if base is None else '')


SELTYPE = {}   # (comp) -> flags, set by the interpreter through hints


def sel_raw(t, comp, isint=False, nonneg=False):
    return mkT('sel', t, comp, isint=isint, nonneg=nonneg)


def _difft(a, b):
    """True if index terms certainly differ"""
    if isinstance(a, int) and isinstance(b, int):
        return a != b
    ta = num(a) if isinstance(a, int) else a
    tb = num(b) if isinstance(b, int) else b
    if isinstance(ta, T) and isinstance(tb, T):
        if ta.tag in ('str', 'enum') and tb.tag in ('str', 'enum'):
            return ta is not tb
        if ta.tag in ('str', 'enum') or tb.tag in ('str', 'enum'):
            return False
        c = const_of(p_add(asnum(ta), asnum(tb), -1))
        return c is not None and c != 0
    return False


def sel(v, comp, isint=False, nonneg=False):
    def f(t):
        while True:
            if t.tag == 'obj':
                for c, x in t.args[1]:
                    if c == comp:
                        return x
                base = t.args[0]
                if base == '':
                    if comp[0] == 'f' and comp[1] == '#size':
                        pass
                    return mkT('sel', t, comp, isint=isint, nonneg=nonneg) if comp[0] != 'f' else UNDEF
                # symbolic index vs. known constant-index fields
                if comp[0] == 'i' and not isinstance(comp[1], int):
                    return mkT('sel', t, comp, isint=isint, nonneg=nonneg)
                t = base
                continue
            if t.tag == 'store':
                a, c, x = t.args
                if c == comp or (c[0] == comp[0] and c[1] is comp[1]):
                    return x
                if c[0] != comp[0] or _difft(c[1], comp[1]):
                    t = a
                    continue
                return mkT('sel', t, comp, isint=isint, nonneg=nonneg)
            if t.tag == 'filled' and comp[0] == 'i':
                return t.args[1]
            return mkT('sel', t, comp, isint=isint, nonneg=nonneg)
    if isinstance(v, T):
        return f(v)
    return map1(('sel', comp if not isinstance(comp[1], T) else (comp[0], comp[1].id), isint), f, v)


def upd(v, comp, x):
    if isinstance(v, D):
        return ite(mk(v.var, TRUE, FALSE), upd(v.hi, comp, x), upd(v.lo, comp, x))
    t = v
    const = comp[0] == 'f' or isinstance(comp[1], int)
    if const:
        if t.tag == 'obj':
            d = dict(t.args[1])
            d[comp] = x
            return obj(t.args[0] if t.args[0] != '' else None, d, t.args[2])
        return obj(t, {comp: x})
    # symbolic index / key
    if t.tag == 'store' and (t.args[1] == comp or t.args[1][1] is comp[1]):
        return upd(t.args[0], comp, x)
    if isinstance(x, T) and x is sel(t, comp):
        return t
    return mkT('store', t, comp, x)


def merge_leaf(c, a, b):
    """inward merge of ite(c,a,b) for aggregates; None if not applicable"""
    ta, tb = a.tag, b.tag
    if ta == 'obj' or tb == 'obj':
        ba = a.args[0] if ta == 'obj' else a
        bb = b.args[0] if tb == 'obj' else b
        if ba is bb or (ba == '' and bb == '' ):
            fa = dict(a.args[1]) if ta == 'obj' else {}
            fb = dict(b.args[1]) if tb == 'obj' else {}
            base = None if ba == '' else ba
            if base is None and set(fa) != set(fb):
                return None
            out = {}
            for k in list(fa) + [k for k in fb if k not in fa]:
                x = fa[k] if k in fa else sel(base, k)
                y = fb[k] if k in fb else sel(base, k)
                if k not in fa:
                    x = sel_like(base, k, y)
                if k not in fb:
                    y = sel_like(base, k, x)
                out[k] = ite(c, x, y)
            ty = a.args[2] if ta == 'obj' else b.args[2]
            return obj(base, out, ty)
    if ta == 'store' and a.args[0] is b:
        return upd(b, a.args[1], ite(c, a.args[2], sel_like(b, a.args[1], a.args[2])))
    if tb == 'store' and b.args[0] is a:
        return upd(a, b.args[1], ite(c, sel_like(a, b.args[1], b.args[2]), b.args[2]))
    if ta == 'store' and tb == 'store' and a.args[0] is b.args[0] and a.args[1] == b.args[1]:
        return upd(a.args[0], a.args[1], ite(c, a.args[2], b.args[2]))
    return None


def sel_like(base, comp, other):
    ii = any(l.isint for l in leaves(other))
    return sel(base, comp, isint=ii)


# ---------------------------------------------------------------- substitution
def subst(v, mp):
    """mp: dict id -> V for symbols"""
    keys = frozenset(mp)
    memo = {}
    fvkeys = frozenset().union(*[NODES[k].fv for k in keys]) if keys else EMPTY

    def arg(a):
        if isinstance(a, (T, D)):
            return go(a)
        if isinstance(a, tuple):
            return tuple(arg(x) for x in a)
        return a

    def go(n):
        if fvkeys and not (n.fv & fvkeys):
            return n
        r = memo.get(n.id)
        if r is not None:
            return r
        if n.id in mp:
            r = mp[n.id]
        elif isinstance(n, D):
            r = ite(go_var(n.var), go(n.hi), go(n.lo))
        elif n.tag == 'poly':
            r = ZERO
            for m, c in n.args[0]:
                x = num(c)
                for a, e in m:
                    b = go(NODES[a])
                    x = mul(x, map1('pw%d' % e, lambda l, e=e: p_pow(l, e), b)
                            if e != 1 else b)
                r = add(r, x)
        elif n.tag == 'app':
            r = rebuild_app(n, [arg(a) for a in n.args[1:]])
        elif n.tag == 'sel':
            b = go(n.args[0])
            comp = n.args[1]
            c1 = arg(comp[1])
            r = sel_v(b, comp[0], c1, n.isint, n.nonneg)
        elif n.tag == 'obj':
            base = n.args[0]
            fs = {}
            for c, x in n.args[1]:
                fs[(c[0], arg(c[1]))] = arg(x)
            if base == '':
                r = obj(None, fs, n.args[2])
            else:
                r = go(base)
                for c, x in fs.items():
                    r = upd(r, c, x)
        elif n.tag == 'store':
            b = go(n.args[0])
            c = n.args[1]
            r = upd_v(b, c[0], arg(c[1]), arg(n.args[2]))
        else:
            r = mkT(n.tag, *[arg(a) for a in n.args], isint=n.isint, nonneg=n.nonneg)
        memo[n.id] = r
        return r

    def go_var(v):
        if v.kind == 'lt':
            q, c = v.data
            return lt(go(q), num(c))
        if v.kind == 'eq':
            q, c = v.data
            return eq_num(go(q), num(c))
        if v.kind == 'eqt':
            return eq(go(v.data[0]), v.data[1])
        return truth(go(v.data))
    return go(v)


def comp_norm(kind, x):
    if isinstance(x, T):
        c = const_of(x)
        if c is not None and c.denominator == 1:
            return (kind, int(c))
    return (kind, x)


def sel_v(b, kind, x, isint=False, nonneg=False):
    if isinstance(x, D):
        return ite(mk(x.var, TRUE, FALSE), sel_v(b, kind, x.hi, isint, nonneg),
                   sel_v(b, kind, x.lo, isint, nonneg))
    return sel(b, comp_norm(kind, x), isint, nonneg)


def upd_v(b, kind, x, val):
    if isinstance(x, D):
        c = mk(x.var, TRUE, FALSE)
        return ite(c, upd_v(b, kind, x.hi, val), upd_v(b, kind, x.lo, val))
    return upd(b, comp_norm(kind, x), val)


def rebuild_app(n, args):
    name = n.args[0]
    if name in UNARY and len(args) == 1 and isinstance(args[0], (T, D)):
        return UNARY[name](args[0])
    if name == 'pow':
        return vpow(*args)
    if name == 'idiv':
        return idiv(*args)
    if name == 'mod':
        return mod(*args)
    if name == 'P':
        return args[0]
    if name == '==':
        return eq(*args)
    if name == 'sum':
        return mk_sum(args[0], args[1], args[2])
    if name == 'size':
        return size_of(args[0])
    if all(isinstance(a, (T, D)) for a in args) and name not in BINDERS:
        r = mapn(lambda *ls: mkT('app', name, *ls, isint=n.isint, nonneg=n.nonneg), args)
        if r is not None:
            return r
    if name in BINDERS:
        return mkT('app', name, *args, isint=n.isint, nonneg=n.nonneg,
                   bind=frozenset([args[0].id]) if isinstance(args[0], T) and args[0].tag == 'sym' else None)
    return mkT('app', name, *args, isint=n.isint, nonneg=n.nonneg)


BINDERS = {'sum', 'exists', 'first', 'loop', 'last', 'mapupd', 'mapcat'}


def size_of(v):
    def f(t):
        n = 0
        while True:
            if t.tag == 'obj' and t.args[0] == '':
                for c, x in t.args[1]:
                    if c == ('f', '#size'):
                        return x
                if all(c[0] == 'i' for c, _ in t.args[1]) and t.args[1]:
                    return num(len(t.args[1]) + n)
                if not t.args[1] and t.args[2] == 'vec':
                    return num(n)
            if t.tag == 'obj' and t.args[0] != '':
                if any(c == ('f', '#size') for c, _ in t.args[1]):
                    return dict(t.args[1])[('f', '#size')]
                t = t.args[0]
                continue
            if t.tag == 'store' and t.args[1][0] == 'i':
                t = t.args[0]
                continue
            if t.tag == 'str':
                return num(len(t.args[0].encode('utf-8', 'surrogateescape')) + n)
            if t.tag == 'app' and t.args[0] == 'concat' and len(t.args) < 12:
                r = num(n)
                for x in t.args[1:]:
                    r = add(r, size_of(x))
                return r
            if t.tag == 'filled':
                r = t.args[0]
                return p_add(r, num(n)) if isinstance(r, T) else add(r, num(n))
            if t.tag == 'app' and t.args[0] == 'push_back' and isinstance(t.args[1], T):
                n += 1
                t = t.args[1]
                continue
            if t.tag == 'str':
                return num(len(t.args[0].encode()))
            break
        r = mkT('app', 'size', t, isint=True, nonneg=True)
        return p_add(r, num(n)) if n else r
    return map1('size', f, v)


# ---------------------------------------------------------------- sums
def mk_sum(k, dom, body):
    """sum over k in dom (a V-bool in k) of body"""
    ks = k.fv
    if isinstance(body, D):
        if not (body.var.fv & ks) :
            return ite(mk(body.var, TRUE, FALSE), mk_sum(k, dom, body.hi), mk_sum(k, dom, body.lo))
        return mkT('app', 'sum', k, dom, body, bind=ks, isint=all(l.isint for l in leaves(body)))
    p = poly(asnum(body))
    out = ZERO
    for m, c in p.items():
        outm, inm = [], []
        for a, e in m:
            (inm if NODES[a].fv & ks else outm).append((a, e))
        inner = from_poly({tuple(inm): Fr(1)})
        if inner is ONE:
            s = dom_count(k, dom)
        else:
            s = mkT('app', 'sum', k, dom, inner, bind=ks, isint=inner.isint)
        out = add(out, mul(from_poly({tuple(outm): c}), s))
    return out


def dom_count(k, dom):
    # dom is "k < N"  ->  N (assuming N >= 0)
    n = dom_bound(k, dom)
    if n is not None and is_nonneg(n):
        return n
    return mkT('app', 'sum', k, dom, ONE, bind=k.fv, isint=True)


def dom_bound(k, dom):
    """N if dom is exactly  k < N with N free of k, else None"""
    if isinstance(dom, D) and dom.hi is TRUE and dom.lo is FALSE and dom.var.kind == 'lt':
        q, c = dom.var.data
        p = dict(poly(q))
        ck = p.pop(((k.id, 1),), None)
        if ck == 1:
            rest = from_poly(p)
            if not (rest.fv & k.fv):
                return p_add(num(c), rest, -1)
    if isinstance(dom, D) and dom.hi is FALSE and dom.lo is TRUE and dom.var.kind == 'lt':
        # not (q < c)  with q = N' - k :  N'-k >= c  ->  k < N'-c+1
        q, c = dom.var.data
        p = dict(poly(q))
        ck = p.pop(((k.id, 1),), None)
        if ck == -1:
            rest = from_poly(p)
            if not (rest.fv & k.fv):
                return p_add(p_add(rest, num(c), -1), ONE)
    return None


# ---------------------------------------------------------------- printing
def show(v, depth=0):
    if depth > 14:
        return '…'
    if isinstance(v, D):
        return '(%s ? %s : %s)' % (showvar(v.var, depth + 1), show(v.hi, depth + 1), show(v.lo, depth + 1))
    if isinstance(v, tuple):
        return '[' + ', '.join(show(x, depth + 1) for x in v) + ']'
    if not isinstance(v, T):
        return str(v)
    if v.tag == 'poly':
        if not v.args[0]:
            return '0'
        out = []
        for m, c in v.args[0]:
            fs = []
            for a, e in m:
                s = show(NODES[a], depth + 1)
                fs.append(s if e == 1 else '%s^%s' % (s, e))
            cs = str(c) if abs(c.denominator) < 10**6 else '%.12g' % float(c)
            if not fs:
                out.append(cs)
            elif c == 1:
                out.append('*'.join(fs))
            elif c == -1:
                out.append('-' + '*'.join(fs))
            else:
                out.append(cs + '*' + '*'.join(fs))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if v.tag == 'app':
        return '%s(%s)' % (v.args[0], ', '.join(show(a, depth + 1) for a in v.args[1:]))
    if v.tag == 'sel':
        c = v.args[1]
        return show(v.args[0], depth + 1) + ('.%s' % c[1] if c[0] == 'f' else '[%s]' % show(c[1], depth + 1))
    if v.tag == 'obj':
        return '{%s%s}' % ('' if v.args[0] == '' else show(v.args[0], depth + 1) + ' with ',
                           ', '.join('%s=%s' % (c[1] if not isinstance(c[1], T) else show(c[1], depth + 1), show(x, depth + 1)) for c, x in v.args[1]))
    if v.tag == 'store':
        return '%s[%s:=%s]' % (show(v.args[0], depth + 1), show(v.args[1][1], depth + 1), show(v.args[2], depth + 1))
    if v.tag == 'enum':
        return '%s#%s' % (v.args[0].rsplit('::', 1)[-1], v.args[1])
    if v.tag == 'str':
        return '"%s"' % v.args[0]
    if v.tag in ('sym',):
        return str(v.args[0])
    if v.tag == 'bool':
        return 'true' if v.args[0] else 'false'
    return v.tag + ('(' + ', '.join(show(a, depth + 1) for a in v.args) + ')' if v.args else '')


def showvar(w, depth=0):
    if w.kind == 'lt':
        return '%s<%s' % (show(w.data[0], depth), w.data[1])
    if w.kind == 'eq':
        return '%s<=%s' % (show(w.data[0], depth), w.data[1])
    if w.kind == 'eqt':
        return '%s==%s' % (show(w.data[0], depth), show(w.data[1], depth))
    return show(w.data, depth)


_TABLES = (_intern, _pintern, _groups, _vars, _gfv, _rmemo, _imemo, _amemo, _c0)
_base = None


def reset():
    """Forget all value numbers but the constants: the flags of a symbol (integer,
    non-negative) belong to one obligation."""
    global _base
    if _base is None:
        _base = (len(NODES), [dict(t) for t in _TABLES])
    del NODES[_base[0]:]
    for t, b in zip(_TABLES, _base[1]):
        t.clear()
        t.update(b)
