"""Forward abstract interpreter over the typed syntax trees.

Every function is summarised by value numbering into normal forms: its return
value, the final value of everything it can reach from the outside, and the
ordered trace of guarded effects.  Branches join into decision diagrams, loops
are summarised once (no unrolling except for small constant bounds), repository
helpers are inlined.  Constructs that are not modelled taint the summary.
"""
import os
import re
from fractions import Fraction as Fr
from terms import *
import terms as TM

MATH1 = set(UNARY)


class Unsupported(Exception):
    pass


# operators which return the object itself
SELFOP = re.compile(r'operator(\+\+|--|[-+*/%]?=)$')


class State:
    __slots__ = ('cells', 'pc')

    def __init__(self, cells, pc):
        self.cells = cells
        self.pc = pc

    def fork(self, c):
        return State(dict(self.cells), and_(self.pc, c))


class Frame:
    __slots__ = ('env', 'this', 'returns', 'breaks', 'conts', 'fn', 'src', 'T', 'bind', 'tries')

    def __init__(self, fn, src, T):
        self.env = {}
        self.this = None
        self.returns = []
        self.breaks = []
        self.conts = []
        self.fn = fn
        self.src = src
        self.T = T
        self.bind = {}


class Event:
    __slots__ = ('guard', 'term', 'line')

    def __init__(self, guard, term, line):
        self.guard, self.term, self.line = guard, term, line


def care(f, c):
    """f with everything outside the care set c forgotten (canonical)"""
    if c is TRUE or isinstance(f, T):
        return f
    if c is FALSE:
        return f
    memo = {}

    def go(f, c):
        if c is TRUE or isinstance(f, T):
            return f
        k = (f.id, c.id)
        r = memo.get(k)
        if r is not None:
            return r
        v = top(f, c)
        c1, c0 = restrict(c, v, True), restrict(c, v, False)
        if c1 is FALSE:
            r = go(restrict(f, v, False), c0)
        elif c0 is FALSE:
            r = go(restrict(f, v, True), c1)
        else:
            r = ite(mk(v, TRUE, FALSE), go(restrict(f, v, True), c1), go(restrict(f, v, False), c0))
        memo[k] = r
        return r
    return go(f, c)


LAMNAME = re.compile(r'\(lambda at [^)]*\)')
_known = None


def known_functions():
    global _known
    if _known is None:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'known.txt')
        with open(p) as f:
            _known = set(f.read().split('\n'))
    return _known


CQ = re.compile(r'^const |[ &]+$')
STDARR = re.compile(r'^std::array<(.*), (\d+)>$')
CARR = re.compile(r'\[(\d+)\]$')


def is_std(n, *names):
    return any(n.startswith('std::' + x) or n.startswith('std::__cxx11::' + x) for x in names)


SEQ = ('vector<', 'deque<', 'list<', 'basic_string<', 'array<', 'initializer_list<', 'span<')
MAPS = ('map<', 'unordered_map<', 'set<', 'unordered_set<', 'multimap<')
PTRS = ('unique_ptr<', 'shared_ptr<')

from interp_re import IMPURE_STD
import effects
PURE_OTHER = re.compile(r'^(gsl_|Eigen::)')


class Interp:
    def __init__(self, db, opaque=(), maxdepth=24, unroll=16, inline=(), limit=60):
        self.db = db
        self.opaque = set(opaque)
        self.force = set(inline)
        self.limit = limit
        self.opaque_used = {}
        self.nonint = set()
        self.unsigned = set()    # local roots of unsigned type
        self.maxdepth = maxdepth
        self.unroll = unroll
        self.loopw = {}
        self.reset()

    # ------------------------------------------------------------ set-up
    def reset(self):
        self.st = None
        self.fr = None
        self.trace = []
        self.base = TRUE
        self.taint = []
        self.uid = 0
        self.depth = 0
        self.stack = []
        self.loopdepth = 0
        self.wlogs = []
        self.closures = {}
        self.lamdepth = 0
        self._hl = {}
        self.evcount = {}
        self.globals_seen = {}
        self.steps = 0
        self.analysed = set()
        self.curline = 0
        self.rootinit = {}

    def fresh(self):
        self.uid += 1
        return self.uid

    def t(self, node):
        i = node.get('t', -1) if isinstance(node, dict) else node
        if i is None or i < 0:
            return {'n': '?', 'k': 'o'}
        return self.fr.T[i]

    def unk(self, why, node=None):
        l = node.get('l', 0) if isinstance(node, dict) else 0
        self.taint.append('%s (line %s)' % (why, l or self.curline))
        return mkT('unk', why, self.fresh())

    # ------------------------------------------------------------ cells
    def root_init(self, root):
        if root[0] == 'R':
            return self.rootinit.get(root) or sym(root[1])
        if root[0] == 'D':
            if root[1].tag == 'app' and root[1].args[0] == 'new' and len(root[1].args) == 2:
                return root[1].args[1]
            return mkT('deref', root[1])
        if root[0] == 'G':
            return self.global_init(root[1])
        if root[0] == 'S':
            return sym('static:%s' % (root[1],))
        return UNDEF

    def global_init(self, m):
        g = None
        if self.fr is not None:
            g = self.db.glob.get(m + '@' + self.fr.src)
        g = g or self.db.glob.get(m)
        if g is not None and g.get('const') and 'init' in g and not g.get('tls'):
            if m in self.globals_seen:
                return self.globals_seen[m]
            t = g['_T'][g['t']] if g['t'] >= 0 else {'k': 'o', 'n': ''}
            simple = t['k'] in 'iudbe' or STDARR.match(t['n']) or t['k'] == 'r' and t['n'] in ('smash::PdgCode', 'std::basic_string<char>', 'smash::ThreeVector', 'smash::FourVector') or t['k'] == 'a'
            if simple or t['n'].startswith('std::'):
                self.globals_seen[m] = sym('glob:' + g['q'])
                fr = Frame(None, g['_src'], g['_T'])
                ofr, ost, obase = self.fr, self.st, self.base
                try:
                    self.fr = fr
                    self.st = State({}, TRUE)
                    v = self.eval(g['init'])
                    v = self.coerce(v, t, g['init'])
                except (Unsupported, TooBig):
                    v = sym('glob:' + g['q'])
                finally:
                    self.fr, self.st, self.base = ofr, ost, obase
                if any(l.tag == 'unk' for l in leaves(v)):
                    v = sym('glob:' + g['q'])
                self.globals_seen[m] = v
                return v
            return sym('glob:' + g['q'])
        if g is not None:
            t = g['_T'][g['t']]
            return sym('glob:' + g['q'], isint=t['k'] in 'iu', nonneg=t['k'] == 'u')
        return sym('glob:' + m)

    def cell(self, root):
        v = self.st.cells.get(root)
        if v is None:
            v = self.root_init(root)
        return v

    def read(self, lv, ty=None):
        if lv[0] == 'cond':
            return ite(lv[1], self.read(lv[2], ty), self.read(lv[3], ty))
        if lv[0] == 'val':
            return lv[1]
        _, root, path = lv
        v = self.cell(root)
        ii = ty is not None and ty['k'] in ('i', 'u')
        nn = ty is not None and ty['k'] == 'u'
        for n, c in enumerate(path):
            last = n == len(path) - 1
            v = sel_v(v, c[0], c[1], ii and last, nn and last)
        return v

    def write(self, lv, val):
        if lv[0] == 'cond':
            self.write(lv[2], ite(lv[1], val, self.read(lv[2])))
            self.write(lv[3], ite(lv[1], self.read(lv[3]), val))
            return
        if lv[0] == 'val':
            return
        _, root, path = lv
        if self.wlogs:
            p = []
            for c in path:
                if c[0] != 'f' and not isinstance(c[1], int):
                    break
                p.append(c)
            for w in self.wlogs:
                w.add((root, tuple(p)))

        def go(v, path):
            if not path:
                return val
            c = path[0]
            old = sel_v(v, c[0], c[1]) if len(path) > 1 else None
            if old is UNDEF and len(path) > 1:
                old = mkT('obj', '', (), '')
            return upd_v(v, c[0], c[1], go(old, path[1:]))
        self.st.cells[root] = go(self.cell(root), path)

    def sub_lv(self, lv, comp):
        if lv[0] == 'cond':
            return ('cond', lv[1], self.sub_lv(lv[2], comp), self.sub_lv(lv[3], comp))
        if lv[0] == 'val':
            return ('val', sel_v(lv[1], comp[0], comp[1]))
        if isinstance(comp[1], T):
            comp = comp_norm(comp[0], comp[1])
        return ('lv', lv[1], lv[2] + (comp,))

    def temp(self, v):
        root = ('L', self.fresh())
        self.st.cells[root] = v
        return ('lv', root, ())

    # pointers -----------------------------------------------------
    def deref(self, v):
        """LV a pointer value refers to"""
        if isinstance(v, D):
            return ('cond', mk(v.var, TRUE, FALSE), self.deref(v.hi), self.deref(v.lo))
        if v.tag == 'ptr':
            return ('lv', v.args[0], v.args[1])
        if v.tag == 'iter':
            ref, idx = v.args
            return self.sub_lv(('lv', ref.args[0], ref.args[1]), ('i', idx))
        if v.tag == 'iterd':   # iterator over a value (no lvalue)
            return ('val', sel_v(v.args[0], 'i', v.args[1]))
        if v.tag == 'mapit':
            ref, key = v.args
            lv = ('lv', ref.args[0], ref.args[1])
            return ('mapelem', lv, key)
        return ('lv', ('D', v), ())

    def addr(self, lv):
        if lv[0] == 'cond':
            return ite(lv[1], self.addr(lv[2]), self.addr(lv[3]))
        if lv[0] == 'val':
            return self.addr(self.temp(lv[1]))
        if lv[1][0] == 'D' and not lv[2]:
            return lv[1][1]
        if lv[2] and lv[2][-1][0] == 'i':
            # the address of an array element is a random-access iterator
            x = lv[2][-1][1]
            return mkT('iter', mkT('ref', lv[1], lv[2][:-1]), x if isinstance(x, (T, D)) else num(x))
        return mkT('ptr', lv[1], lv[2])

    def ref(self, lv):
        if lv[0] in ('val', 'cond'):
            lv = self.temp(self.read(lv))
        return mkT('ref', lv[1], lv[2])

    # ------------------------------------------------------------ events
    def event(self, name, args, node=None, result=None):
        g = and_(self.base, self.st.pc)
        if g is FALSE:
            return UNDEF
        args = [self.freeze(a) if isinstance(a, (T, D)) else a for a in args]
        t = mkT('ev', name, *args)
        self.trace.append(Event(g, t, (node or {}).get('l', 0) or self.curline))
        if result is not None and result['k'] != 'v':
            key = (id(self.trace), name)
            # number of earlier calls of the same function on the same path
            prev = self.evcount.get(key, ())
            self.evcount[key] = prev + (g,)
            n, may = 0, []
            for h in prev:
                b = and_(h, g)
                if b is g:
                    n += 1
                elif b is not FALSE:
                    may.append(h)
            if may:
                n = num(n)
                for h in may:
                    n = add(n, ite(care(h, g), num(1), num(0)))
            r = mkT('app', 'res', name, n, *args, isint=result['k'] in 'iu', nonneg=result['k'] == 'u',
                    fv=TM._fvs(args) | self.loopfv())
            if result['k'] == 'b':
                return bool_atom(r)
            return r
        return VOID

    def loopfv(self):
        return frozenset(self.loopk[-1].fv) if getattr(self, 'loopk', None) else EMPTY

    def freeze(self, v, seen=()):
        """replace addresses of locals / closures by what they denote"""
        if isinstance(v, D) or isinstance(v, T):
            if not self.has_local(v):
                return v

        def go(n):
            if isinstance(n, D):
                return ite(mk(n.var, TRUE, FALSE), go(n.hi), go(n.lo))
            if n.tag == 'ptr' and n.args[0][0] == 'L':
                if n in seen:
                    return n
                return mkT('app', 'new', self.freeze(self.read(('lv', n.args[0], n.args[1])), seen + (n,)))
            if n.tag == 'iter' and n.args[0].args[0][0] == 'L':
                ref, idx = n.args
                return mkT('app', 'iterof', self.freeze(self.read(('lv', ref.args[0], ref.args[1])), seen + (n,)), idx)
            if n.tag == 'closure':
                return self.closure_term(n)
            if n.tag == 'obj':
                return obj(None if n.args[0] == '' else go(n.args[0]),
                           {c: go(x) for c, x in n.args[1]}, n.args[2])
            if n.tag in ('app', 'store', 'mapit'):
                return mkT(n.tag, *[garg(a) for a in n.args], isint=n.isint, nonneg=n.nonneg, fv=n.fv)
            return n

        def garg(a):
            if isinstance(a, (T, D)):
                return self.freeze(a, seen)
            if isinstance(a, tuple):
                return tuple(garg(x) for x in a)
            return a
        return go(v)

    _hl = None

    def has_local(self, v):
        st = [v]
        seen = set()
        while st:
            n = st.pop()
            if isinstance(n, tuple):
                st.extend(n)
                continue
            if not isinstance(n, (T, D)) or n.id in seen:
                continue
            seen.add(n.id)
            h = self._hl.get(n.id)
            if h is False:
                continue
            if isinstance(n, D):
                st.append(n.hi)
                st.append(n.lo)
                continue
            if n.tag == 'closure' or n.tag == 'ptr' and n.args[0][0] == 'L' or \
                    n.tag == 'ref' and n.args[0][0] == 'L':
                return True
            if n.tag in ('poly', 'sym', 'str', 'bool'):
                continue
            st.extend(n.args)
        for i in seen:
            self._hl[i] = False
        return False

    def closure_term(self, c):
        """what a function object does: summary of its body for symbolic arguments"""
        ret, eff, evs, locs = self.closure_pass(c, {})
        if locs:
            # variables of the enclosing function that are set before they are read
            # in every call are no effect: run again with unknown values in them
            unk = {k: sym('captured%d' % i) for i, k in enumerate(locs)}
            r2 = self.closure_pass(c, unk)
            seen = set()
            st = [r2[0]] + [e[1] for e in r2[1] if e[2] not in unk] + [x for e in r2[2] for x in e]
            while st:
                n = st.pop()
                if isinstance(n, (tuple, list)):
                    st.extend(n)
                elif isinstance(n, D):
                    st += [n.hi, n.lo, n.var.data]
                elif isinstance(n, T) and n.id not in seen:
                    seen.add(n.id)
                    st.extend(n.args)
            eff = [e for e in eff if e[2] not in unk or unk[e[2]].id in seen]
        eff.sort(key=lambda x: (x[0], x[1].args[1].id if x[0] == '*' else x[1].id))
        return mkT('app', 'lam', ret, tuple(e[:2] for e in eff), evs)

    def closure_pass(self, c, unknown):
        clo = self.closures[c.args[0]]
        node = clo[0]
        nps = len(node['params'])
        saved = (self.st, self.trace, self.base, self.evcount)
        self.st = State(dict(self.st.cells), TRUE)
        self.st.cells.update(unknown)
        self.trace = []
        self.base = TRUE
        self.evcount = {}
        self.lamdepth += 1
        try:
            args = []
            for i in range(nps):
                args.append(('lv', ('R', 'λ%d_%d' % (self.lamdepth, i)), ()))
            before = dict(self.st.cells)
            r = self.call_closure(c, args, node)
            if r is None:
                r = VOID
            ret = self.freeze(r)
            eff = []
            locs = []
            for k, v in self.st.cells.items():
                if k[0] == 'L' and k not in before:
                    continue
                if k[0] == 'L' and before[k] is UNDEF:
                    continue             # scratch variable of the enclosing function
                if before.get(k) is not v:
                    if k[0] == 'L':
                        locs.append(k)
                    if k[0] == 'D' and isinstance(k[1], T):
                        eff.append(('*', mkT('app', 'at', self.freeze(k[1]), v), k))
                    else:
                        eff.append((str(k[1]) if k[0] == 'R' else str(k[0]), v, k))
            evs = tuple((e.guard, e.term) for e in self.trace)
            return ret, eff, evs, locs
        finally:
            self.st, self.trace, self.base, self.evcount = saved
            self.lamdepth -= 1

    # ------------------------------------------------------------ statements
    def merge(self, sts):
        sts = [s for s in sts if s is not None and s.pc is not FALSE]
        if not sts:
            return None
        r = sts[-1]
        for s in reversed(sts[:-1]):
            r = self.merge2(s, r)
        return r

    def merge2(self, a, b):
        pc = or_(a.pc, b.pc)
        c = care(a.pc, pc)
        cells = {}
        for k in a.cells:
            x = a.cells[k]
            y = b.cells.get(k)
            if y is None:
                if k[0] == 'L':
                    cells[k] = x     # only live on one side
                    continue
                y = self.root_init(k)
            cells[k] = x if x is y else ite(c, x, y)
        for k in b.cells:
            if k not in a.cells:
                y = b.cells[k]
                if k[0] == 'L':
                    cells[k] = y
                    continue
                x = self.root_init(k)
                cells[k] = x if x is y else ite(c, x, y)
        return State(cells, pc)

    def exec(self, s):
        if s is None or self.st is None:
            return
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported('too many steps')
        k = s['s']
        if s.get('l'):
            self.curline = s['l']
        getattr(self, 's_' + k, self.s_unknown)(s)
        if self.st is not None and self.st.pc is FALSE:
            self.st = None

    def s_unknown(self, s):
        self.unk('statement ' + s['s'] + ' ' + s.get('c', ''), s)

    def s_null(self, s):
        pass

    def s_label(self, s):
        self.unk('label', s)
        self.exec(s['b'])

    def s_block(self, s):
        for c in s['b']:
            if self.st is None:
                return
            self.exec(c)

    def s_expr(self, s):
        self.eval_void(s['e'])

    def s_decl(self, s):
        for v in s['v']:
            self.declare(v)

    def declare(self, v):
        t = self.t(v)
        if v.get('stl'):
            root = ('S', '%s:%s' % (self.fr.fn['q'] if self.fr.fn else '', v['n']))
            self.fr.env[v['id']] = ('lv', root, ())
            if t.get('c') and 'init' in v:
                val = self.coerce(self.eval(v['init']), t, v['init'])
                self.st.cells[root] = val
            return
        if t.get('ref') and 'init' in v:
            lv = self.eval_lv(v['init'])
            self.fr.env[v['id']] = lv
        else:
            root = ('L', self.fresh())
            if 'init' in v and v['init'] is not None:
                val = self.coerce(self.eval(v['init']), t, v['init'])
            else:
                val = UNDEF
            self.st.cells[root] = val
            if t['k'] == 'u':
                self.unsigned.add(root)
            self.fr.env[v['id']] = ('lv', root, ())
        for n, b in enumerate(v.get('binds', ())):
            if b.get('init') is not None and 'hold' in b:
                lv = self.eval_lv(b['init'])
                self.fr.env[b['hold']] = lv
                self.fr.env[b['id']] = lv
            elif b.get('e') is not None:
                self.fr.env[b['id']] = self.eval_lv(b['e'])
            else:
                self.fr.env[b['id']] = ('val', self.unk('binding', v))

    def s_if(self, s):
        if 'init' in s:
            self.exec(s['init'])
        if 'cv' in s:
            self.declare(s['cv'])
        if 'cxv' in s:
            return self.exec(s['th'] if s['cxv'] else s.get('el'))
        c = self.cond(s['c'])
        self.branch(c, lambda: self.exec(s['th']), lambda: self.exec(s.get('el')))

    def branch(self, c, th, el):
        if self.st is None:
            return
        if c is TRUE:
            return th()
        if c is FALSE:
            return el()
        base = self.st
        s1, s2 = base.fork(c), base.fork(not_(c))
        if s1.pc is not FALSE:
            self.st = s1
            th()
            s1 = self.st
        else:
            s1 = None
        if s2.pc is not FALSE:
            self.st = s2
            el()
            s2 = self.st
        else:
            s2 = None
        if s1 is None or s2 is None:
            self.st = s1 or s2
            return
        if s1.pc is and_(base.pc, c) and s2.pc is and_(base.pc, not_(c)):
            # whole branches survive
            a, b = s1, s2
            cells = {}
            for k in a.cells:
                x, y = a.cells[k], b.cells.get(k)
                if x is y:
                    cells[k] = x
                    continue
                if y is None:
                    y = x if k[0] == 'L' else self.root_init(k)
                cells[k] = ite(c, x, y)
            for k in b.cells:
                if k not in a.cells:
                    y = b.cells[k]
                    x = y if k[0] == 'L' else self.root_init(k)
                    cells[k] = ite(c, x, y)
            self.st = State(cells, base.pc)
        else:
            self.st = self.merge2(s1, s2)

    def s_return(self, s):
        v = VOID
        if s.get('e') is not None:
            e = s['e']
            rt = self.fr.fn_rt if hasattr(self.fr, 'fn_rt') else None
            if self.ret_ref():
                v = ('reflv', self.eval_lv(e))
            else:
                v = self.eval(e)
                ty = self.ret_type()
                if ty is not None:
                    v = self.coerce(v, ty, e)
        if self.st is None:
            return
        self.fr.returns.append((self.st, v))
        self.st = None

    def ret_type(self):
        f = self.fr.fn
        if f is None or f.get('rt') is None:
            return None
        return self.fr.T[f['rt']] if f['rt'] >= 0 else None

    def ret_ref(self):
        t = self.ret_type()
        return t is not None and bool(t.get('ref'))

    def s_break(self, s):
        self.fr.breaks.append(self.st)
        self.st = None

    def s_continue(self, s):
        self.fr.conts.append(self.st)
        self.st = None

    throws = None       # states in which the current loop is left by an exception

    def s_try(self, s):
        # The protected block runs as written; handlers are summarised as an
        # alternative that may start from the state before the block.
        saved = self.fr
        st0 = State(dict(self.st.cells), self.st.pc)
        saved_throws, self.throws = self.throws, None
        try:
            self.exec(s['b'])
        finally:
            self.throws = saved_throws
        st1 = self.st
        for n, h in enumerate(s['h']):
            tn = self.t(h['t'])['n'] if 't' in h else '...'
            key = ('try', tn)
            seen = self.evcount.get(key, ())
            self.evcount[key] = seen + (TRUE,)
            c = bool_atom(mkT('app', 'caught', tn, len(seen), *(self.loopk if getattr(self, 'loopk', None) else ()), fv=self.loopfv()))
            self.st = State(dict(st0.cells), and_(st0.pc, c))
            if 'v' in h:
                root = ('L', self.fresh())
                self.st.cells[root] = mkT('sym', 'exception:' + tn)
                self.fr.env[h['v']['id']] = ('lv', root, ())
            self.exec(h['b'])
            if self.st is not None:
                if st1 is not None:
                    st1 = State(st1.cells, and_(st1.pc, not_(c)))
                st1 = self.merge([self.st, st1])
        self.st = st1

    def s_case(self, s):
        self.exec(s['b'])

    def s_default(self, s):
        self.exec(s['b'])

    def s_switch(self, s):
        if 'init' in s:
            self.exec(s['init'])
        if 'cv' in s:
            self.declare(s['cv'])
        v = self.eval(s['c'])
        items = []
        body = s['b']
        stm = body['b'] if body['s'] == 'block' else [body]
        for c in stm:
            labels = []
            while c is not None and c['s'] in ('case', 'default'):
                if c['s'] == 'case':
                    labels.append(c['v'])
                    if 'v2' in c:
                        self.unk('case range', c)
                else:
                    labels.append(None)
                c = c['b']
            items.append((labels, c))
        conds = []
        anyc = FALSE
        for labels, c in items:
            x = FALSE
            for l in labels:
                if l is not None:
                    x = or_(x, eq(self.asenum(v, l), self.eval(l)))
            conds.append(x)
            anyc = or_(anyc, x)
        base = self.st
        obr = self.fr.breaks
        self.fr.breaks = []
        cur = None
        hasdef = False
        for (labels, c), x in zip(items, conds):
            if labels:
                if None in labels:
                    hasdef = True
                    x = or_(x, not_(anyc))
                ent = base.fork(x)
                cur = self.merge([ent, cur])
            if cur is None:
                continue
            self.st = cur
            self.exec(c)
            cur = self.st
        outs = self.fr.breaks + [cur]
        if not hasdef:
            outs.append(base.fork(not_(anyc)))
        self.fr.breaks = obr
        self.st = self.merge(outs)
        if self.st is not None and self.st.pc is base.pc:
            pass

    def asenum(self, v, label):
        return v

    # ------------------------------------------------------------ loops
    def s_for(self, s):
        if 'init' in s and s['init'] is not None:
            self.exec(s['init'])
        cand = self.counted(s)
        if cand is None and s.get('inc') is not None and s['inc']['k'] == 'bin' and s['inc']['op'] == ',':
            # several counters: unrolled by the one the condition is about
            x = s['inc']
            while cand is None and x is not None:
                for y in x['a'] if x['k'] == 'bin' and x['op'] == ',' else ():
                    c = self.counted({'inc': y})
                    if c and any(z.get('k') == 'var' and z.get('id') == c[0] for z in effects.walk(s.get('c') or {})):
                        cand = c + (True,)
                x = x['a'][0] if x['k'] == 'bin' and x['op'] == ',' else None
        if cand is None and s.get('inc') is None and s.get('c') is not None:
            f = self.as_for(s)
            if f is not None:
                return self.loop(f, cond=f['c'], body=f['b'], inc=f['inc'], counter=f['counter'])
        self.loop(s, cond=s.get('c'), body=s['b'], inc=s.get('inc'), counter=cand)

    def as_for(self, s):
        """while (c(i)) { ...; ++i; } is for (; c(i); ++i) { ... }"""
        key = id(s)
        memo = self.__dict__.setdefault('_asfor', {})
        if key in memo:
            return memo[key][1]
        r = None
        b = s['b']
        if b and b.get('s') == 'block' and len(b['b']) > 1 and b['b'][-1] and b['b'][-1].get('s') == 'expr':
            inc = b['b'][-1]['e']
            cand = self.counted({'inc': inc})
            if cand and any(z.get('k') == 'var' and z.get('id') == cand[0] for z in effects.walk(s['c'])) and \
                    not self.own_continue(b):
                r = dict(s, s='for', inc=inc, b=dict(b, b=b['b'][:-1]), counter=cand)
        memo[key] = (s, r)
        return r

    def own_continue(self, n):
        if isinstance(n, list):
            return any(self.own_continue(x) for x in n)
        if not isinstance(n, dict):
            return False
        if n.get('s') == 'continue':
            return True
        if n.get('s') in ('for', 'while', 'do', 'rfor') or n.get('k') == 'lambda':
            return False
        return any(self.own_continue(x) for x in n.values() if isinstance(x, (dict, list)))

    def counted(self, s):
        """(decl id, step) when the loop steps one variable by a constant"""
        inc = s.get('inc')
        if inc is None:
            return None
        var, step = None, None
        if inc['k'] == 'un' and inc['op'] in ('++', '--'):
            var, step = inc['e'], 1 if inc['op'] == '++' else -1
        elif inc['k'] == 'opcall' and inc['op'] in ('++', '--'):
            var, step = inc['a'][0], 1 if inc['op'] == '++' else -1
        elif inc['k'] == 'casg' and inc['op'] in ('+', '-'):
            var = inc['a'][0]
            step = ('expr', inc['a'][1], 1 if inc['op'] == '+' else -1)
        if var is None or var['k'] != 'var':
            return None
        return var['id'], step

    def s_while(self, s):
        f = self.as_for(s) if 'cv' not in s else None
        if f is not None:
            return self.loop(f, cond=f['c'], body=f['b'], inc=f['inc'], counter=f['counter'])
        self.loop(s, cond=s['c'], body=s['b'], inc=None, counter=None, cv=s.get('cv'))

    def s_do(self, s):
        self.loop(s, cond=s['c'], body=s['b'], inc=None, counter=None, post=True)

    def kname(self):
        return sym('k%d' % self.loopdepth, isint=True, nonneg=True, bound=True)

    def s_rfor(self, s):
        r = s['r']
        lv = self.eval_lv(r)
        self.range_loop(s, lv, self.t(r), lambda elv: self.bind_loopvar(s['v'], elv),
                        lambda: self.exec(s['b']))

    def bind_loopvar(self, v, elv):
        t = self.t(v)
        if t.get('ref'):
            self.fr.env[v['id']] = elv
        else:
            root = ('L', self.fresh())
            self.st.cells[root] = self.read(elv, t)
            self.fr.env[v['id']] = ('lv', root, ())
        for b in v.get('binds', ()):
            if b.get('init') is not None and 'hold' in b:
                x = self.eval_lv(b['init'])
                self.fr.env[b['hold']] = x
                self.fr.env[b['id']] = x
            elif b.get('e') is not None:
                self.fr.env[b['id']] = self.eval_lv(b['e'])

    def container_size(self, lv, ty):
        v = self.read(lv)
        n = ty['n'] if ty else ''
        m = STDARR.match(n) or CARR.search(n)
        if m:
            return num(int(m.group(m.lastindex)))
        return size_of(v)

    def class_range(self, lv, ty):
        """(container, first index, number) where begin() and end() of a class are
        those of a container of it"""
        q = CQ.sub('', ty['n']) if ty else ''
        if not q.startswith('smash::') or lv[0] != 'lv':
            return None
        its = []
        for name in ('begin', 'end'):
            fs = [f for f in self.db.find(q + '::' + name, 0)]
            if not fs:
                return None
            snap = (self.st, len(self.trace), len(self.taint))
            self.st = self.st.copy() if hasattr(self.st, 'copy') else State(dict(self.st.cells), self.st.pc)
            try:
                r = self.call_fn(fs[0], lv, [], {'k': 'call', 'a': [], 'l': 0})
                r = self.as_val(r) if isinstance(r, tuple) else r
            finally:
                self.st = snap[0]
                del self.trace[snap[1]:]
                del self.taint[snap[2]:]
            its.append(r)
        from stdmodel import range_args
        return range_args(self, *its)

    def range_loop(self, s, lv, ty, bindv, body):
        r = self.class_range(lv, ty)
        if r is not None:
            lv, lo, n = r
        else:
            lo, n = ZERO, self.container_size(lv, ty)
        if lo is not ZERO:
            b0 = bindv
            lv0 = lv
            K = self.kname()
            self.summ_loop(s, K, lambda: lt(K, n), lambda: b0(self.sub_lv(lv0, ('i', add(lo, K)))), body, n)
            return
        c = const_of(n)
        if c is not None and c <= self.unroll:
            self.unrolled(int(c), lambda i: bindv(self.sub_lv(lv, ('i', i))), body)
            return
        K = self.kname()
        self.summ_loop(s, K, lambda: lt(K, n), lambda: bindv(self.sub_lv(lv, ('i', K))), body, n)

    def unrolled(self, n, bindv, body):
        obr, oco = self.fr.breaks, self.fr.conts
        self.fr.breaks = []
        for i in range(n):
            if self.st is None:
                break
            self.fr.conts = []
            bindv(i)
            body()
            self.st = self.merge(self.fr.conts + [self.st])
        self.st = self.merge(self.fr.breaks + [self.st])
        self.fr.breaks, self.fr.conts = obr, oco

    def loop(self, s, cond, body, inc, counter, cv=None, post=False):
        def ev_cond():
            if cond is None:
                return TRUE
            if cv is not None:
                self.declare(cv)
            return self.cond(cond)
        # constant trip count: unroll
        if counter is not None and cond is not None:
            lv = self.fr.env.get(counter[0])
            if lv is not None and lv[0] == 'lv' and lv[1][0] == 'L':
                v0 = self.read(lv)
                st0 = self.st
                if self.try_unroll(s, lv, ev_cond, body, inc):
                    return
        if counter is not None and len(counter) == 3:
            counter = None
        K = self.kname()
        step = None
        lv = None
        if counter is not None:
            lv = self.fr.env.get(counter[0])
            if lv is None or lv[0] != 'lv' or lv[1][0] != 'L' or lv[2]:
                counter = None
        if counter is not None:
            step = counter[1]
            if isinstance(step, tuple):
                sv = self.eval(step[1])
                step = mul(sv, num(step[2]))
            else:
                step = num(step)
            v0 = self.read(lv)
            ok = self.iter_like(v0) or all(l.tag not in ('unk', 'ptr', 'mapit', 'obj') for l in leaves(v0))
            if not ok:
                counter = None
        if counter is not None:
            # the counter is v0 + step*K provided that the body leaves it alone
            def setv():
                self.st.cells[lv[1]] = self.advance(v0, mul(step, K))

            def run():
                self.exec(body)
            r = self.summ_loop(s, K, ev_cond, setv, run, None, counter_root=lv[1],
                               counter_value=(self.advance(v0, mul(step, K)), step is num(1)))
            if r:
                return
        # general loop
        def run2():
            self.exec(body)
            if inc is not None:
                self.st = self.merge(self.fr.conts + [self.st])
                self.fr.conts = []
                if self.st is not None:
                    self.eval_void(inc)
        self.summ_loop(s, K, ev_cond, lambda: None, run2, None, general=True, post=post)

    def try_unroll(self, s, lv, ev_cond, body, inc):
        # cheap test: is the bound constant?
        saved = (self.st, list(self.trace), len(self.taint), dict(self.evcount))
        self.st = State(dict(self.st.cells), self.st.pc)
        lims = 0
        vals = []
        v0 = self.read(lv)
        if const_of(v0) is None and not self.iter_like(v0):
            self.st = saved[0]
            return False
        # simulate only the counter
        n = 0
        while n <= self.unroll:
            c = ev_cond()
            if self.st is None:
                break
            if c is FALSE:
                break
            if c is not TRUE:
                n = self.unroll + 1
                break
            self.eval_void(inc)
            n += 1
        self.st = saved[0]
        self.trace[:] = saved[1]
        del self.taint[saved[2]:]
        self.evcount = saved[3]
        if n > self.unroll:
            return False
        obr, oco = self.fr.breaks, self.fr.conts
        self.fr.breaks = []
        cnt = 0
        while self.st is not None:
            c = ev_cond()
            if c is not TRUE:
                if c is FALSE:
                    break
                # body modified the counter or the bound
                self.fr.breaks.append(self.st.fork(not_(c)))
                self.st = self.st.fork(c)
            self.fr.conts = []
            self.exec(body)
            self.st = self.merge(self.fr.conts + [self.st])
            if self.st is None:
                break
            self.eval_void(inc)
            cnt += 1
            if cnt > 4 * self.unroll:
                self.unk('unbounded unrolling', s)
                break
        self.st = self.merge(self.fr.breaks + [self.st])
        self.fr.breaks, self.fr.conts = obr, oco
        return True

    def iter_like(self, v):
        return isinstance(v, T) and v.tag in ('iter', 'iterd')

    def advance(self, v, n):
        def f(t):
            if t.tag == 'iter':
                return mkT('iter', t.args[0], add(t.args[1], n))
            if t.tag == 'iterd':
                return mkT('iterd', t.args[0], add(t.args[1], n))
            return add(t, n)
        if isinstance(v, T):
            return f(v)
        return ite(mk(v.var, TRUE, FALSE), self.advance(v.hi, n), self.advance(v.lo, n))

    def summ_loop(self, s, K, condf, setup, body, nbound, counter_root=None, general=False, post=False, counter_value=None):
        """Summarise a loop.  Returns False if the counter assumption fails."""
        st0 = self.st
        fr = self.fr
        snap = (len(self.trace), len(self.taint), dict(self.evcount), fr.breaks, fr.conts, fr.returns, self.base, self.trace)
        d = self.loopdepth
        self.loopk = getattr(self, 'loopk', [])

        def run(cells):
            self.st = State(cells, TRUE)
            self.base = TRUE
            self.trace = []
            fr.breaks, fr.conts, fr.returns = [], [], []
            outer_throws, self.throws = self.throws, []
            self.loopdepth = d + 1
            self.loopk.append(K)
            try:
                setup()
                c = condf() if not post else TRUE
                cst = self.st
                self.st = State(dict(cst.cells), c)
                if c is FALSE:
                    self.st = None
                else:
                    body()
                end = self.merge(fr.conts + [self.st])
                pcond = None
                if post and end is not None:
                    self.st = end
                    pcond = condf()
                    end = self.st
                return c, end, fr.breaks, fr.returns, self.trace, pcond, cst, self.throws
            finally:
                self.throws = outer_throws
                self.loopdepth = d
                self.loopk.pop()
                fr.breaks, fr.conts, fr.returns = snap[3], snap[4], snap[5]
                self.trace = snap[7]
                self.base = snap[6]

        # passes until what is written is known (the guess is what was found the
        # last time this loop was summarised)
        gk = (id(s), d)
        W = {(r, p) for r, p in self.loopw.get(gk, ()) if r[0] != 'L' or r in st0.cells}
        nt = len(self.taint)
        for n in range(6):
            log = set()
            self.wlogs.append(log)
            del self.taint[nt:]
            self.evcount = dict(snap[2])
            cells = dict(st0.cells)
            order = self.havoc(cells, W, d, gk)
            try:
                c, end, brks, rets, tr, pcond, cst, thr = run(cells)
            finally:
                self.wlogs.pop()
            new = set(W)
            for root, p in log:
                if root[0] == 'L' and root not in st0.cells:
                    continue
                if root == counter_root:
                    del self.taint[nt:]
                    self.evcount = snap[2]
                    self.st = st0
                    return False
                new.add((root, p))
            new = self.prefix_min(new)
            if new == W:
                # starts as a whole number, but does not stay one
                wrong = set()
                if end is not None:
                    save, self.st = self.st, end
                    for w, p in order:
                        if p.isint:
                            u = self.read(('lv', w[0], w[1]))
                            if u is not UNDEF and not all(l.isint for l in leaves(u)):
                                wrong.add((gk, w))
                    self.st = save
                if not wrong - self.nonint or n >= 5:
                    break
                self.nonint |= wrong
                continue
            if n < 3:
                W = new
        self.loopw[gk] = W
        # outer loops must know about these writes as well
        for w in self.wlogs:
            w |= W
        phis = {w: p for w, p in order}
        inits = {}
        self.st = st0
        for w, p in order:
            inits[w] = self.read(('lv', w[0], w[1]))
        upds = {}
        for w, p in order:
            if end is None:
                upds[w] = p
            else:
                self.st = end
                upds[w] = self.read(('lv', w[0], w[1]))
        # exits other than the loop condition
        ex = FALSE
        for b in brks:
            ex = or_(ex, b.pc)
        rx = FALSE
        for b, _ in rets:
            rx = or_(rx, b.pc)
        for b in thr:
            rx = or_(rx, b.pc)
        thrown = FALSE
        endpc = end.pc if end is not None else FALSE
        # region where an iteration was entered
        alive = or_(endpc, ex, rx)
        # unchanged cells
        sub = {}
        changed = []
        for w, p in order:
            u = care(upds[w], endpc) if end is not None else p
            if u is p and all(care(self.rd(b, w), b.pc) is p for b in brks) and \
                    all(care(self.rd(b, w), b.pc) is p for b, _ in rets):
                sub[p.id] = inits[w]
            else:
                changed.append(w)
                # the number of elements may be the same throughout
                z = size_of(p)
                if isinstance(z, T) and z.tag == 'app' and all(
                        care(size_of(self.rd(b, w)), b.pc) is z for b in brks + [b for b, _ in rets]) and \
                        care(size_of(upds[w]), endpc) is z:
                    sub[z.id] = size_of(inits[w])
        def S(v):
            return subst(v, sub) if sub else v
        dom = S(c if not post else TRUE)
        phiids = {phis[w].id: w for w in changed}
        usesphi = lambda v: bool(v.fv & frozenset(phiids))
        result = State(dict(st0.cells), st0.pc)
        ev_inner = [Event(S(e.guard), S(e.term), e.line) for e in tr]
        uc = {w: S(care(upds[w], endpc)) for w in changed}
        exc, rxc = S(ex), S(rx)
        simple = ex is FALSE and rx is FALSE and not usesphi(dom) and not post and \
            (end is None or care(endpc, c) is TRUE)
        final = {}
        pend = []
        self.st = result
        if simple:
            for w in changed:
                u = uc[w]
                r = self.closed(K, dom, phis[w], inits[w], u, phiids)
                if r is None:
                    pend.append(w)
                else:
                    final[w] = r
            # updates of pending cells may use closed ones via phi: prefix value
            # (kept as system of cells)
        else:
            pend = list(changed)
        ctr = counter_root is not None and not (simple and counter_value[1])
        if pend or ev_inner or not simple or ctr:
            # canonical system
            def system(targets):
                seq = []
                seen = set()
                work = list(targets)

                def visit_fv(v):
                    ids = self.order_phis(v, phiids)
                    for i in ids:
                        w = phiids[i]
                        if w not in seen:
                            seen.add(w)
                            seq.append(w)
                            visit_fv(uc[w])
                for v in work:
                    visit_fv(v)
                return seq
            conds = [dom, exc, rxc] + ([S(pcond)] if pcond is not None else [])

            def close(vs, extra=()):
                """turn values mentioning K and phis into a closed tuple"""
                seq = system(list(vs) + conds)
                m = {}
                for n, w in enumerate(seq):
                    m[phis[w].id] = mkT('sym', 'φ%d_%d%s' % (d, n, 'u' if phis[w].nonneg else 'i' if phis[w].isint else ''), isint=phis[w].isint, nonneg=phis[w].nonneg)
                    if not m[phis[w].id].fv:
                        m[phis[w].id].fv = frozenset([m[phis[w].id].id])
                bind = K.fv | frozenset(x.id for x in m.values())
                cl = lambda v: subst(v, m)
                sysd = tuple((inits[w], cl(uc[w])) for w in seq)
                return tuple(cl(v) for v in vs), tuple(cl(v) for v in conds), sysd, bind
            for w in pend:
                vals = [phis[w]]
                # value when leaving through break: may differ
                bv = phis[w]
                for b in reversed(brks):
                    bv = ite(S(b.pc), S(self.rd(b, w)), bv)
                bv = care(bv, exc) if exc is not FALSE else bv
                vs, cs, sysd, bind = close([phis[w], bv])
                t = mkT('app', 'loop', K, vs, cs, sysd, 'post' if post else '', bind=bind,
                        isint=phis[w].isint)
                final[w] = t
            retv = None
            if rx is not FALSE:
                # an iteration may return from the function
                if not any(usesphi(v) for v in (dom, exc, rxc)) and ex is FALSE and not post:
                    found = self.exists(K, dom, rxc)
                    first = mkT('app', 'first', K, dom, rxc, bind=K.fv, isint=True, nonneg=True)
                    mk_ = {K.id: first}
                    pure = True
                    for b, rv in rets:
                        if isinstance(rv, tuple):
                            val = ('reflv', self.subst_lv(rv[1], mk_, S))
                        else:
                            val = subst(S(rv), mk_)
                            if usesphi(S(rv)):
                                val = self.unk('returned loop state', s)
                        bst = State(dict(st0.cells), and_(st0.pc, found, subst(S(b.pc), mk_)))
                        for w in changed:
                            bw = S(self.rd(b, w))
                            if usesphi(bw):
                                vs, cs, sysd, bind = close([bw])
                                bw = mkT('app', 'loop', K, vs, cs, sysd, 'ret', bind=bind)
                            else:
                                bw = subst(bw, mk_)
                            self.st = bst
                            self.write(('lv', w[0], w[1]), bw)
                        fr.returns.append((bst, val))
                    for b in thr:
                        if self.throws is not None:
                            self.throws.append(State(dict(st0.cells), and_(st0.pc, found, subst(S(b.pc), mk_))))
                    result.pc = and_(result.pc, not_(found))
                else:
                    vs, cs, sysd, bind = close([])
                    lx = mkT('app', 'loop', K, vs, cs, sysd, 'returns', bind=bind)
                    found = bool_atom(lx)
                    for b, rv in rets:
                        if isinstance(rv, tuple):
                            val = self.unk('reference returned from loop', s)
                        else:
                            vs, cs, sysd, bind = close([S(rv), S(b.pc)])
                            val = mkT('app', 'loop', K, vs, cs, sysd, 'retv', bind=bind)
                        bcond = found
                        if len(rets) + len(thr) > 1:
                            vs, cs, sysd, bind = close([S(b.pc)])
                            bcond = and_(found, bool_atom(mkT('app', 'loop', K, vs, cs, sysd, 'retc', bind=bind)))
                        bst = State(dict(st0.cells), and_(st0.pc, bcond))
                        for w in changed:
                            vs, cs, sysd, bind = close([S(self.rd(b, w))])
                            self.st = bst
                            self.write(('lv', w[0], w[1]), mkT('app', 'loop', K, vs, cs, sysd, 'ret', bind=bind))
                        if isinstance(val, T) and val.tag == 'app' and isinstance(rv, (T, D)) and isinstance(rv, T) and rv.tag == 'bool':
                            val = rv
                        fr.returns.append((bst, val))
                    for b in thr:
                        if self.throws is not None:
                            vs, cs, sysd, bind = close([S(b.pc)])
                            self.throws.append(State(dict(st0.cells), and_(st0.pc, found, bool_atom(
                                mkT('app', 'loop', K, vs, cs, sysd, 'retc', bind=bind)))))
                    result.pc = and_(result.pc, not_(found))
            if ev_inner:
                evs = self.norm_trace(ev_inner)
                flat = []
                for g, t in evs:
                    flat += [g, t]
                vs, cs, sysd, bind = close(flat)
                t = mkT('ev', 'loop', K, vs, cs, sysd, bind=bind)
                self.trace.append(Event(and_(self.base, st0.pc), t, s.get('l', 0)))
            if ctr:
                vs, cs, sysd, bind = close([counter_value[0]] * 2)
                ctr = mkT('app', 'loop', K, vs, cs, sysd, 'post' if post else '', bind=bind,
                          isint=True)
        self.st = result
        for w in changed:
            self.write(('lv', w[0], w[1]), final[w])
        if counter_root is not None and self.st is not None:
            # value of the counter after the loop
            self.st.cells[counter_root] = ctr or mkT('app', 'after', self.freeze(st0.cells.get(counter_root, UNDEF)), dom, K,
                                              bind=K.fv, isint=True)
        if self.st.pc is FALSE:
            self.st = None
        return True

    def rd(self, st, w):
        o = self.st
        self.st = st
        try:
            return self.read(('lv', w[0], w[1]))
        finally:
            self.st = o

    def subst_lv(self, lv, mp, S):
        if lv[0] == 'cond':
            return ('cond', subst(S(lv[1]), mp), self.subst_lv(lv[2], mp, S), self.subst_lv(lv[3], mp, S))
        if lv[0] == 'val':
            return ('val', subst(S(lv[1]), mp))
        root = lv[1]
        if root[0] == 'D':
            root = ('D', subst(S(root[1]), mp))
        path = tuple((c[0], subst(S(c[1]), mp) if isinstance(c[1], (T, D)) else c[1]) for c in lv[2])
        return ('lv', root, path)

    def order_phis(self, v, phiids):
        out = []
        seen = set()
        want = frozenset(phiids)

        def go(n):
            if isinstance(n, tuple):
                for x in n:
                    go(x)
                return
            if not isinstance(n, (T, D)) or n.id in seen or not (n.fv & want):
                return
            seen.add(n.id)
            if n.id in phiids:
                out.append(n.id)
                return
            if isinstance(n, D):
                dv = n.var.data
                if isinstance(dv, tuple):
                    go(dv[0])
                else:
                    go(dv)
                go(n.hi)
                go(n.lo)
            elif n.tag == 'poly':
                for m, c in n.args[0]:
                    for a, e in m:
                        go(NODES[a])
            else:
                for a in n.args:
                    go(a)
        go(v)
        return out

    def prefix_min(self, ws):
        out = set()
        for r, p in ws:
            if not any(r2 == r and p2 != p and p[:len(p2)] == p2 for r2, p2 in ws):
                out.add((r, p))
        return out

    def havoc(self, cells, W, d, gk=None):
        order = []
        saved = self.st
        self.st = State(cells, TRUE)
        wl = self.wlogs
        self.wlogs = []
        for w in sorted(W, key=lambda w: str(w)):
            old = self.read(('lv', w[0], w[1]))
            isint = all(l.isint for l in leaves(old)) and (gk, w) not in self.nonint if old is not UNDEF else False
            nn = isint and (w[0] in self.unsigned if not w[1] else all(l.tag == 'sel' and l.nonneg for l in leaves(old)))
            p = mkT('sym', 'phi%s%d:%s:%s' % ('u' if nn else 'i' if isint else '', d, w[0] if w[0][0] != 'D' else ('D', w[0][1].id), w[1]),
                    isint=isint, nonneg=nn)
            if not p.fv:
                p.fv = frozenset([p.id])
            isb = all(l.tag == 'bool' for l in leaves(old))
            self.write(('lv', w[0], w[1]), bool_atom(p) if isb else p)
            order.append((w, p))
        self.st = saved
        self.wlogs = wl
        return order

    def exists(self, K, dom, c):
        b = and_(dom, c)
        if not (b.fv & K.fv):
            # does not depend on the element: non-empty domain and c
            return b
        return bool_atom(mkT('app', 'exists', K, b, bind=K.fv))

    def closed(self, K, dom, phi, init, u, phiids):
        """closed form of phi := u, or None"""
        others = frozenset(phiids) - phi.fv
        if u.fv & others:
            return None
        if not (u.fv & phi.fv):
            # overwritten in every iteration
            if isinstance(u, T) and not (u.fv & K.fv) and False:
                return None
            if not (u.fv & K.fv):
                ne = subst(dom, {K.id: ZERO})
                return ite(ne, u, init)
            return mkT('app', 'last', K, dom, u, init, bind=K.fv, isint=isinstance(u, T) and u.isint)
        # additive
        def addend(v):
            if isinstance(v, D):
                if v.var.fv & phi.fv:
                    return None
                a, b = addend(v.hi), addend(v.lo)
                if a is None or b is None:
                    return None
                return ite(mk(v.var, TRUE, FALSE), a, b)
            if v.tag == 'obj' or v.tag in ('store', 'ptr', 'iter', 'str', 'bool'):
                return None
            if v is not phi and v.tag != 'poly':
                return None
            r = p_add(v, phi, -1)
            if r.fv & phi.fv:
                return None
            return r
        if not all(l.tag in ('bool',) for l in leaves(u)):
            g = addend(u)
            if g is not None:
                return add(init, mk_sum(K, dom, g))
        # boolean accumulations: phi or c / phi and c
        if all(l.tag == 'bool' for l in leaves(u)):
            pv = bool_atom(phi)
            if isinstance(pv, D):
                hi, lo = restrict(u, pv.var, True) if u.var is pv.var else None, None
                top_ = u.var is pv.var
                t1 = subst(u, {phi.id: TRUE})
                t0 = subst(u, {phi.id: FALSE})
                if not ((t1.fv | t0.fv) & phi.fv):
                    if t1 is TRUE:
                        return or_(init, self.exists(K, dom, t0))
                    if t0 is FALSE:
                        return and_(init, not_(self.exists(K, dom, not_(t1))))
                    if t1 is FALSE and False:
                        return None
        # element-wise update of a container:  phi[K] := f(phi[K])
        if isinstance(u, T) and u.tag == 'store' and u.args[0] is phi and u.args[1] == ('i', K):
            e = mkT('sym', 'elem%d' % self.loopdepth)
            if not e.fv:
                e.fv = frozenset([e.id])
            cur = sel_v(phi, 'i', K)
            if isinstance(cur, T):
                x = subst(u.args[2], {cur.id: e})
                if not (x.fv & phi.fv):
                    return mkT('app', 'mapupd', K, dom, e, x, init, bind=K.fv | e.fv)
        # appended element(s)
        def pushed(v):
            if isinstance(v, D):
                if v.var.fv & phi.fv:
                    return None
                a, b = pushed(v.hi), pushed(v.lo)
                if a is None or b is None:
                    return None
                if a == b:
                    return a
                c = mk(v.var, TRUE, FALSE)
                out = []
                for g, x in a:
                    out.append((and_(c, g), x))
                for g, x in b:
                    out.append((and_(not_(c), g), x))
                return out
            if v is phi:
                return []
            if v.tag == 'app' and v.args[0] == 'push_back' and isinstance(v.args[1], (T, D)):
                p = pushed(v.args[1])
                if p is None or v.args[2].fv & phi.fv:
                    return None
                return p + [(TRUE, v.args[2])]
            return None
        p = pushed(u)
        if p:
            # merge exclusive alternatives
            merged = [p[0]]
            for g, x in p[1:]:
                g0, x0 = merged[-1]
                if and_(g, g0) is FALSE:
                    merged[-1] = (or_(g, g0), ite(g0, x0, x))
                else:
                    merged.append((g, x))
            return mkT('app', 'mapcat', K, dom, tuple((g, care(x, g)) for g, x in merged), init, bind=K.fv)
        return None

    # ------------------------------------------------------------ traces
    def norm_trace(self, evs):
        items = [[e.guard, e.term] for e in evs if e.guard is not FALSE]
        changed = True
        while changed:
            changed = False
            out = []
            for g, t in items:
                placed = False
                i = len(out) - 1
                while i >= 0:
                    g0, t0 = out[i]
                    dis = and_(g, g0) is FALSE
                    if not dis:
                        break
                    m = self.merge_ev(g0, t0, g, t)
                    if m is not None:
                        out[i] = [or_(g, g0), m]
                        placed = True
                        changed = True
                        break
                    i -= 1
                if not placed:
                    out.append([g, t])
            items = out
        # canonical order for commuting (disjoint) neighbours
        n = len(items)
        for i in range(n):
            j = i
            while j > 0 and and_(items[j][0], items[j - 1][0]) is FALSE and \
                    items[j][1].id < items[j - 1][1].id:
                items[j], items[j - 1] = items[j - 1], items[j]
                j -= 1
        return [(g, t) for g, t in items]

    def merge_ev(self, g0, t0, g, t):
        if t0 is t:
            return t
        if t0.args[0] != t.args[0] or len(t0.args) != len(t.args) or t.args[0] == 'loop':
            return None
        out = []
        for a, b in zip(t0.args[1:], t.args[1:]):
            if a is b or a == b:
                out.append(a)
            elif isinstance(a, (T, D)) and isinstance(b, (T, D)):
                out.append(care(ite(g0, a, b), or_(g0, g)))
            else:
                return None
        return mkT('ev', t.args[0], *out)

    # ------------------------------------------------------------ expressions
    def cond(self, e):
        v = self.eval(e)
        if self.st is None:
            return FALSE
        t = self.t(e)
        if t['k'] == 'p':
            return truth_ptr(v)
        return truth(v)

    def eval_void(self, e):
        if self.is_log(e):
            return VOID
        return self.eval(e)

    def is_log(self, e):
        t = self.t(e)
        if 'einhard::' in t['n']:
            return True
        f = e.get('f')
        if f and f['q'].startswith('einhard::'):
            return True
        if e['k'] == 'cond':
            return self.is_log(e['a'][1]) and self.is_log(e['a'][2])
        return False

    def eval(self, e):
        if e is None:
            return VOID
        if self.st is None:
            return UNDEF
        if e.get('l'):
            self.curline = e['l']
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            return self.unk('expression ' + e['k'] + ' ' + e.get('c', ''), e)
        v = m(e)
        if isinstance(v, tuple):
            v = self.lvread(v, self.t(e))
        return v

    def lvread(self, lv, ty=None):
        if lv[0] == 'mapelem':
            return obj(None, {('f', 'first'): lv[2], ('f', 'second'): self.read(self.sub_lv(lv[1], ('k', lv[2])))}, 'pair')
        if lv[0] == 'reflv':
            lv = lv[1]
        v = self.read(lv, ty)
        return v

    def eval_lv(self, e):
        if self.st is None:
            return ('val', UNDEF)
        m = getattr(self, 'l_' + e['k'], None)
        if m is not None:
            r = m(e)
            if r is not None:
                if isinstance(r, (T, D)):
                    return self.temp(r) if self.st is not None else ('val', UNDEF)
                if r[0] == 'reflv':
                    return r[1]
                return r
        ev = getattr(self, 'e_' + e['k'], None)
        if ev is None:
            return ('val', self.unk('expression ' + e['k'], e))
        v = ev(e)
        if isinstance(v, tuple):
            if v[0] == 'reflv':
                return v[1]
            return v
        if self.st is None:
            return ('val', UNDEF)
        return self.temp(v)

    # literals
    def e_int(self, e):
        return num(int(e['v']))

    def e_float(self, e):
        s = e['v'].replace("'", '').rstrip('fFlL')
        try:
            v = Fr(s)
        except (ValueError, ZeroDivisionError):
            v = Fr(e['dv'])
        if v > 10 ** 300:
            return sym('std::numeric_limits<double>::max<double>')
        return num(v)

    def e_bool(self, e):
        return TRUE if e['v'] else FALSE

    def e_str(self, e):
        return strlit(e['v'])

    def e_null(self, e):
        return NULL

    def e_enum(self, e):
        name = e['n']
        t = self.t(e)
        if t['k'] == 'e':
            return mkT('enum', t['en'], int(e['v']))
        return num(int(e['v']))

    def e_zero(self, e):
        return self.zero(self.t(e))

    def zero(self, t):
        k = t['k']
        if k in 'iud':
            return ZERO
        if k == 'b':
            return FALSE
        if k == 'p':
            return NULL
        if k == 'e':
            return mkT('enum', t['en'], 0)
        n = t['n']
        m = STDARR.match(n)
        if m:
            return mkT('filled', num(int(m.group(2))), self.zero_named(m.group(1)))
        return self.default_obj(t)

    def zero_named(self, n):
        if n in ('double', 'float', 'int', 'unsigned int', 'long', 'unsigned long', 'char', 'short'):
            return ZERO
        if n == 'bool':
            return FALSE
        return self.default_named(n)

    def default_named(self, n):
        return self.default_obj({'n': n, 'k': 'r'})

    def default_obj(self, t):
        n = t['n']
        if is_std(n, *SEQ) or is_std(n, *MAPS):
            m = STDARR.match(n)
            if m:
                el = m.group(1)
                if self.db.rec.get(el) is not None or is_std(el, *SEQ) or is_std(el, *MAPS):
                    return mkT('filled', num(int(m.group(2))), self.default_class({'n': el, 'k': 'r'}))
                return mkT('filled', num(int(m.group(2))), UNDEF)
            if is_std(n, 'basic_string<'):
                return strlit('')
            return mkT('obj', '', (), 'vec')
        if is_std(n, 'optional<'):
            return obj(None, {('f', '#has'): FALSE}, 'opt')
        if is_std(n, *PTRS):
            return NULL
        if is_std(n, 'function<'):
            return NULL
        r = self.db.rec.get(n)
        if r is not None:
            return self.default_record(r)
        return mkT('app', 'default', re.sub(r'(\[\d*\])+$', '', n))

    def default_record(self, r):
        fs = {}
        ofr = self.fr
        for b in r['bases']:
            rb = self.db.rec.get(b)
            if rb is not None:
                v = self.default_record(rb)
                if v.tag == 'obj' and v.args[0] == '':
                    fs.update(dict(v.args[1]))
        for f in r['fields']:
            fr = Frame(None, '', r['_T'])
            fr.this = None
            self.fr = fr
            try:
                ft = r['_T'][f['t']]
                if 'init' in f:
                    fs[('f', f['n'])] = self.coerce(self.eval(f['init']), ft, f['init'])
                elif ft['k'] == 'r':
                    fs[('f', f['n'])] = self.default_class(ft)
                else:
                    fs[('f', f['n'])] = UNDEF
            finally:
                self.fr = ofr
        return mkT('obj', '', tuple(sorted(fs.items(), key=lambda x: (x[0][0], str(x[0][1])))), r['n'])

    def default_class(self, t):
        """default constructed object of class type t"""
        for f in self.db.fn.values() if False else ():
            pass
        ctor = self.find_default_ctor(t['n'])
        if ctor is not None:
            return self.construct(ctor, [], None)
        return self.default_obj(t)

    _dctor = None

    def find_default_ctor(self, n):
        if self._dctor is None:
            d = {}
            for f in self.db.fn.values():
                if f.get('ctor') and 'body' in f and not f['params']:
                    d[f['n'].rsplit('::', 1)[0]] = f
            Interp._dctor = d
        return self._dctor.get(n)

    # references
    def e_var(self, e):
        return self.l_var(e)

    def l_var(self, e):
        lv = self.fr.env.get(e['id'])
        if lv is None:
            return ('val', self.unk('variable ' + e['n'], e))
        return lv

    def e_bind(self, e):
        return self.l_var(e)
    l_bind = l_var

    def e_glob(self, e):
        return self.l_glob(e)

    def l_glob(self, e):
        return ('lv', ('G', e['m']), ())

    def e_fn(self, e):
        return mkT('fnref', e['f']['q'], e['f']['m'])

    def e_memfn(self, e):
        return mkT('fnref', e['f']['q'], e['f']['m'])

    def e_this(self, e):
        if self.fr.this is None:
            return self.unk('this', e)
        return self.addr(self.fr.this)

    def e_mem(self, e):
        return self.l_mem(e)

    def l_mem(self, e):
        b = e['b']
        if e.get('arrow'):
            if b['k'] == 'this' and self.fr.this is not None:
                lv = self.fr.this
            else:
                lv = self.deref(self.eval(b))
        else:
            lv = self.eval_lv(b)
        if lv[0] == 'mapelem':
            if e['n'] == 'first':
                return ('val', lv[2])
            return self.sub_lv(lv[1], ('k', lv[2]))
        if lv[0] == 'cond':
            return self.map_lv(lv, lambda x: self.mem_of(x, e['n']))
        return self.mem_of(lv, e['n'])

    def mem_of(self, lv, n):
        if lv[0] == 'mapelem':
            if n == 'first':
                return ('val', lv[2])
            return self.sub_lv(lv[1], ('k', lv[2]))
        return self.sub_lv(lv, ('f', n))

    def map_lv(self, lv, f):
        if lv[0] == 'cond':
            return ('cond', lv[1], self.map_lv(lv[2], f), self.map_lv(lv[3], f))
        return f(lv)

    def e_sub(self, e):
        return self.l_sub(e)

    def l_sub(self, e):
        a, i = e['a']
        idx = self.eval(i)
        ta = self.t(a)
        if ta['k'] == 'p':
            v = self.eval(a)
            if isinstance(v, T) and v.tag == 'iter':
                return self.deref(self.advance(v, idx))
            lv = self.deref(v)
            if lv[0] == 'lv':
                return self.sub_lv(lv, ('i', idx))
            return ('val', sel_v(v, 'i', idx))
        lv = self.eval_lv(a)
        return self.sub_lv(lv, ('i', idx))

    # operators
    def e_un(self, e):
        op = e['op']
        if op == '*':
            return self.l_un(e)
        if op == '&':
            sub = e['e']
            if sub['k'] == 'fn':
                return self.e_fn(sub)
            return self.addr_of(self.eval_lv(sub))
        if op in ('++', '--'):
            lv = self.eval_lv(e['e'])
            old = self.read(lv, self.t(e['e']))
            new = self.advance(old, ONE if op == '++' else num(-1))
            self.write(lv, new)
            if e.get('post'):
                return old
            return lv
        if op == '-':
            return neg(self.eval(e['e']))
        if op == '+':
            return self.eval(e['e'])
        if op == '!':
            return not_(self.cond(e['e']))
        if op == '~':
            return app('bnot', self.eval(e['e']), isint=True)
        return self.unk('unary ' + op, e)

    def addr_of(self, lv):
        if lv[0] == 'mapelem':
            return mkT('app', 'addr', lv[2])
        return self.addr(lv)

    def l_un(self, e):
        if e['op'] == '*':
            return self.deref(self.eval(e['e']))
        if e['op'] in ('++', '--') and not e.get('post'):
            self.e_un(e)
            return self.eval_lv(e['e'])
        return None

    def e_bin(self, e):
        op = e['op']
        a, b = e['a']
        if op in ('&&', '||'):
            return self.shortcircuit(op, a, b)
        if op == ',':
            self.eval_void(a)
            return self.eval(b)
        x = self.eval(a)
        y = self.eval(b)
        return self.binop(op, x, y, self.t(a), self.t(b), self.t(e), e)

    def shortcircuit(self, op, a, b):
        x = self.cond(a)
        if self.st is None:
            return FALSE
        if op == '&&':
            if x is FALSE:
                return FALSE
            need = x
        else:
            if x is TRUE:
                return TRUE
            need = not_(x)
        base = self.st
        if need is TRUE:
            y = self.cond(b)
        else:
            f = base.fork(need)
            if f.pc is FALSE:
                return x
            self.st = f
            y = self.cond(b)
            if self.st is None:
                self.st = State(base.cells, and_(base.pc, not_(need)))
            elif self.same_cells(self.st, base) and self.st.pc is f.pc:
                self.st = base
            else:
                other = base.fork(not_(need))
                self.st = self.merge([self.st, other]) if other.pc is not FALSE else self.st
        return and_(x, y) if op == '&&' else or_(x, y)

    def same_cells(self, a, b):
        for k, v in a.cells.items():
            if k[0] == 'L' and k not in b.cells:
                continue
            if b.cells.get(k) is not v:
                if k not in b.cells and v is self.root_init(k):
                    continue
                return False
        return True

    def binop(self, op, x, y, ta, tb, tr, e=None):
        if op in ('==', '!='):
            if self.is_it(x) or self.is_it(y):
                r = self.iter_eq(x, y)
            elif ta['k'] in 'iud' or tb['k'] in 'iud':
                r = eq_num(x, y)
            else:
                kind = None
                if ta['k'] == 'e' and ta.get('en') and ta.get('en') == tb.get('en'):
                    kind = ('e', ta['en'])
                elif ta['k'] == 'p' and tb['k'] == 'p':
                    kind = ('p',)
                r = eq(x, y, kind)
            return r if op == '==' else not_(r)
        if op in ('<', '>', '<=', '>='):
            if self.has_it(x) and self.has_it(y):
                x, y = self.iter_pair(x, y)
            elif ta['k'] == 'e':
                x, y = self.e2i(x), self.e2i(y)
            if ta['k'] == 'u' and tb['k'] == 'u' and isinstance(x, T) and isinstance(y, T):
                # unsigned: positive is not zero, whatever the ideal value
                o = num(1)
                z = num(0)
                if op == '>' and y is z or op == '>=' and y is o:
                    return not_(eq_num(x, z))
                if op == '<' and x is z or op == '<=' and x is o:
                    return not_(eq_num(y, z))
                if op == '<=' and y is z or op == '<' and y is o:
                    return eq_num(x, z)
                if op == '>=' and x is z or op == '>' and x is o:
                    return eq_num(y, z)
            if op == '<':
                return lt(x, y)
            if op == '>':
                return lt(y, x)
            if op == '<=':
                return le(x, y)
            return le(y, x)
        if op in ('+', '-'):
            if self.has_it(x):
                if self.has_it(y):
                    return sub(*self.iter_pair(x, y))
                return self.advance(x, y if op == '+' else neg(y))
            return add(x, y) if op == '+' else sub(x, y)
        if op == '*':
            return mul(x, y)
        if op == '/':
            if tr['k'] in 'iu':
                return idiv(x, y)
            return div(x, y)
        if op == '%':
            return mod(x, y)
        if op in ('&', '|', '^', '<<', '>>'):
            return self.bitop(op, x, y)
        return self.unk('binary ' + op, e)

    def e2i(self, v):
        def f(t):
            if t.tag == 'enum':
                return num(t.args[1])
            if t.tag in ('poly', 'bool') or t.isint:
                return asnum(t)
            return mkT('app', 'e2i', t, isint=True)
        return map1('e2i', f, v)

    def bitop(self, op, x, y):
        def f(a, b):
            if a.tag == 'bool' and b.tag == 'bool':
                p, q = a.args[0], b.args[0]
                r = {'&': p and q, '|': p or q, '^': p != q}.get(op)
                if r is not None:
                    return num(1 if r else 0)
            a, b = asnum(a), asnum(b)
            p, q = const_of(a), const_of(b)
            if p is not None and q is not None and p.denominator == 1 and q.denominator == 1:
                p, q = int(p), int(q)
                if op == '&':
                    return num(p & q)
                if op == '|':
                    return num(p | q)
                if op == '^':
                    return num(p ^ q)
                if op == '<<':
                    return num(p << q)
                return num(p >> q)
            if op == '<<' and q is not None:
                return p_scale(a, Fr(2) ** int(q))
            if op == '|' and (p == 0 or q == 0):
                return b if p == 0 else a
            if op in '&|^' and a.id > b.id:
                a, b = b, a
            return mkT('app', 'bit' + op, a, b, isint=True, nonneg=True)
        return map2('bit' + op, f, x, y)

    def is_it(self, v):
        return isinstance(v, T) and v.tag in ('iter', 'iterd', 'mapit', 'mapend')

    def iter_idx(self, v):
        return v.args[1]

    def has_it(self, v):
        return all(l.tag in ('iter', 'iterd') for l in leaves(v))

    def iter_pair(self, x, y):
        """positions of two iterators into the same sequence"""
        if isinstance(x, T) and isinstance(y, T):
            if x.args[0] is y.args[0]:
                return x.args[1], y.args[1]
            return app('addr', self.freeze(x), isint=True), app('addr', self.freeze(y), isint=True)
        v = TM.top(x, y)
        c = mk(v, TRUE, FALSE)
        p = self.iter_pair(TM.restrict(x, v, True), TM.restrict(y, v, True))
        q = self.iter_pair(TM.restrict(x, v, False), TM.restrict(y, v, False))
        return ite(c, p[0], q[0]), ite(c, p[1], q[1])

    def iter_eq(self, x, y):
        if isinstance(x, D) or isinstance(y, D):
            d = x if isinstance(x, D) else y
            c = mk(d.var, TRUE, FALSE)
            if d is x:
                return ite(c, self.iter_eq(x.hi, y), self.iter_eq(x.lo, y))
            return ite(c, self.iter_eq(x, y.hi), self.iter_eq(x, y.lo))
        for a, b in ((x, y), (y, x)):
            if a.tag == 'mapit' and b.tag in ('iter',):
                # find(key) == end()
                ref, key = a.args
                m = self.read(('lv', ref.args[0], ref.args[1]))
                return not_(self.contains(m, key))
        if x.tag in ('iter', 'iterd') and y.tag == x.tag:
            return eq_num(*self.iter_pair(x, y))
        return eq(self.freeze(x), self.freeze(y))

    def contains(self, m, key):
        def f(t, k):
            while t.tag == 'store' and t.args[1][0] == 'k':
                k0 = t.args[1][1]
                k0 = strlit(k0) if isinstance(k0, str) else (num(k0) if isinstance(k0, int) else k0)
                if k0 is k:
                    return TRUE
                if not TM._difft(k0, k):
                    break
                t = t.args[0]
            if t.tag == 'obj' and t.args[0] == '' and not t.args[1]:
                return FALSE
            return bool_atom(mkT('app', 'contains', t, k))
        r = mapn(f, [m, key])
        return r if r is not None else bool_atom(mkT('app', 'contains', m, key))

    def e_asg(self, e):
        return self.l_asg(e)

    def l_asg(self, e):
        a, b = e['a']
        v = self.coerce(self.eval(b), self.t(a), b)
        lv = self.eval_lv(a)
        if self.st is None:
            return ('val', UNDEF)
        self.write(lv, v)
        return lv

    def e_casg(self, e):
        return self.l_casg(e)

    def l_casg(self, e):
        a, b = e['a']
        y = self.eval(b)
        lv = self.eval_lv(a)
        if self.st is None:
            return ('val', UNDEF)
        x = self.read(lv, self.t(a))
        ct = self.fr.T[e['ct']] if e.get('ct', -1) >= 0 else self.t(a)
        v = self.binop(e['op'], x, y, ct, self.t(b), ct, e)
        if self.t(a)['k'] in 'iu' and ct['k'] == 'd':
            v = trunc(v)
        if self.t(a)['k'] == 'b':
            v = truth(v)
        self.write(lv, v)
        return lv

    def e_cond(self, e):
        return self.l_cond(e)

    def l_cond(self, e):
        c, a, b = e['a']
        cv = self.cond(c)
        if self.st is None:
            return ('val', UNDEF)
        if cv is TRUE:
            return self.eval_lv(a)
        if cv is FALSE:
            return self.eval_lv(b)
        base = self.st
        isval = self.t(e)['k'] in 'iudbev' or True
        out = []
        sts = []
        for cc, x in ((cv, a), (not_(cv), b)):
            f = base.fork(cc)
            self.st = f
            if f.pc is FALSE:
                sts.append(None)
                out.append(None)
                continue
            lv = self.eval_lv(x)
            out.append(lv)
            sts.append(self.st)
        live = [s for s in sts if s is not None]
        if not live:
            self.st = None
            return ('val', UNDEF)
        if sts[0] is None:
            self.st = sts[1]
            return out[1]
        if sts[1] is None:
            self.st = sts[0]
            return out[0]
        # locals created in the arms (temporaries) stay readable
        vals = []
        for s_, lv in zip(sts, out):
            self.st = s_
            vals.append(lv)
        if self.same_cells(sts[0], base) and self.same_cells(sts[1], base):
            cells = dict(base.cells)
            for s_ in sts:
                for k, v in s_.cells.items():
                    if k not in cells:
                        cells[k] = v
            self.st = State(cells, or_(sts[0].pc, sts[1].pc))
        else:
            self.st = self.merge(sts)
        if out[0] == out[1]:
            return out[0]
        if out[0][0] == 'mapelem' or out[1][0] == 'mapelem':
            return ('val', ite(cv, self.lvread(out[0]), self.lvread(out[1])))
        return ('cond', cv, out[0], out[1])

    def e_cast(self, e):
        c = e['c']
        t = self.t(e)
        if c == 'ToVoid':
            self.eval_void(e['e'])
            return VOID
        v = self.eval(e['e'])
        ts = self.t(e['e'])
        if ts['k'] == 'b' and c in ('IntegralToFloating', 'IntegralCast', 'BooleanToSignedIntegral') and t['k'] != 'e':
            return ite(truth(v), ONE, ZERO)
        if c == 'IntegralToFloating':
            return map1('asnum', asnum, v)
        if c == 'FloatingToIntegral':
            return trunc(v)
        if c == 'IntegralCast' or c == 'BooleanToSignedIntegral':
            if t['k'] == 'e':
                def f(l):
                    cc = const_of(asnum(l)) if l.tag in ('poly', 'enum', 'bool') else None
                    if cc is not None:
                        return mkT('enum', t['en'], int(cc))
                    if l.tag == 'app' and l.args[0] == 'e2i':
                        return l.args[1]
                    return mkT('app', 'i2e', l)
                return map1('i2e' + t['en'], f, v)
            if ts['k'] == 'e':
                return self.e2i(v)
            v = map1('asnum', asnum, v)
            if t.get('w', 64) <= 16 and ts.get('w', 64) > t.get('w', 64):
                w = t['w']
                return map1('narrow%d' % w, lambda l: l if const_of(l) is not None else
                            mkT('app', 'narrow%d' % w, l, isint=True, nonneg=t['k'] == 'u'), v)
            return v
        if c in ('IntegralToBoolean', 'FloatingToBoolean'):
            return not_(eq_num(map1('asnum', asnum, v), ZERO))
        if c == 'PointerToBoolean':
            return truth_ptr(v)
        if c == 'MemberPointerToBoolean':
            return truth(v)
        if c == 'Dynamic':
            return app('dyncast:' + t.get('pn', t['n']), v)
        if c in ('FloatingCast', 'BitCast', 'BaseToDerived', 'PointerToIntegral', 'IntegralToPointer'):
            return v
        return v

    def l_cast(self, e):
        if e['c'] in ('BaseToDerived', 'BitCast', 'Dynamic') and self.t(e['e'])['k'] != 'p':
            return self.eval_lv(e['e'])
        return None

    def coerce(self, v, t, node):
        """adapt v to the declared type of the destination"""
        if t is None or isinstance(v, tuple):
            return v
        if is_std(t['n'], 'optional<'):
            def f(l):
                if l.tag == 'obj' and l.args[2] == 'opt':
                    return l
                if l.tag in ('sym', 'sel', 'app', 'deref', 'unk', 'undef') and node is not None and \
                        is_std(self.t(node)['n'], 'optional<'):
                    return l
                return obj(None, {('f', '#has'): TRUE, ('f', '#opt'): l}, 'opt')
            return map1('opt%s' % (node is not None and is_std(self.t(node)['n'], 'optional<')), f, v)
        return v

    def e_lambda(self, e):
        env = {}
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = self.fr.this
            elif c.get('copy'):
                if 'e' in c and c['e'] is not None:
                    v = self.eval(c['e'])
                else:
                    v = self.read(self.fr.env[c['id']])
                env[c['id']] = self.temp(v)
            elif 'e' in c and c['e'] is not None and c['id'] not in self.fr.env:
                env[c['id']] = self.eval_lv(c['e'])
            else:
                env[c['id']] = self.fr.env.get(c['id'], ('val', UNDEF))
        full = dict(self.fr.env)
        full.update(env)
        cid = self.fresh()
        self.closures[cid] = (e, full, this if this is not None else self.fr.this, self.fr.src, self.fr.T, self.fr.fn)
        return mkT('closure', cid)

    def call_closure(self, c, args, node, mangled=None):
        """args: LVs"""
        e, env, this, src, Ty, fn = self.closures[c.args[0]]
        params, body = e['params'], e.get('body')
        if e.get('generic'):
            inst = None
            for i in e['insts']:
                if mangled is None or i['m'] == mangled:
                    inst = i
                    break
            if inst is None:
                return self.unk('generic lambda', node)
            params, body = inst['params'], inst['body']
        fr = Frame({'q': (fn or {}).get('q', '') + '::lambda', 'rt': e.get('rt', -1)}, src, Ty)
        fr.env = dict(env)
        fr.this = this
        return self.run_body(fr, params, args, body, node)

    def run_body(self, fr, params, args, body, node, pre=None):
        if self.depth > self.maxdepth:
            return self.unk('inlining depth', node)
        ofr, obase, ost = self.fr, self.base, self.st
        P = self.st.pc
        oline = self.curline
        for p, a in zip(params, args):
            pt = fr.T[p['t']] if p['t'] >= 0 else {'k': 'o', 'n': ''}
            if pt.get('ref'):
                if a[0] == 'mapelem':
                    a = self.temp(self.lvread(a))
                fr.env[p['id']] = a
            else:
                v = self.lvread(a, pt) if a[0] != 'val' else a[1]
                if pt['k'] == 'p':
                    v = self.decay(v, a)
                fr.env[p['id']] = x = self.temp(v)
                if pt['k'] == 'u':
                    self.unsigned.add(x[1])
        self.fr = fr
        self.base = and_(obase, P)
        self.st = State(self.st.cells, TRUE)
        self.depth += 1
        try:
            if pre:
                pre()
            self.exec(body)
            outs = list(fr.returns)
            if self.st is not None:
                outs.append((self.st, VOID))
        finally:
            self.depth -= 1
            self.fr, self.base = ofr, obase
            self.curline = oline
        outs = [(s, v) for s, v in outs if s.pc is not FALSE]
        if not outs:
            self.st = None
            return UNDEF
        st, val = outs[-1]
        for s, v in reversed(outs[:-1]):
            pc = or_(s.pc, st.pc)
            c = care(s.pc, pc)
            st = self.merge2(s, st)
            val = self.merge_ret(c, v, val)
        st.pc = and_(P, st.pc)
        self.st = st
        if st.pc is FALSE:
            self.st = None
        return val

    def decay(self, v, lv):
        """an array passed where a pointer is expected"""
        if isinstance(v, T) and lv[0] == 'lv' and lv[1][0] == 'L' and (
                v is UNDEF or v.tag == 'filled' or v.tag == 'obj' and
                all(c[0] == 'i' for c, _ in v.args[1]) and v.args[1]):
            return self.addr(self.sub_lv(lv, ('i', ZERO)))
        return v

    def merge_ret(self, c, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, tuple) and isinstance(b, tuple):
                la, lb = a[1], b[1]
                if la == lb:
                    return a
                return ('reflv', ('cond', c, la, lb))
            return ('reflv', ('val', ite(c, self.lvread(a) if isinstance(a, tuple) else a,
                                         self.lvread(b) if isinstance(b, tuple) else b)))
        if a is UNDEF or a is VOID:
            return b
        if b is UNDEF or b is VOID:
            return a
        return ite(c, a, b)

    # ------------------------------------------------------------ construction
    def e_init(self, e):
        t = self.t(e)
        n = t['n']
        vals = [self.eval(a) for a in e['a']]
        m = STDARR.match(n)
        if m and len(vals) == 1:
            return vals[0]
        if m and not vals:
            return self.zero(t)
        if t['k'] == 'a' or m:
            d = {('i', i): v for i, v in enumerate(vals)}
            cnt = e.get('n')
            if 'fill' in e and cnt is not None:
                fv = self.eval(e['fill'])
                if not d:
                    return mkT('filled', num(cnt), fv)
                for i in range(len(vals), min(cnt, 64)):
                    d[('i', i)] = fv
            return obj(None, d, 'vec')
        r = self.db.rec.get(n)
        if r is not None:
            if len(e['a']) == 1 and len(vals) == 1 and self.t(e['a'][0])['n'].replace('const ', '') == n.replace('const ', ''):
                return vals[0]      # a reference bound to the object in the braces
            fs = {}
            names = [f['n'] for f in r['fields']]
            nb = len(r['bases'])
            vs = vals[nb:] if nb else vals
            for i, fnm in enumerate(names):
                if i < len(vs):
                    ft = r['_T'][r['fields'][i]['t']]
                    v = vs[i]
                    if is_std(ft['n'], 'optional<'):
                        v = self.coerce(v, ft, e['a'][i + nb])
                    fs[('f', fnm)] = v
            return obj(None, fs, n)
        if t['k'] in 'iudbep' and len(vals) == 1:
            return vals[0]
        if t['k'] in 'iudbep' and not vals:
            return self.zero(t)
        if is_std(n, 'initializer_list<') or n.startswith('const ') or True:
            return obj(None, {('i', i): v for i, v in enumerate(vals)}, 'vec')

    def e_new(self, e):
        if e.get('n') is not None:
            n = self.eval(e['n'])
            v = self.eval(e['e']) if e.get('e') is not None else UNDEF
            if self.st is None:
                return UNDEF
            return self.addr(self.temp(mkT('filled', n, self.freeze(v))))
        v = self.eval(e['e']) if e.get('e') is not None else UNDEF
        return self.addr(self.temp(v))

    def e_delete(self, e):
        self.event('delete', [self.eval(e['e'])], e)
        return VOID

    def e_throw(self, e):
        tn = self.fr.T[e['tt']]['n'] if 'tt' in e else 'rethrow'
        self.event('throw', [strlit(tn)], e)
        if self.throws is not None and self.st is not None:
            self.throws.append(self.st)
        self.st = None
        return UNDEF

    def e_other(self, e):
        return self.unk('expression ' + e.get('c', '?'), e)

    def e_ctor(self, e):
        t = self.t(e)
        n = t['n']
        f = e['f']
        args = e['a']
        if e.get('cm') and not e.get('cmu'):
            return self.eval(args[0])
        if t.get('lam'):
            return self.eval(args[0]) if args else self.unk('lambda ctor', e)
        fn = self.db.lookup_fn(f['m'], self.fr.src)
        if fn is not None and 'body' in fn and (self.kept(fn['q']) or not self.inlined(fn)):
            vs = []
            for a in args:
                vs.append(self.eval(a))
                if self.st is None:
                    return UNDEF
            self.opaque_used.setdefault(fn['q'], 0)
            return self.make_opaque(fn, vs, e, t)
        if fn is not None and 'body' in fn:
            return self.construct(fn, [self.eval_lv(a) for a in args], e)
        if e.get('cm') and args:
            return self.eval(args[0])
        return self.std_construct(t, e, args)

    def kept(self, q):
        return any(q.endswith('::' + o) for s in (self.opaque, self.pure_opaque) for o in s)

    def make_opaque(self, fn, vs, e, t):
        if effects.pure(self.db, fn) or any(fn['q'].endswith('::' + o) for o in self.pure_opaque):
            return self.opaque_apply('make:' + fn['q'], vs)
        return self.event('make:' + fn['q'], vs, e, t)

    def new_frame(self, fn):
        return Frame(fn, fn['_src'], fn['_T'])

    def construct(self, fn, args, node):
        if self.depth > self.maxdepth or fn['m'] in self.stack:
            return self.unk('constructor recursion ' + fn['q'], node)
        self.analysed.add(fn['m'])
        rec = fn['n']
        fr = Frame(fn, fn['_src'], fn['_T'])
        root = ('L', self.fresh())
        fr.this = ('lv', root, ())
        rname = fn['n'].rsplit('::', 1)[0]
        if fn.get('thist') is not None and fn['thist'] >= 0:
            rname = fn['_T'][fn['thist']]['n']
        self.st.cells[root] = mkT('obj', '', (), rname)
        self.stack.append(fn['m'])

        def pre():
            for i in fn['inits']:
                if i.get('f') is not None:
                    lv = self.sub_lv(fr.this, ('f', i['f']))
                    ie = i['e']
                    ft = self.field_type(rname, i['f'])
                    if ft is not None and ft.get('ref'):
                        # reference member: remember the address
                        self.write(lv, self.read(self.eval_lv(ie)))
                        continue
                    v = self.eval(ie)
                    if self.st is None:
                        return
                    if ft is not None:
                        v = self.coerce(v, ft, ie)
                    self.write(lv, v)
                elif i.get('base') is not None or i.get('deleg'):
                    v = self.eval(i['e'])
                    if self.st is None:
                        return
                    if isinstance(v, T) and v.tag == 'obj':
                        if i.get('deleg'):
                            self.write(fr.this, v)
                        else:
                            for c, x in v.args[1]:
                                self.write(self.sub_lv(fr.this, c), x)
                            if v.args[0] != '':
                                self.write(self.sub_lv(fr.this, ('f', '#base')), v.args[0])
                    else:
                        self.write(self.sub_lv(fr.this, ('f', '#base')), v)
        try:
            self.run_body(fr, fn['params'], args, fn['body'], node, pre)
        finally:
            self.stack.pop()
        if self.st is None:
            return UNDEF
        return self.st.cells.get(root, UNDEF)

    def field_type(self, rname, f):
        r = self.db.rec.get(rname)
        if r is None:
            return None
        for x in r['fields']:
            if x['n'] == f:
                return r['_T'][x['t']]
        return None

    def std_construct(self, t, e, args):
        n = t['n']
        if e.get('dflt') and not args and not n.startswith('Eigen::Matrix<'):
            return self.default_class(t)
        if is_std(n, 'basic_string<', 'basic_string_view<') and args:
            if len(args) == 1 or self.t(args[-1])['n'].startswith('std::allocator'):
                return self.eval(args[0])
            return app('string', *[self.eval(a) for a in args])
        if is_std(n, 'optional<'):
            if args and 'nullopt' in self.t(args[0])['n']:
                return obj(None, {('f', '#has'): FALSE}, 'opt')
            v = self.eval(args[0])
            if is_std(self.t(args[0])['n'], 'optional<'):
                return v
            return obj(None, {('f', '#has'): TRUE, ('f', '#opt'): v}, 'opt')
        if is_std(n, *PTRS):
            return self.eval(args[0]) if args else NULL
        if len(args) == 1 and n.startswith(('__gnu_cxx::__normal_iterator<', 'std::move_iterator<')):
            return self.eval(args[0])
        if is_std(n, 'pair<') and len(args) == 2:
            return obj(None, {('f', 'first'): self.eval(args[0]), ('f', 'second'): self.eval(args[1])}, 'pair')
        if is_std(n, 'tuple<'):
            return obj(None, {('i', i): self.eval(a) for i, a in enumerate(args)}, 'tuple')
        if is_std(n, 'function<', 'reference_wrapper<'):
            return self.eval(args[0]) if args else NULL
        if is_std(n, 'vector<', 'deque<', 'list<', 'set<', 'map<', 'unordered_map<', 'initializer_list<'):
            args = [a for a in args if not self.t(a)['n'].startswith('std::allocator') and 'std::less' not in self.t(a)['n'][:9]]
            if not args:
                return mkT('obj', '', (), 'vec')
            if e.get('sil') or self.t(args[0])['n'].startswith('std::initializer_list') or args[0]['k'] == 'init':
                v = self.eval(args[0])
                if is_std(n, 'map<', 'unordered_map<') and isinstance(v, T) and v.tag == 'obj':
                    return self.map_literal(v)
                return v
            vs = [self.eval(a) for a in args]
            if is_std(n, 'vector<', 'deque<') and self.t(args[0])['k'] in 'iu':
                if len(vs) == 2:
                    return mapn(lambda a, b: mkT('filled', a, b), vs) or mkT('filled', *vs)
                el = re.match(r'^std::(?:vector|deque)<(.*)>$', n)
                return map1('filled0' + n, lambda a: mkT('filled', a, self.zero_named(el.group(1))), vs[0])
            if len(vs) == 1:
                return vs[0]
            if len(vs) == 2 and self.is_it(vs[0]) and self.is_it(vs[1]):
                return self.range_value(vs[0], vs[1])
            return app('make:' + n.split('<')[0], *[self.freeze(v) for v in vs])
        m = re.match(r'^Eigen::Matrix<double, (\d+), (\d+)', n)
        if m and len(args) == 1 and 'Eigen::' in self.t(args[0])['n']:
            return self.eval(args[0])
        if m and not args:
            return mkT('obj', '', (), 'mat%sx%s' % m.groups())
        vs = []
        for a in args:
            v = self.eval(a)
            if self.st is None:
                return UNDEF
            vs.append(v)
        if len(vs) == 1 and t['k'] != 'r':
            return vs[0]
        return self.opaque_apply('make:' + n, vs)

    def map_literal(self, v):
        t = mkT('obj', '', (), 'vec')
        for c, x in v.args[1]:
            if isinstance(x, T) and x.tag == 'obj' and len(x.args[1]) == 2:
                d = dict(x.args[1])
                t = upd_v(t, 'k', d.get(('f', 'first'), d.get(('i', 0))), d.get(('f', 'second'), d.get(('i', 1))))
            else:
                return v
        return t

    def range_value(self, a, b):
        """value of the range [a,b)"""
        if a.tag == 'iter' and b.tag == 'iter' and a.args[0] is b.args[0]:
            ref = a.args[0]
            c = self.read(('lv', ref.args[0], ref.args[1]))
            if const_of(a.args[1]) == 0 and b.args[1] is size_of(c):
                return c
            return app('slice', c, a.args[1], b.args[1])
        return app('slice', self.freeze(a), self.freeze(b))

    def opaque_apply(self, name, vs, isint=False, nonneg=False, boolean=False):
        return app(name, *[self.freeze(v) for v in vs], isint=isint, nonneg=nonneg, boolean=boolean)

    # ------------------------------------------------------------ calls
    def e_call(self, e):
        return self.l_call(e)

    def l_call(self, e):
        if self.is_log(e):
            return ('val', mkT('log'))
        f = e.get('f')
        if f is None:
            cal = self.eval(e['callee'])
            return self.call_value(cal, e['a'], e)
        return self.dispatch(f, None, e['a'], e)

    def call_value(self, cal, args, e, mangled=None):
        if isinstance(cal, D):
            res = []
            base = self.st
            c = mk(cal.var, TRUE, FALSE)
            out = {}
            self.branch(c, lambda: out.__setitem__(1, self.as_val(self.call_value(cal.hi, args, e, mangled))),
                        lambda: out.__setitem__(2, self.as_val(self.call_value(cal.lo, args, e, mangled))))
            return ite(c, out.get(1, UNDEF), out.get(2, UNDEF))
        if cal.tag == 'closure':
            return self.call_closure(cal, [self.eval_lv(a) for a in args], e, mangled)
        if cal.tag == 'fnref':
            fn = self.db.lookup_fn(cal.args[1], self.fr.src)
            if fn is not None and 'body' in fn:
                return self.call_fn(fn, None, [self.eval_lv(a) for a in args], e)
            if cal.args[0].startswith('std::') and cal.args[0][5:] in UNARY and len(args) == 1:
                return UNARY[cal.args[0][5:]](self.eval(args[0]))
        vs = [self.eval(a) for a in args]
        return self.event('callfn', [self.freeze(cal)] + vs, e, self.t(e))

    def as_val(self, v):
        return self.lvread(v) if isinstance(v, tuple) else v

    def e_mcall(self, e):
        return self.l_mcall(e)

    def l_mcall(self, e):
        if self.is_log(e):
            return ('val', mkT('log'))
        f = e.get('f')
        if f is None:
            vs = [self.eval(a) for a in e['a']]
            return self.unk('call through member pointer', e)
        o = e['o']
        if e.get('arrow'):
            if o['k'] == 'this' and self.fr.this is not None:
                lv = self.fr.this
            else:
                pv = self.eval(o)
                if self.st is None:
                    return ('val', UNDEF)
                lv = self.deref(pv)
        else:
            lv = self.eval_lv(o)
        if self.st is None:
            return ('val', UNDEF)
        return self.dispatch(f, lv, e['a'], e, oty=self.t(o))

    def e_opcall(self, e):
        return self.l_opcall(e)

    def l_opcall(self, e):
        if self.is_log(e):
            return ('val', mkT('log'))
        f = e.get('f')
        args = e['a']
        if f is None:
            return self.unk('operator call', e)
        if f.get('rec') and not f.get('st') and 'lam' in f:
            cal = self.eval(args[0])
            return self.call_value(cal, args[1:], e, f['m'])
        if f.get('rec') and not f.get('st'):
            lv = self.eval_lv(args[0])
            if self.st is None:
                return ('val', UNDEF)
            return self.dispatch(f, lv, args[1:], e, oty=self.t(args[0]))
        return self.dispatch(f, None, args, e)

    def dispatch(self, f, this, args, e, oty=None):
        q = f['q']
        fn = self.db.lookup_fn(f['m'], self.fr.src)
        # virtual call: not resolved unless qualified
        virt = f.get('virt') and not e.get('qual') and not (e.get('o') or {}).get('k') == 'xx'
        if q in self.opaque or any(q.endswith('::' + o) for o in self.opaque if '::' not in o):
            return self.opaque_call(f, this, args, e)
        if self.pure_opaque and any(q.endswith('::' + o) for o in self.pure_opaque):
            return self.opaque_call(f, this, args, e)
        if virt and fn is not None and this is not None:
            # a call on a concrete local object resolves statically
            if this[0] == 'lv' and this[1][0] == 'L' and not e.get('arrow'):
                virt = False
            elif self.final_method(f):
                virt = False
        if virt:
            return self.opaque_call(f, this, args, e, virtual=True)
        if fn is not None and fn.get('defaulted'):
            if q.endswith('operator='):
                v = self.eval(args[0])
                self.write(this, v)
                return this
            if q.endswith('operator==') :
                vs = ([self.lvread(this)] if this is not None else []) + [self.eval(a) for a in args]
                return eq(*vs)
            if '~' in q:
                return VOID
        if fn is not None and 'body' in fn and not self.inlined(fn):
            return self.opaque_call(f, this, args, e)
        if fn is not None and 'body' in fn:
            lvs = []
            for a in args:
                lvs.append(self.eval_lv(a))
                if self.st is None:
                    return ('val', UNDEF)
            return self.call_fn(fn, this, lvs, e)
        if q.startswith('std::') or q.startswith('__gnu_cxx') or not q.startswith('smash::'):
            r = self.std_call(f, q, this, args, e, oty)
            if r is not NotImplemented:
                return r
        if fn is None and q.startswith('smash::') and q.endswith('::operator=') and this is not None and len(args) == 1:
            v = self.eval(args[0])   # implicit assignment
            self.write(this, v)
            return this
        return self.opaque_call(f, this, args, e)

    def inlined(self, fn):
        """Modular reasoning: helpers that are small, or that the committed list
        of known functions does not contain, are looked through; every other
        function is a named operation (and is judged on its own)."""
        q = fn['q']
        if q in self.force or fn['m'] in self.force or '*' in self.force:
            return True
        if q.startswith('spec::') or q not in known_functions():
            return True
        key = '_inl%d' % self.limit
        r = fn.get(key)
        if r is None:
            n, loop = effects.size(fn)
            r = n <= (self.limit if fn['_branch'] else 3 * self.limit) and not loop and not fn.get('virt_x')
            if r and fn['m'] in effects.effectful(self.db):
                # small wrappers of effects are looked through only if tiny
                r = n <= 14
            fn[key] = r
        return r

    def final_method(self, f):
        """no class overrides this method"""
        if getattr(Interp, '_over', None) is None or Interp._over_db is not self.db:
            s = set()
            for r in self.db.rec.values():
                for m in r['methods']:
                    for o in m.get('over', ()):
                        s.add(o)
            Interp._over, Interp._over_db = s, self.db
        return f['m'] not in Interp._over

    def call_fn(self, fn, this, lvs, e):
        rec = fn['m'] in self.stack
        if rec and self.depth <= self.maxdepth and self.stack.count(fn['m']) < 10:
            # unrolled where an argument that counts down is known
            rec = not any(fn['_T'][p['t']]['k'] in 'iu' and const_of(self.lvread(l)) is not None
                          for p, l in zip(fn['params'], lvs) if p['t'] >= 0)
        if rec or self.depth > self.maxdepth:
            vs = ([self.lvread(this)] if this is not None else []) + [self.lvread(l) for l in lvs]
            t = fn['_T'][fn['rt']] if fn['rt'] >= 0 else {'k': 'o'}
            return self.opaque_apply('rec:' + fn['q'], vs, isint=t['k'] in 'iu', nonneg=t['k'] == 'u', boolean=t['k'] == 'b')
        if fn.get('err'):
            return self.unk('function with parse errors ' + fn['q'], e)
        self.analysed.add(fn['m'])
        fr = Frame(fn, fn['_src'], fn['_T'])
        fr.this = this
        self.stack.append(fn['m'])
        try:
            v = self.run_body(fr, fn['params'], lvs, fn['body'], e)
        finally:
            self.stack.pop()
        if self.st is None:
            return ('val', UNDEF)
        if this is not None and this[0] == 'lv' and not fn.get('const'):
            n = self.array_record(fn.get('rec'))
            if n:
                self.complete(this, n)
        return v

    def array_record(self, rec):
        """(field, length) of a class that is one small array"""
        c = self.db.__dict__.setdefault('_arec', {})
        if rec not in c:
            r, c[rec] = self.db.rec.get(rec), None
            if r is not None and not r['bases'] and rec.startswith('smash::'):
                fs = [f for f in r['fields'] if not f.get('st')]
                m = re.match(r'^std::array<double, (\d+)(?:UL)?>$', r['_T'][fs[0]['t']]['n']) if len(fs) == 1 else None
                if m and int(m.group(1)) <= 4:
                    c[rec] = (fs[0]['n'], int(m.group(1)))
        return c[rec]

    def complete(self, lv, n):
        """an array of which every element has been set does not depend on what it was before"""
        v = self.read(lv)

        def leaf(t):
            if t.tag != 'obj' or len(t.args[1]) != 1 or t.args[1][0][0] != ('f', n[0]):
                return t
            x = t.args[1][0][1]
            if not isinstance(x, T) or x.tag != 'obj' or len(x.args[1]) != n[1] or (x.args[0] == '' and t.args[0] == ''):
                return t
            return mkT('obj', '', ((('f', n[0]), mkT('obj', '', x.args[1], x.args[2])),), t.args[2])
        if isinstance(v, T):
            w = leaf(v)
            if w is not v:
                self.write(lv, w)

    def const_arg(self, args, i):
        v = self.eval(args[i]) if i < len(args) else None
        return const_of(v) if isinstance(v, T) else v

    def opaque_call(self, f, this, args, e, virtual=False):
        q = f['q']
        pm = f.get('pm', '')
        vs = []
        lvs = []
        pointees = []
        for i, a in enumerate(args):
            mode = pm[i] if i < len(pm) else 'v'
            if mode == 'm':
                lv = self.eval_lv(a)
                lvs.append((i, lv))
                vs.append(self.lvread(lv))
            elif mode in 'pq' and self.array_arg(a) is not None:
                lv = self.eval_lv(self.array_arg(a))
                if mode == 'p':
                    lvs.append((i, lv))
                vs.append(self.lvread(lv))
            else:
                v = self.eval(a)
                if mode in 'pq' and isinstance(v, T) and v.tag == 'ptr':
                    lv = ('lv', v.args[0], v.args[1])
                    if mode == 'p':
                        lvs.append((i, lv))
                    if q.endswith('fwrite') and self.const_arg(args, 2) == 1:
                        v = self.lvread(lv)      # the object written, wherever it is
                    elif v.args[0][0] == 'L' or v.args[1]:
                        pointees.append(self.lvread(lv))
                vs.append(v)
            if self.st is None:
                return ('val', UNDEF)
        vs += pointees
        t = self.fr.T[f['rt']] if f.get('rt', -1) >= 0 else self.t(e)
        name = ('virt:' if virtual else '') + q + (('<%s>' % ','.join(f['ta'])) if f.get('ta') else '')
        if 'lambda' in name:
            name = LAMNAME.sub('lambda', name)
        fn = self.db.lookup_fn(f['m'], self.fr.src)
        self.opaque_used[q] = self.opaque_used.get(q, 0) + 1
        silent = False
        if fn is not None and 'body' in fn and not virtual:
            pure = effects.pure(self.db, fn)
            silent = not pure and this is not None and not f.get('const') and \
                fn['m'] not in effects.effectful(self.db)
        else:
            pure = this is not None and f.get('const') and t['k'] != 'v'
        if (pure or silent) and any(isinstance(v, T) and v.tag == 'closure' and self.closure_term(v).args[3]
                                    for v in vs):
            pure = silent = False        # what it is given to call has effects
        ov = [self.lvread(this)] if this is not None else []
        if this is not None and virtual and this[0] == 'lv' and this[1][0] == 'D' and not this[2]:
            ov = [this[1][1]]
        if pure:
            r = self.opaque_apply(name, ov + vs, isint=t['k'] in 'iu', nonneg=t['k'] == 'u', boolean=t['k'] == 'b')
        elif q in self.pure_opaque or any(q.endswith('::' + o) for o in self.pure_opaque):
            r = self.opaque_apply(name, ov + vs, isint=t['k'] in 'iu', nonneg=t['k'] == 'u', boolean=t['k'] == 'b')
        else:
            if silent:
                r = VOID if t['k'] == 'v' else self.opaque_apply(
                    name, ov + vs, isint=t['k'] in 'iu', nonneg=t['k'] == 'u', boolean=t['k'] == 'b')
            else:
                r = self.event(name, ov + vs, e, t)
            if this is not None and not f.get('const'):
                if this[0] == 'lv' and not (virtual and not this[2]):
                    self.write(this, self.opaque_apply('after:' + name, ov + vs))
                elif this[0] == 'cond' and not virtual:
                    self.write(this, self.opaque_apply('after:' + name, ov + vs))
        for i, lv in lvs:
            if lv[0] in ('lv', 'cond'):
                self.write(lv, self.opaque_apply('out%d:%s' % (i, name), ov + vs))
        if t.get('ref') and this is not None and this[0] == 'lv' and not f.get('const') and SELFOP.search(name):
            return this
        if t.get('ref') and isinstance(r, T) and not pure:
            return ('lv', ('D', mkT('app', 'addrof', r)), ())
        return r

    def array_arg(self, a):
        """the array an argument decays from"""
        while isinstance(a, dict) and a.get('k') in ('cast', 'imp', 'paren') and 'e' in a:
            if self.t(a['e']).get('k') == 'a':
                return a['e']
            a = a['e']
        if isinstance(a, dict) and a.get('k') and self.t(a).get('k') == 'a':
            return a
        return None

    pure_opaque = set()

    # std ------------------------------------------------------------
    def std_call(self, f, q, this, args, e, oty):
        from stdmodel import std_call
        return std_call(self, f, q, this, args, e, oty)


# ---------------------------------------------------------------- summaries
class Summary:
    pass


def summarise(db, fn, opaque=(), pure_opaque=(), unroll=16, pre=None, inline=(), limit=60):
    """Summary of one function in terms of this / a0, a1, ..."""
    it = Interp(db, opaque, unroll=unroll, inline=inline, limit=limit)
    it.pure_opaque = set(pure_opaque)
    S = Summary()
    S.fn = fn
    S.error = None
    S.taint = []
    S.ret = None
    S.cells = {}
    S.trace = []
    S.interp = it
    fr = Frame(fn, fn['_src'], fn['_T'])
    it.fr = fr
    it.st = State({}, TRUE)
    it.stack.append(fn['m'])
    it.analysed.add(fn['m'])
    params = list(fn['params'])
    self_param = None
    if params and params[0]['n'] == 'self':
        self_param = params.pop(0)
    try:
        if fn.get('err'):
            raise Unsupported('parse errors in ' + fn['q'])
        if fn.get('ctor'):
            lvs = []
            for i, p in enumerate(params):
                lvs.append(('lv', ('R', 'a%d' % i), ()))
                t = fn['_T'][p['t']]
                it.rootinit[('R', 'a%d' % i)] = param_sym(i, t)
            it.stack.pop()
            v = it.construct(fn, lvs, None)
            S.pc = it.st.pc if it.st is not None else FALSE
            S.ret = care(it.freeze(v), S.pc) if it.st is not None else UNDEF
            S.rawret = S.ret
        else:
            if self_param is not None:
                t = fn['_T'][self_param['t']]
                if t['k'] == 'p':
                    fr.env[self_param['id']] = it.temp(mkT('ptr', ('R', 'this'), ()))
                else:
                    fr.env[self_param['id']] = ('lv', ('R', 'this'), ())
                fr.this = ('lv', ('R', 'this'), ())
            elif fn.get('method'):
                fr.this = ('lv', ('R', 'this'), ())
            for i, p in enumerate(params):
                t = fn['_T'][p['t']]
                s = param_sym(i, t)
                if t.get('ref'):
                    it.rootinit[('R', 'a%d' % i)] = s
                    fr.env[p['id']] = ('lv', ('R', 'a%d' % i), ())
                else:
                    fr.env[p['id']] = x = it.temp(s)
                    if t['k'] == 'u':
                        it.unsigned.add(x[1])
            if pre:
                pre(it)
            it.exec(fn['body'])
            outs = list(fr.returns)
            if it.st is not None:
                outs.append((it.st, VOID))
            outs = [(s, v) for s, v in outs if s.pc is not FALSE]
            if outs:
                st, val = outs[-1]
                it.st = st
                val = it.final_ret(val)
                for s, v in reversed(outs[:-1]):
                    it.st = s
                    v = it.final_ret(v)
                    pc = or_(s.pc, st.pc)
                    c = care(s.pc, pc)
                    st = it.merge2(s, st)
                    val = it.merge_ret(c, v, val)
                S.ret = care(val, st.pc)
                S.pc = st.pc
                it.st = st
            else:
                S.ret = UNDEF
                S.pc = FALSE
        st = it.st
        if st is not None:
            for k, v in st.cells.items():
                if k[0] == 'L':
                    continue
                it.st = st
                v = care(it.freeze(v), st.pc)
                if v is it.root_init(k):
                    continue
                if k[0] == 'G':
                    g = db.glob.get(k[1])
                    if g is not None and g.get('const'):
                        continue
                name = k[1] if k[0] in 'RS' else ('glob:' + k[1] if k[0] == 'G' else show(k[1]))
                S.cells[(k[0], k[1] if not isinstance(k[1], T) else k[1].id)] = v
                if not hasattr(S, 'names'):
                    S.names = {}
                S.names[(k[0], k[1] if not isinstance(k[1], T) else k[1].id)] = name
        S.trace = it.norm_trace(it.trace)
        S.tlines = [(e.guard, e.term, e.line) for e in it.trace]
    except (Unsupported, TooBig, RecursionError) as ex:
        S.error = '%s: %s' % (type(ex).__name__, ex)
    S.taint = list(it.taint)
    S.analysed = set(it.analysed)
    return S


def final_ret(self, v):
    if isinstance(v, tuple):
        lv = v[1]
        return self.freeze(self.lvread(v))
    return self.freeze(v)


Interp.final_ret = final_ret


def param_sym(i, t):
    k = t['k']
    s = sym('a%d' % i, isint=k in 'iu', nonneg=k == 'u')
    if k == 'b':
        return bool_atom(s)
    return s
