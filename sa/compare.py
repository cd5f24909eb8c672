"""Deciding that two functions denote the same function.

1. both are summarised by value numbering into normal forms (interp);
2. equal normal forms (same object) are equal functions;
3. a residual difference is put to random interpretation of the value numbers:
   it is reported only if an interpretation separates the two.
Summaries containing constructs that are not modelled never give a report.
"""
import signal
import time
import interp
import rint
import terms as TM
from terms import *


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def has_unk(v, memo={}):
    st = [v]
    seen = set()
    while st:
        n = st.pop()
        if isinstance(n, tuple):
            st.extend(n)
            continue
        if not isinstance(n, (T, D)) or n.id in seen:
            continue
        seen.add(n.id)
        if isinstance(n, D):
            d = n.var.data
            st.extend([n.hi, n.lo])
            st.extend(d if isinstance(d, tuple) else (d,))
        elif n.tag == 'unk':
            return True
        elif n.tag == 'poly':
            for m, c in n.args[0]:
                for a, e in m:
                    st.append(NODES[a])
        else:
            st.extend(n.args)
    return False


def summ(db, fn, secs, **k):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(secs)
    try:
        return interp.summarise(db, fn, **k)
    except Timeout:
        S = interp.Summary()
        S.error, S.taint, S.fn, S.analysed = 'time limit', [], fn, set()
        S.interp = None
        return S
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def outputs(S, project=None):
    """name -> V of everything observable, plus the trace"""
    out = {'returned value': S.ret if S.ret is not None else UNDEF}
    if S.ret is VOID:
        out['returned value'] = VOID
    elif S.fn.get('rt', -1) >= 0 and S.fn['_T'][S.fn['rt']]['k'] == 'b' and S.ret is not None and \
            not any(l is UNDEF or l is VOID for l in leaves(S.ret)):
        out['returned value'] = truth(S.ret)
    out['condition of normal return'] = getattr(S, 'pc', TRUE)
    stat = []
    for k, v in S.cells.items():
        if k[0] == 'S':
            stat.append(v)
            continue
        out['final value of %s' % (S.names[k],)] = (k, v)
    return out


ARR = __import__('re').compile(r'^std::array<(.*), (\d+)(?:UL)?>$')
INTS = {'int', 'long', 'unsigned int', 'unsigned long', 'short', 'unsigned short', 'unsigned char', 'char',
        'long long', 'unsigned long long', 'signed char'}


def parts(db, tn):
    """[(component, type name)] of a type whose value is its components"""
    m = ARR.match(tn)
    if m:
        n = int(m.group(2))
        return [(('i', i), m.group(1)) for i in range(n)] if n <= 16 else None
    r = db.rec.get(tn)
    if r is None or not tn.startswith(('smash::', 'spec::')) or r.get('union'):
        return None
    out = []
    for b in r['bases']:
        bn = b if isinstance(b, str) else b.get('n')
        x = parts(db, bn)
        if x is None and bn.startswith('smash::'):
            if not (bn in db.rec):
                return None
            x = []
        out += x or []
    for f in r['fields']:
        if f['n'] == '' or f['n'][0] == '#' or f.get('st'):
            return None
        t = r['_T'][f['t']]
        out.append((('f', f['n']), 'ref' if t.get('ref') else t['n']))
    if len(out) > 60 or not out:
        return None
    return out


def obj_leaf(v):
    return any(l.tag == 'obj' for l in leaves(v))


def expand(db, name, a, b, tn, depth=0):
    """compare component by component where the type says what these are"""
    tn = tn.replace('const ', '')
    if a is b:
        return []
    if depth < 6 and isinstance(a, (T, D)) and isinstance(b, (T, D)) and (obj_leaf(a) or obj_leaf(b)) and \
            a is not UNDEF and b is not UNDEF:
        ps = parts(db, tn)
        if ps and not any(l is UNDEF or l is VOID for l in leaves(a) + leaves(b)):
            out = []
            for c, t in ps:
                ii = t.replace('const ', '') in INTS
                out += expand(db, '%s%s' % (name, '.' + c[1] if c[0] == 'f' else '[%d]' % c[1]),
                              sel(a, c, isint=ii), sel(b, c, isint=ii), t, depth + 1)
            return out
    return [(name, a, b)]


def root_type(S, db, root):
    fn = S.fn
    if root == 'ret':
        return fn['n'].rsplit('::', 1)[0] if fn.get('ctor') else fn['_T'][fn['rt']]['n']
    if root == ('R', 'this'):
        if fn.get('rec'):
            return fn['rec']
        for p in fn['params']:
            if p['n'] == 'self':
                return fn['_T'][p['t']]['n']
    if root[0] == 'R' and root[1][0] == 'a' and root[1][1:].isdigit():
        ps = [p for p in fn['params'] if p['n'] != 'self']
        i = int(root[1][1:])
        if i < len(ps):
            return fn['_T'][ps[i]['t']]['n']
    if root[0] == 'G':
        g = db.glob.get(root[1])
        if g:
            return g['_T'][g['t']]['n']
    return ''


class Result:
    def __init__(self, status, why='', where='', detail=None):
        self.status, self.why, self.where = status, why, where
        self.detail = detail or {}


def first_diff_line(S, ev):
    for g, t, l in getattr(S, 'tlines', ()):
        if t is ev:
            return l
    return None


def compare_summaries(C, R, tries=360, seed=1, skip=()):
    """C candidate, R reference"""
    co, ro = outputs(C), outputs(R)
    diffs = []
    # memory reached through pointers: cells both sides name are compared
    # directly, the others by the value of the pointer
    mem = [[], []]
    for side, (S, A, B) in enumerate(((C, co, ro), (R, ro, co))):
        for n in [x for x in A if x not in B and isinstance(A[x], tuple) and A[x][0][0] == 'D']:
            key, v = A.pop(n)
            if any(s in n for s in skip):
                continue
            mem[side].append((NODES[key[1]] if not isinstance(key[1], T) else key[1], v, initial(S, S, key), n))
    for n in list(co) + [x for x in ro if x not in co]:
        if any(s in n for s in skip):
            continue
        a, b = co.get(n), ro.get(n)
        if isinstance(a, tuple) or isinstance(b, tuple):
            root = (a or b)[0]
            if a is None:
                a = (root, initial(C, R, root))
            if b is None:
                b = (root, initial(R, C, root))
            a, b = a[1], b[1]
        if n == 'returned value' and (a is VOID or b is VOID) and (a is UNDEF or b is UNDEF):
            continue
        if a is b:
            continue
        db = C.interp.db
        tn = root_type(C, db, 'ret') if n == 'returned value' else ('' if n.startswith('condition') else root_type(C, db, root))
        diffs += expand(db, n, a, b, tn)
    tr = 'trace' not in skip and not same_trace(C.trace, R.trace)
    if not diffs and not tr and not mem[0] and not mem[1]:
        return Result('equal')
    # random interpretation
    unkC = []
    cand = []
    for n, a, b in diffs:
        if has_unk(a) or has_unk(b):
            unkC.append(n)
        else:
            cand.append((n, a, b))
    trunk = tr and any(has_unk(t) or has_unk(g) for g, t in list(C.trace) + list(R.trace))
    vs = [x for d in cand for x in d[1:]]
    for g, t in list(C.trace) + list(R.trace):
        vs += [g, t]
    for m in mem:
        for e in m:
            vs += e[:3]
    mok = not any(has_unk(x) for m in mem for e in m for x in e[:3])
    pcs = [getattr(C, 'pc', TRUE), getattr(R, 'pc', TRUE)]
    pool, lits, forced = rint.gather(vs + pcs)
    ok = 0
    inval = 0
    twins = rint.twins(vs + pcs)
    t0 = time.time()
    cov = set()
    good = {}
    seekd = {}
    bad_ = {}
    toolong = [0]

    def trial(i, path=None):
        """(Result or None, usable, invalid)"""
        hfl = {}
        for _ in range(4):
            E = rint.Env('%s:%s' % (seed, i), i % 4, pool, lits)
            E.hfl = hfl
            if twins and i % 6 == 5:
                E.set_twin(*twins[i // 6 % len(twins)])
            E.clock = time.time() + 4
            if i % 7 == 3 or toolong[0] > 20:
                E.maxsteps *= 12
            r = trial1(i, E, path)
            if not E.conflict:
                return r
        return None, False, 1

    def trial1(i, E, path):
        if path is None:
            E.force(forced)
        elif isinstance(path, tuple):
            if twins and i % 3 == 2:
                E.set_twin(*twins[i // 3 % len(twins)])
            if not E.seek(*path):
                if DBG:
                    print('   seek failed', E.stuck and (E.stuck.kind, [show(q)[:150] if isinstance(q, (T, D)) else str(q) for q in (E.stuck.data if isinstance(E.stuck.data, tuple) else (E.stuck.data,))]))
                return None, False, 1
            if DBG:
                print('   seek reached')
        elif not E.reach(path):
            return None, False, 1
        # undefined operations on the way: choose other values
        for k in range(14):
            E.need = None
            r = trial2(i, E, path)
            if r[0] or not E.need or E.late() or not E.decide(*E.need):
                return r
            E.clear()
        return r

    def trial2(i, E, path):
        inval = 0
        if path is not None:
            i = 0
        if i % 2:
            for p in pcs:
                E.guide(p, FALSE)
        if i % 4 > 1 and cand:
            n, a, b = cand[i // 4 % len(cand)]
            E.guide(b if i % 8 > 3 else a)
        try:
            E.steps = 0
            pc = [E.evb(p) for p in pcs]
        except rint.Invalid as e:
            E.need = e.need
            return None, False, 1
        got = False
        for n, a, b in cand:
            if n.startswith('condition'):
                if pc[0] != pc[1]:
                    return Result('differ', n, detail=dict(candidate=show(a)[:600], reference=show(b)[:600], trial=i)), True, 0
                got = True
                good[n] = good.get(n, 0) + 1
                continue
            if not (pc[0] and pc[1]):
                continue
            try:
                E.steps = 0
                x = E.ev(a)
                y = E.ev(b)
                got = True
                if num_leaf(a) or num_leaf(b):
                    x, y = E.evn(a), E.evn(b)
                if sdiffer(E, x, y):
                    return Result('differ', n, detail=dict(candidate=show(a)[:600], reference=show(b)[:600],
                                                           values=[str(x)[:200], str(y)[:200]], trial=i)), True, 0
                good[n] = good.get(n, 0) + 1
            except rint.Invalid as e:
                inval += 1
                toolong[0] += str(e) == 'too long'
                bad_[(n, str(e))] = bad_.get((n, str(e)), 0) + 1
                E.need = E.need or e.need
        if (mem[0] or mem[1]) and mok and pc[0] and pc[1]:
            try:
                E.steps = 0
                ms = []
                for m in mem:
                    d = {}
                    for ptr, v, init, n in m:
                        k = rint.rnd(E.ev(ptr))
                        x, y = E.ev(v), E.ev(init)
                        if sdiffer(E, x, y):
                            d[k] = (x, n)
                    ms.append(d)
                got = True
                for k in set(ms[0]) | set(ms[1]):
                    if k not in ms[0] or k not in ms[1] or sdiffer(E, ms[0][k][0], ms[1][k][0]):
                        n = (ms[0].get(k) or ms[1].get(k))[1]
                        return Result('differ', 'object written through a pointer: ' + n[:200],
                                      detail=dict(candidate=str(ms[0].get(k, ['not written'])[0])[:600],
                                                  reference=str(ms[1].get(k, ['not written'])[0])[:600], trial=i)), True, 0
                good['objects behind pointers'] = good.get('objects behind pointers', 0) + 1
            except rint.Invalid as e:
                inval += 1
                bad_[('pointers', str(e))] = bad_.get(('pointers', str(e)), 0) + 1
                E.need = E.need or e.need
        if tr and not trunk:
            try:
                E.steps = 0
                x, y = E.trace(C.trace), E.trace(R.trace)
                got = True
                if len(x) != len(y) or any(rint.differ(p, q) for p, q in zip(x, y)):
                    w = ''
                    for p, q in zip(x + [None] * len(y), y + [None] * len(x)):
                        if p is None or q is None or rint.differ(p, q):
                            w = 'effect %s instead of %s' % ((p or ('nothing',))[0], (q or ('nothing',))[0])
                            if p and q and p[0] == q[0]:
                                w = 'arguments of effect %s' % p[0]
                            break
                    return Result('differ', 'sequence of effects: ' + w,
                                  detail=dict(candidate=[str(z)[:160] for z in x[:12]], reference=[str(z)[:160] for z in y[:12]], trial=i)), True, 0
                good['sequence of effects'] = good.get('sequence of effects', 0) + 1
            except rint.Invalid as e:
                inval += 1
                toolong[0] += str(e) == 'too long'
                bad_[('trace', str(e))] = bad_.get(('trace', str(e)), 0) + 1
                E.need = E.need or e.need
        if got and not inval:
            cov.update(E.cov)
        return None, got, inval

    def check(i, path=None):
        r, got, bad = trial(i, path)
        if r:
            # not an artefact of rounding the keys of uninterpreted values
            rint.FMT = '%.5e'
            try:
                r2 = trial(i, path)[0]
            finally:
                rint.FMT = '%.8e'
            if r2:
                return r, got, bad
        return None, got, bad

    for i in range(tries):
        if time.time() - t0 > 60:
            break
        r, got, bad = check(i)
        if r:
            return r
        inval += bad
        ok += bool(got)
    import random
    # cases in which the normal forms have different values
    unlike = []
    for n, a, b in cand:
        x = rint.where_unlike(a, b)
        if isinstance(x, D):
            unlike.append(x)
    if tr and not trunk and len(C.trace) == len(R.trace):
        for (g, t), (h, u) in zip(C.trace, R.trace):
            x = rint.where_unlike(g, h) if g is not h else t is not u and and_(g, rint.where_unlike(t, u) or TRUE)
            if isinstance(x, D):
                unlike.append(x)
    if DBG:
        for x in unlike:
            print('   unlike', x.id, len(leaves(x)), show(x)[:300])
    t1 = time.time()
    rg = random.Random(seed)
    both = and_(*pcs)
    for rounds in range(40):
        for n, x in enumerate(unlike):
            if time.time() - t1 > BUDGET / 2:
                break
            if x.id not in seekd:
                seekd[x.id] = x if both is TRUE else and_(both, x)
            r, got, bad = check(50000 + rounds * len(unlike) + n, (seekd[x.id], rg))
            if r:
                r.detail['directed'] = True
                return r
            inval += bad
            ok += bool(got)
    # decisions not yet seen with both outcomes
    nodes, par = rint.branches(vs + pcs)
    targets = [(i, b) for i in nodes for b in (True, False)]
    rg = random.Random(seed)
    t1 = time.time()
    n = 0
    for rounds in range(3):
        for tg in [t for t in targets if t not in cov]:
            if tg in cov:
                continue
            if time.time() - t1 > BUDGET or time.time() - t0 > 60 + BUDGET:
                break
            path = rint.path_to(nodes, par, tg, rg)
            if path is None:
                continue
            n += 1
            r, got, bad = check(100000 + n, path)
            if r:
                r.detail['directed'] = True
                return r
            inval += bad
            ok += bool(got)
    miss = [t for t in targets if t not in cov]
    todo = [n for n, a, b in cand] + (['objects behind pointers'] if (mem[0] or mem[1]) and mok else []) + \
        (['sequence of effects'] if tr and not trunk else [])
    never = [n for n in todo if good.get(n, 0) < 5]
    if never:
        R_ = Result('undecided', 'never evaluated: ' + '; '.join('%s (%s)' % (x[:60], max([(v, k[1]) for k, v in bad_.items() if k[0] == x] or [(0, '')])[1]) for x in never[:4]))
    elif ok >= 20:
        R_ = Result('equal' if not unkC and not trunk and mok else 'undecided', 'random interpretation (%d)' % ok if not unkC else 'constructs not modelled')
    else:
        R_ = Result('undecided', 'no usable interpretation (%d invalid)' % inval)
    R_.bad = bad_
    R_.branches, R_.missed = len(targets), len(miss)
    R_.miss = [(nodes[i], b) for i, b in miss[:2000]]
    if miss:
        R_.why += ', %d of %d outcomes of decisions not reached' % (len(miss), len(targets))
    return R_


BUDGET = 12
DBG = False


def sdiffer(E, x, y):
    """aggregates are compared component by component"""
    if isinstance(x, tuple) and isinstance(y, tuple) and (x[:1] in (('o',), ('q',)) or y[:1] in (('o',), ('q',))):
        keys = set()
        for v in (x, y):
            b = v
            while isinstance(b, tuple) and b[0] in ('o', 'q'):
                if b[0] == 'o':
                    keys.update(c for c, _ in b[2])
                else:
                    n = 0 if b[1] == '' else E.size(b[1])
                    keys.update(('i', n + j) for j in range(len(b[2])))
                b = b[1]
        def base(v):
            while isinstance(v, tuple) and v[0] in ('o', 'q'):
                v = v[1]
            return v
        bx, by = base(x), base(y)
        eta = False
        if rint.rnd(bx) != rint.rnd(by):
            # an object written out in full, and the same object as a whole
            if (bx == '') == (by == '') or not keys:
                return True
            t, o = (by, x) if bx == '' else (bx, y)
            if t[:1] != ('t',):
                return True
            eta = True
        if not eta and (x[0] == 'q' or y[0] == 'q'):
            if E.size(x) != E.size(y):
                return True
        for c in keys:
            if c == ('f', '#size'):
                continue
            if sdiffer(E, E.sel(x, c), E.sel(y, c)):
                p, q = E.sel(x, c), E.sel(y, c)
                # a token used as a number on one side only
                if rint.fnum(p) != rint.fnum(q):
                    if not rint.differ(E.num(p), E.num(q)):
                        continue
                return True
        return False
    if rint.fnum(x) != rint.fnum(y):
        try:
            return rint.differ(E.num(x), E.num(y)) and rint.differ(E.num(x, True), E.num(y, True)) and \
                rint.differ(E.num(x, True, True), E.num(y, True, True))
        except rint.Invalid:
            return False
    return rint.differ(x, y)


def num_leaf(v):
    return any(l.tag == 'poly' or l.isint for l in leaves(v))


def initial(S, other, key):
    it = S.interp
    o = other.interp
    if key[0] == 'D':
        root = ('D', NODES[key[1]])
    else:
        root = key
    it.fr = interp.Frame(S.fn, S.fn['_src'], S.fn['_T'])
    if root in o.rootinit:
        return o.rootinit[root]
    return it.root_init(root)


def same_trace(a, b):
    return len(a) == len(b) and all(p[0] is q[0] and p[1] is q[1] for p, q in zip(a, b))


def compare(db, cand, ref, opaque=(), inline=(), pure_opaque=(), secs=60, seed=1, skip=(), limit=60, unroll=16):
    TM.reset()
    rint._passes.clear()
    kw = dict(opaque=opaque, pure_opaque=pure_opaque, limit=limit, unroll=unroll)
    R = summ(db, ref, secs, inline=inline, **kw)
    if R.error or R.taint:
        r = Result('undecided', 'reference: ' + (R.error or R.taint[0]))
        r.C = r.R = R
        return r
    C = summ(db, cand, secs, inline=inline, **kw)
    if C.error:
        r = Result('undecided', C.error)
        r.C, r.R = C, R
        return r
    r = compare_summaries(C, R, seed=seed, skip=skip)
    if r.status != 'equal':
        # a helper may have been dissolved into its caller: look through the
        # operations that occur on one side only, and then deeper altogether
        co, ro = C.interp.opaque_used, R.interp.opaque_used
        one = set(q for q in set(co) ^ set(ro) if q in db.byq and any('body' in f for f in db.byq[q]))
        one -= set(opaque)
        attempts = []
        if one:
            attempts.append((tuple(inline) + tuple(one), limit))
        attempts.append((tuple(inline) + tuple(one), 4 * limit))
        for inl, lim in attempts:
            kw['limit'] = lim
            R2 = summ(db, ref, secs // 2, inline=inl, **kw)
            if R2.error or R2.taint:
                continue
            C2 = summ(db, cand, secs // 2, inline=inl, **kw)
            if C2.error or C2.taint:
                continue
            r2 = compare_summaries(C2, R2, seed=seed, skip=skip)
            if r2.status == 'equal' or (r.status == 'undecided' and r2.status == 'differ'):
                r = r2
                C, R = C2, R2
                break
    if r.status == 'differ' and C.taint:
        r.status = 'undecided'
        r.why += ' (not modelled: %s)' % C.taint[0]
    r.C, r.R = C, R
    return r
