"""Whole-program effect inference: which functions are pure (value of the result
depends on the arguments only, nothing reachable from outside is written), how
large they are, and whether they loop."""
from interp_re import IMPURE_STD

CACHES = __import__('re').compile(r'einhard|Root|Interpolate|Tabulation|unordered_map|Integrator|Clebsch')
ACCESS = __import__('re').compile(r'::(operator\[\]|operator\*|operator->|begin|end|at|front|back|get|data|find)$')
LOOPS = ('for', 'rfor', 'while', 'do')


def walk(n):
    """all dict nodes below n (n included)"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            for k, v in x.items():
                if k[0] != '_' and isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            st.extend(x)


def fn_nodes(fn):
    for part in ('inits', 'body'):
        if fn.get(part) is not None:
            yield from walk(fn[part])


def size(fn):
    s = fn.get('_size')
    if s is None:
        n = 0
        loop = False
        fn['_branch'] = False
        for x in fn_nodes(fn):
            if 'k' in x and isinstance(x['k'], str):
                if x['k'] in ('cast',):
                    continue
                n += 1
                if x['k'] == 'cond':
                    fn['_branch'] = True
            elif 's' in x and isinstance(x['s'], str):
                n += 1
                if x['s'] in LOOPS:
                    loop = True
                elif x['s'] in ('if', 'switch', 'try'):
                    fn['_branch'] = True
        s = fn['_size'] = (n, loop)
    return s


def base_of(e):
    """the variable / member at the root of an lvalue expression"""
    while True:
        k = e['k']
        if k == 'mem':
            if e.get('arrow'):
                return ('ptr', e['b'])
            e = e['b']
        elif k == 'sub':
            e = e['a'][0]
        elif k == 'cast':
            e = e['e']
        elif k == 'un' and e['op'] == '*':
            return ('ptr', e['e'])
        elif k in ('asg', 'casg'):
            e = e['a'][0]
        elif k == 'un' and e['op'] in ('++', '--'):
            e = e['e']
        elif k == 'mcall' and not e.get('arrow'):
            e = e['o']
        elif k == 'opcall' and e['a']:
            e = e['a'][0]
        elif k == 'cond':
            e = e['a'][1]
        else:
            return (k, e)


def direct(db, fn):
    """(has a direct external effect, callee mangled names)"""
    eff = False
    callees = set()
    src = fn['_src']
    for x in fn_nodes(fn):
        k = x.get('k')
        if not isinstance(k, str):
            continue
        tgts = []
        if k in ('asg', 'casg'):
            tgts.append(x['a'][0])
        elif k == 'un' and x['op'] in ('++', '--'):
            tgts.append(x['e'])
        if k in ('call', 'mcall', 'opcall', 'ctor') and x.get('f'):
            f = x['f']
            q = f['q']
            if q.startswith('einhard::') or '::einhard' in q:
                continue
            pm = f.get('pm', '')
            args = x.get('a', [])
            if k == 'opcall' and f.get('rec') and not f.get('st'):
                if not f.get('const') and not ACCESS.search(q):
                    tgts.append(args[0])
                args = args[1:]
            elif k == 'mcall' and not f.get('const') and not ACCESS.search(q):
                if x.get('arrow'):
                    o = x['o']
                    if o['k'] == 'mcall' or o['k'] == 'opcall':
                        tgts.append(o['o'] if o['k'] == 'mcall' else o['a'][0])
                else:
                    tgts.append(x['o'])
            for i, a in enumerate(args):
                if i < len(pm) and pm[i] == 'm':
                    tgts.append(a)
            if not f.get('virt') or x.get('qual'):
                callees.add(f['m'])
            if IMPURE_STD.match(q):
                eff = True
        if k == 'delete':
            eff = True
        for t in tgts:
            kind, b = base_of(t)
            if kind == 'ptr':
                kind, b = base_of(b)
            if kind == 'glob':
                g = db.glob.get(b['m'])
                if g is None:
                    eff = True
                elif not g.get('const') and 'logg' not in g['q'] and 'root_eq' not in g['q'] and not CACHES.search(g['_T'][g['t']]['n']):
                    eff = True
    return eff, callees


def effectful(db):
    """mangled names of functions that may have an external effect: drawing
    random numbers, touching global state, input/output, process control"""
    r = getattr(db, '_eff', None)
    if r is not None:
        return r
    info = {}
    for m, fn in db.fn.items():
        if 'body' in fn:
            info[m] = direct(db, fn)
    rev = {}
    work = []
    for m, (e, cs) in info.items():
        src = db.fn[m]['_src']
        for c in cs:
            c2 = c + '@' + src if c + '@' + src in info else c
            rev.setdefault(c2, set()).add(m)
        if e:
            work.append(m)
    out = set(work)
    while work:
        m = work.pop()
        for c in rev.get(m, ()):
            if c not in out:
                out.add(c)
                work.append(c)
    db._eff = out
    return out


def pure(db, fn):
    """result depends on the arguments only and nothing else is written"""
    p = fn.get('_pure')
    if p is None:
        T = fn['_T']
        p = True
        if fn['m'] in effectful(db) or fn['m'] + '@' + fn['_src'] in effectful(db):
            p = False
        elif fn.get('method') and not fn.get('const') and not fn.get('static') and not fn.get('ctor'):
            p = False
        elif not fn.get('const') and 'body' not in fn:
            p = False
        fn['_pure'] = p
    return p
