"""development: smallest differing subterms"""
import terms
from terms import T, D, NODES
def kids(n):
    if isinstance(n, D): return [('var', n.var.kind), n.var.data, n.hi, n.lo]
    if isinstance(n, tuple): return list(n)
    if n.tag == 'poly': return [tuple((tuple((NODES[a], e) for a, e in m), c) for m, c in n.args[0])]
    return [n.tag] + list(n.args)
def tdiff(a, b, path='', out=None, lim=6, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if a is b or a == b or len(out) >= lim: return out
    k = (id(a), id(b))
    if k in seen: return out
    seen.add(k)
    ok = type(a) == type(b) and isinstance(a, (T, D, tuple))
    if ok:
        x, y = kids(a), kids(b)
        ok = len(x) == len(y) and (not isinstance(a, T) or a.tag == b.tag) and not (isinstance(a, T) and a.tag == 'poly' and len(x[0]) != len(y[0]))
    if not ok:
        out.append((path, a, b)); return out
    for i, (p, q) in enumerate(zip(x, y)):
        tdiff(p, q, path + '/%s%d' % ((a.tag + (':' + a.args[0] if a.tag == 'app' else '')) if isinstance(a, T) else 'D' if isinstance(a, D) else '', i), out, lim, seen)
    return out
