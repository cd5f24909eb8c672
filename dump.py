"""development: print both value graphs of one obligation: dump.py PROP LINE [width]"""
import sys
sys.path.insert(0, '/verif/sa'); sys.setrecursionlimit(100000)
import facts, spec, compare, check, terms
d = facts.db()
W = int(sys.argv[3]) if len(sys.argv) > 3 else 700
for o in spec.obligations(d, sys.argv[1]):
    if o.at.endswith(':' + sys.argv[2]):
        c = spec.candidates(d, o)[0]
        r = compare.compare(d, c, o.ref, opaque=check.split(o, 'opaque'), inline=check.split(o, 'inline'), skip=check.split(o, 'skip'), pure_opaque=check.split(o,'pure'))
        print(r.status, r.why)
        co, ro = compare.outputs(r.C), compare.outputs(r.R)
        for k in list(co) + [k for k in ro if k not in co]:
            a, b = co.get(k), ro.get(k)
            print('==', k, 'SAME' if str(a) == str(b) else '')
            print('  C', str(a)[:W]); print('  R', str(b)[:W])
        if len(sys.argv) > 4:
            import rint
            vs = []
            for x in list(co.values()) + list(ro.values()):
                x = x[1] if isinstance(x, tuple) else x
                if isinstance(x, (terms.T, terms.D)): vs.append(x)
            pool, lits, forced = rint.gather(vs)
            for i in range(int(sys.argv[4])):
                E = rint.Env('1:%d' % i, i % 4, pool, lits); E.force(forced)
                for k in co:
                    a, b = co[k], ro.get(k)
                    if isinstance(a, tuple): a, b = a[1], b[1]
                    if not isinstance(a, (terms.T, terms.D)): continue
                    try: print(i, k, str(E.ev(a))[:W], '|||', str(E.ev(b))[:W])
                    except rint.Invalid as e: print(i, 'invalid', e)
        from tdiff import tdiff
        for k in co:
            a, b = co[k], ro.get(k)
            if isinstance(a, tuple): a, b = a[1], b[1] if b else None
            for p, x, y in tdiff(a, b):
                print('DIFF', p[-150:]); print('   ', str(x)[:W]); print('   ', str(y)[:W])
