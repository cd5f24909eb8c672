"""development: explain one difference"""
import sys
sys.path.insert(0, '/verif/sa'); sys.setrecursionlimit(100000)
import facts, spec, compare, rint, terms
d = facts.db()
prop, line = sys.argv[1], sys.argv[2]
for o in spec.obligations(d, prop):
    if o.at.endswith(':' + line):
        c = spec.candidates(d, o)[0]
        import check
        r = compare.compare(d, c, o.ref, opaque=check.split(o, 'opaque'), inline=check.split(o, 'inline'), skip=check.split(o, 'skip'))
        print(r.status, r.why)
        W = int(sys.argv[3]) if len(sys.argv) > 3 else 1500
        for k, v in r.detail.items():
            print(k, str(v)[:W])
        if r.status == 'differ' and 'trial' in r.detail:
            co, ro = compare.outputs(r.C), compare.outputs(r.R)
            i = int(r.detail['trial'])
            vs = []
            for x in list(co.values()) + list(ro.values()):
                x = x[1] if isinstance(x, tuple) else x
                if isinstance(x, (terms.T, terms.D)):
                    vs.append(x)
            syms = {}
            st = list(vs); seen = set()
            while st:
                n = st.pop()
                if isinstance(n, tuple): st.extend(n); continue
                if not isinstance(n, (terms.T, terms.D)) or n.id in seen: continue
                seen.add(n.id)
                if isinstance(n, terms.D):
                    dd = n.var.data
                    st.extend([n.hi, n.lo]); st.extend(dd if isinstance(dd, tuple) else (dd,))
                elif n.tag == 'poly':
                    for m, _ in n.args[0]:
                        st.extend(terms.NODES[a] for a, e in m)
                else:
                    st.extend(n.args)
                if isinstance(n, terms.T) and n.tag in ('sym', 'sel') and not n.fv: syms[terms.show(n)[:80]] = n
            pool, lits, forced = r.__dict__.get('g') or rint.gather(vs + [r.C.pc, r.R.pc])
            E = rint.Env('1:%d' % i, i % 4, pool, lits); E.force(forced)
            for k, n in sorted(syms.items())[:40]:
                try: print('   ', k, str(E.ev(n))[:60], E.evn(n))
                except Exception as e: print('   ', k, 'invalid')
        if '-k' in sys.argv:
            print('C', [k[:W] for k in co]); print('R', [k[:W] for k in ro])
