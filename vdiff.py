"""development: first differing component of two evaluated values: vdiff.py PROP LINE"""
import sys
sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(100000)
import facts, spec, compare, check, rint, terms
d=facts.db()
def walk(E,x,y,p,out):
    if len(out)>6: return
    if isinstance(x,tuple) and isinstance(y,tuple) and (x[:1] in (('o',),('q',)) or y[:1] in (('o',),('q',))):
        keys=set()
        for v in (x,y):
            b=v
            while isinstance(b,tuple) and b[0] in('o','q'):
                if b[0]=='o': keys.update(c for c,_ in b[2])
                else:
                    n=0 if b[1]=='' else E.size(b[1]); keys.update(('i',n+j) for j in range(len(b[2])))
                b=b[1]
        for c in sorted(keys,key=repr):
            if compare.sdiffer(E,E.sel(x,c),E.sel(y,c)): walk(E,E.sel(x,c),E.sel(y,c),p+[c],out)
        return
    if compare.sdiffer(E,x,y): out.append((p,x,y))
for o in spec.obligations(d,sys.argv[1]):
    if not o.at.endswith(':'+sys.argv[2]): continue
    c=spec.candidates(d,o)[0]
    r=compare.compare(d,c,o.ref,opaque=check.split(o,'opaque'),inline=check.split(o,'inline'),skip=check.split(o,'skip'),pure_opaque=check.split(o,'pure'))
    print(r.status,r.why)
    co,ro=compare.outputs(r.C),compare.outputs(r.R)
    vs=[]
    for v in list(co.values())+list(ro.values()):
        v=v[1] if isinstance(v,tuple) else v
        if isinstance(v,(terms.T,terms.D)): vs.append(v)
    pool,lits,forced=rint.gather(vs)
    n=0
    for i in range(200):
        E=rint.Env('1:%d'%i,i%4,pool,lits); E.force(forced)
        for k in co:
            a,b=co[k],ro.get(k)
            if isinstance(a,tuple): a,b=a[1],b[1] if b else None
            if not isinstance(a,(terms.T,terms.D)): continue
            try: x,y=E.ev(a),E.ev(b)
            except rint.Invalid: continue
            if compare.sdiffer(E,x,y):
                out=[]; walk(E,x,y,[],out); n+=1
                print(i,k); 
                for p,x1,y1 in out: print('   ',p,str(x1)[:150],"|||",str(y1)[:150])
            if compare.sdiffer(E,x,y) and len(sys.argv)>3:
                seen=set(); st=[a,b]
                while st:
                    z=st.pop()
                    if isinstance(z,tuple): st.extend(z); continue
                    if not isinstance(z,(terms.T,terms.D)) or z.id in seen: continue
                    seen.add(z.id)
                    if isinstance(z,terms.D):
                        st+= [z.hi,z.lo]
                        if z.var.kind not in('lt','eq','eqt'): st.append(z.var.data)
                        if not z.var.data.fv if isinstance(z.var.data,terms.T) else False:
                            try: print('       ',str(z.var.data)[:80],E.var(z.var))
                            except Exception as e: pass
                    else: st.extend(q for q in z.args if isinstance(q,(terms.T,terms.D,tuple)))
                sys.exit()
        if n>4: break
