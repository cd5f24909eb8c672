"""development: mut.py PROP [N] [seed] [func-substring]: random small changes to the functions of a property's
obligations, each compared in a forked child; prints the changes that no obligation reports"""
import os, re, sys, random, json, subprocess, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sa')
sys.setrecursionlimit(100000)
import facts, check, spec as SP, compare as CMP
prop = sys.argv[1]
MUT = None
if '-x' in sys.argv:
    i = sys.argv.index('-x')
    MUT = sys.argv[i + 1:i + 4]
    del sys.argv[i:]
N = int(sys.argv[2]) if len(sys.argv) > 2 else 40
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
only = sys.argv[4] if len(sys.argv) > 4 else ''
db = facts.db()
obs = [(o, SP.candidates(db, o)) for o in SP.obligations(db, prop)]
obs = [(o, c[0]) for o, c in obs if len(c) == 1]
OPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<-])<(?![<=a-zA-Z])', '<='), (r'(?<= )<(?= )', '>'), (r'(?<![->])>(?![>=(])(?= )', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'),
       (r'\|\|', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r'\+=', '-='), (r'-=', '+='),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1)),
       (r'(?<![\w.])(\d+\.\d*)(?!\w)', lambda m: str(float(m.group(1)) * 1.5 + 0.1)), (r'!(?=[a-z(])', ''), (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'),
       (r'std::max\b', 'std::min'), (r'std::min\b', 'std::max'), (r'\bcos\b', 'sin'), (r'\bsin\b', 'cos'), (r'x1\(\)', 'x2()'), (r'x2\(\)', 'x3()'), (r'x3\(\)', 'x1()'),
       (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'incoming', 'outgoing'), (r'outgoing', 'incoming'), (r'std::abs', ''), (r'\.second', '.first'), (r'\.first', '.second'),
       (r'position\(\)', 'momentum()'), (r'\breturn ([^;]+);', r'return 2 * (\1);'), (r'^(\s*)(?!return|const|auto|double|int|else|if|for|case|throw|static|break|continue)([a-zA-Z_:][^;{}]*;)$', r'\1;')]


def body_range(fn):
    try:
        L = open(fn['path']).read().split('\n')
    except OSError:
        return None
    i = fn['line'] - 1
    depth = 0
    seen = False
    for j in range(i, min(len(L), i + 600)):
        for ch in re.sub(r'"(\\.|[^"\\])*"|\'.\'|//.*', '', L[j]):
            if ch == '{':
                depth += 1
                seen = True
            elif ch == '}':
                depth -= 1
            elif ch == ';' and not seen and depth == 0:
                return None
        if seen and depth == 0:
            return i, j, L
    return None


cands = []
fns = {}
for o, c in obs:
    fns.setdefault((c['path'], c['line']), c)
    for q in ():
        pass
for (p, l), c in sorted(fns.items()):
    if only and only not in c['q'] or not p.startswith(facts.REPO):
        continue
    r = body_range(c)
    if not r:
        continue
    i, j, L = r
    for k in range(i, j + 1):
        t = L[k]
        if re.search(r'logg\[|assert|throw|^\s*(//|\*|/\*)|#', t) or '"' in t:
            continue
        if k == i and '{' not in t:
            continue
        s = t.split('//')[0]
        for op, (rx, rep) in enumerate(OPS):
            for m in re.finditer(rx, s):
                if rx.startswith(r'\breturn') and c['_T'][c['rt']]['n'] == 'bool':
                    continue
                if k == i and m.start() < s.find('{'):
                    continue
                new = s[:m.start()] + m.expand(rep if isinstance(rep, str) else rep(m)) + s[m.end():]
                if new != s:
                    cands.append((c, k, t, new))
rnd = random.Random(seed)
rnd.shuffle(cands)
print(len(cands), 'possible;', 'trying', min(N, len(cands)))
cands = cands[:N]
if MUT:
    c = [c for c in fns.values() if MUT[0] in c['q']][0]
    i, j, L = body_range(c)
    cands = [(c, k, L[k], L[k].replace(MUT[1], MUT[2])) for k in range(i, j + 1) if MUT[1] in L[k]]
exe = facts.tool_path()
D = tempfile.mkdtemp(prefix='mut')


def one(idx, c, k, old, new):
    d = '%s/%d' % (D, idx)
    src = c['path']
    L = open(src).read().split('\n')
    L[k] = new
    hdr = src.endswith('.h')
    if hdr:
        os.makedirs(d + '/inc/smash')
        f = d + '/inc/smash/' + os.path.basename(src)
        hd = os.path.join(facts.REPO, 'src/include/smash')
        for x in os.listdir(hd):
            if x != os.path.basename(src):
                os.symlink(os.path.join(hd, x), d + '/inc/smash/' + x)
    else:
        os.makedirs(d)
        f = d + '/' + os.path.basename(src)
    with open(f, 'w') as o:
        o.write('\n'.join(L))
    if hdr:
        main = d + '/m.cc'
        with open(main, 'w') as o:
            sp = [oo for oo, cc in obs if cc is c][0].at.split(':')[0]
            if c['_src'].endswith('.cc') and c['_src'].startswith(facts.REPO):
                o.write(open(c['_src']).read())
            else:
                o.write('#include "smash/%s"\n' % os.path.basename(src) + open(os.path.join(V, sp)).read())
        cmd = [exe, d + '/out.json', d, main, 'all', '-I' + d + '/inc'] + facts.flags()
    else:
        import glob
        pch = max(glob.glob(facts.BUILD + '/pch-*.pch'), key=os.path.getmtime)
        use = not re.search(r'(collidermodus|library|stringprocess)\.cc$', src)
        cmd = [exe, d + '/out.json', d, f, 'pch' if use else 'main'] + facts.flags()
        if use:
            cmd += ['-fpch-instantiate-templates', '-include-pch', pch]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if 'error:' in r.stderr or not os.path.exists(d + '/out.json'):
        return 'nocompile'
    j = json.load(open(d + '/out.json'))
    n = 0
    found = 0
    for fn in j['functions']:
        ol = None
        for g in db.byq.get(fn['q'], []):
            if g['m'] == fn['m'] and 'body' in g and 'body' in fn and (hdr or g['_src'] == src):
                ol = g
        if ol is None:
            continue
        keep = (ol['_src'], ol['path'])
        found += ol is c
        ol.clear()
        ol.update(fn)
        ol['_T'], ol['_F'] = j['types'], j['files']
        ol['_src'], ol['path'] = keep
        n += 1
    if not found:
        return 'notfound'
    own = [(o, x) for o, x in obs if x.get('line') == c.get('line') and x['path'] == c['path']]
    rest = [(o, x) for o, x in obs if (o, x) not in own]
    st = []
    for o, x in own + rest:
        if (o, x) in rest and time.time() - T0[0] > 60:
            break
        try:
            kk = CMP.compare(db, x, o.ref, opaque=check.split(o, 'opaque'), inline=check.split(o, 'inline'),
                             skip=check.split(o, 'skip'), pure_opaque=check.split(o, 'pure'), unroll=int(o.opt.get('unroll', 16)), limit=int(o.opt.get('limit', 60)), secs=int(o.opt.get('secs', 40)))
        except Exception as e:
            st.append('exc %s' % e)
            continue
        if kk.status == 'differ':
            return 'killed'
        if kk.status != 'equal':
            st.append(kk.status + ' ' + str(kk.why)[:60])
        elif (o, x) in own:
            st.append(str(kk.why) + ''.join('\n      BAD %s: %d' % (' '.join(k)[:120], v) for k, v in sorted(getattr(kk, 'bad', {}).items(), key=lambda x: -x[1])[:3]))
            for nd, b in getattr(kk, 'miss', [])[:5]:
                v = nd.var
                import terms
                st.append('\n      MISS %s %s %s' % (b, v.kind, (terms.show(v.data[0]) + ' ~ ' + (terms.show(v.data[1]) if v.kind == 'eqt' else str(v.data[1])) if isinstance(v.data, tuple) else terms.show(v.data))[:150]))
    return 'SURVIVED ' + '; '.join(st[:8])


T0 = [0]
running = {}
res = {}
i = 0
while i < len(cands) or running:
    while i < len(cands) and len(running) < 7:
        c, k, old, new = cands[i]
        pid = os.fork()
        if pid == 0:
            T0[0] = time.time()
            try:
                s = one(i, c, k, old, new)
            except BaseException as e:
                s = 'error %r' % e
            open('%s/%d.res' % (D, i), 'w').write(s)
            os._exit(0)
        running[pid] = i
        i += 1
    pid, _ = os.wait()
    n = running.pop(pid, None)
    if n is not None:
        try:
            res[n] = open('%s/%d.res' % (D, n)).read()
        except OSError:
            res[n] = 'died'
        subprocess.run(['rm', '-rf', '%s/%d' % (D, n)])
cnt = {}
for n in sorted(res):
    s = res[n].split(' ')[0]
    cnt[s] = cnt.get(s, 0) + 1
    if s not in ('killed', 'nocompile'):
        c, k, old, new = cands[n]
        print('%s %s:%d %s\n   - %s\n   + %s' % (res[n][:900], os.path.basename(c['path']), k + 1, c['q'].replace('smash::', ''), old.strip(), new.strip()))
print(prop, cnt)
subprocess.run(['rm', '-rf', D])
