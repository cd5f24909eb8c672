"""check.py PROPERTY [quick|thorough]: decide one property from the source."""
import importlib
import json
import os
import pkgutil
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
import spec as SP
import compare as CMP

RULES = {}


def rule(prop):
    def deco(f):
        RULES.setdefault(prop, []).append(f)
        return f
    return deco


class Report:
    """what a structural rule found"""

    def __init__(self, prop):
        self.prop = prop
        self.items = []       # analysed constructs
        self.bad = []         # (construct, why)
        self.und = []

    def ok(self, what):
        self.items.append(what)

    def fail(self, what, why):
        self.items.append(what)
        self.bad.append((what, why))

    def undecided(self, what, why):
        self.und.append((what, why))


def where(fn):
    p = fn['path']
    return '%s:%d %s' % (os.path.relpath(p, facts.REPO) if p.startswith(facts.REPO) else p, fn['line'], fn['n'])


def split(o, k):
    return tuple(x for x in o.opt.get(k, '').split(',') if x)


def run_specs(db, prop, tier, log):
    obs = SP.obligations(db, prop)
    wrong = {}
    for o in obs:
        if 'finding' in o.opt:
            wrong.setdefault(o.q, []).append(o)
    res = []
    for o in obs:
        if 'finding' in o.opt:
            continue
        r = dict(function=o.q, spec=o.at)
        if o.ref is None:
            raise facts.Broken('annotation without function: ' + o.at)
        cs = SP.candidates(db, o)
        if not cs:
            r.update(status='absent')
            if log:
                print('absent', o.q, o.at)
            res.append(r)
            continue
        if len(cs) > 1:
            r.update(status='ambiguous', why='several: ' + str([where(c) for c in cs][:4]))
            if log:
                print(r)
            res.append(r)
            continue
        c = cs[0]
        t = time.time()
        try:
            k = CMP.compare(db, c, o.ref, opaque=split(o, 'opaque'), inline=split(o, 'inline'),
                            skip=split(o, 'skip'), pure_opaque=split(o, 'pure'),
                            unroll=int(o.opt.get('unroll', 16)), limit=int(o.opt.get('limit', 60)), secs=int(o.opt.get('secs', 40)))
            if k.status == 'differ':
                for f in wrong.get(o.q, ()):
                    if c in SP.candidates(db, f):
                        kf = CMP.compare(db, c, f.ref, opaque=split(f, 'opaque'), inline=split(f, 'inline'),
                                         skip=split(f, 'skip'), pure_opaque=split(f, 'pure'), secs=int(f.opt.get('secs', 40)))
                        if kf.status == 'equal':
                            r['finding'] = f.opt['finding']
            r.update(status=k.status, why=k.why, detail=k.detail, construct=where(c),
                     through=sorted(getattr(k.C, 'analysed', ()))[:40])
        except facts.Broken:
            raise
        except Exception as e:
            r.update(status='undecided', why='internal: %s %s' % (type(e).__name__, e), construct=where(c))
            if log:
                print(traceback.format_exc()[-1500:])
        r['secs'] = round(time.time() - t, 2)
        res.append(r)
        if log:
            print('%-10s %-55s %5.2fs %s' % (r['status'], o.q, r['secs'], r.get('why', '')[:200]))
            if r['status'] == 'differ' and log > 1:
                for kk, v in r['detail'].items():
                    print('      ', kk, str(v)[:500])
    return res


def known_findings():
    out = []
    p = os.path.join(facts.VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                d = l[len('finding: '):]
                m = d.split(' ', 2)
                if len(m) == 3 and m[0].startswith('property='):
                    out.append((m[0][9:], m[1], m[2]))
    return out


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    log = int(os.environ.get('VERIF_LOG', '0'))
    t0 = time.time()
    import rules
    for m in pkgutil.iter_modules(rules.__path__):
        importlib.import_module('rules.' + m.name)
    db = facts.db(prop=prop) if not log else facts.db()
    t1 = time.time()
    res = run_specs(db, prop, tier, log)
    rep = Report(prop)
    for f in RULES.get(prop, []):
        n0, b0 = len(rep.items), len(rep.bad)
        f(db, rep)
        if log:
            print('rule %s: %d obligations, %d violated' % (f.__name__, len(rep.items) - n0, len(rep.bad) - b0))
            for w, y in rep.bad[b0:]:
                print('   BAD', w, '--', y)
            for w, y in rep.und:
                print('   und', w, '--', y)
    viol = []
    for r in res:
        if r['status'] == 'differ':
            viol.append((r['construct'], '%s differs from the specification %s in: %s' %
                         (r['function'], r['spec'], r['why']), r))
    for w, y in rep.bad:
        viol.append((w, y, {}))
    known = []
    rest = []
    for w, y, d in viol:
        k = [x for x in known_findings() if x[0] == prop and d.get('finding') and x[1] == d['finding']]
        if k:
            y = k[0][2]
        (known if k else rest).append((w, y, d))
    decided = sum(1 for r in res if r['status'] in ('equal', 'differ'))
    und = [dict(function=r['function'], spec=r['spec'], why=r.get('why', r['status'])) for r in res
           if r['status'] not in ('equal', 'differ')]
    und += [dict(function=w, why=y) for w, y in rep.und]
    total = len(res) + len(rep.items)
    if total == 0:
        raise facts.Broken('no obligations for ' + prop)
    if decided + len(rep.items) == 0 or (len(res) and decided * 2 < len(res)):
        raise facts.Broken('most of the code the property is about cannot be found or analysed: ' + str(und[:5]))
    evd = os.path.join(facts.VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    funcs = sorted(set(r['construct'] for r in res if 'construct' in r))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='proof' if False else 'other',
              coverage=dict(
                  explanation='Obligations decided from the syntax trees of the current sources: for each function '
                  'listed, equality of its value-number normal form with that of its reference specification '
                  '(residual differences judged by random interpretation of the value numbers); plus structural '
                  'rules over all sites listed.',
                  obligations=total, specification_obligations=len(res), decided=decided,
                  rule_obligations=len(rep.items), undecided=len(und),
                  units_parsed=len(db.units), functions_known=len(db.fn),
                  functions_compared=funcs, rules_sites=rep.items[:400], undecided_list=und[:60],
                  violations_list=[dict(construct=w, why=y) for w, y, _ in rest]),
              wall_s=round(time.time() - t0, 2),
              violations=len(rest),
              assumptions=['reals instead of floating-point rounding in arithmetic identities',
                           'unmodelled library calls are functions of their arguments'])
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for w, y, d in known:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, w, y))
    print('%s %s: %d obligations (%d specification, %d rule sites), %d undecided, %d violated; parse %.1fs, total %.1fs' % (
        prop, tier, total, len(res), len(rep.items), len(und), len(rest), t1 - t0, time.time() - t0))
    if rest:
        rp = os.path.join(evd, prop + '.replay.txt')
        with open(rp, 'w') as f:
            for w, y, d in rest:
                f.write('%s\n  %s\n' % (w, y))
                for k, v in (d.get('detail') or {}).items():
                    f.write('    %s: %s\n' % (k, v))
        for w, y, d in rest[:10]:
            print('  %s: %s' % (w, y))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    sys.setrecursionlimit(100000)
    import threading
    threading.stack_size(512 << 20)
    rc = [2]

    def go():
        try:
            rc[0] = main(sys.argv[1:])
        except facts.Broken as e:
            print('BROKEN:', e)
            rc[0] = 2
        except BaseException:
            print(traceback.format_exc()[-1500:])
            rc[0] = 2
    # signals (time limits) are delivered to the main thread only
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception:
        pass
    go()
    sys.exit(rc[0])
