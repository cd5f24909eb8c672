import sys, cProfile, pstats
sys.path.insert(0, '/verif/sa'); sys.setrecursionlimit(100000)
import facts, spec, compare, check
d = facts.db()
def go():
    for o in spec.obligations(d, sys.argv[1]):
        if o.at.endswith(':' + sys.argv[2]):
            c = spec.candidates(d, o)[0]
            r = compare.compare(d, c, o.ref, opaque=check.split(o, 'opaque'), inline=check.split(o, 'inline'), skip=check.split(o, 'skip'), pure_opaque=check.split(o,'pure'), secs=int(sys.argv[3]) if len(sys.argv) > 3 else 40)
            print(r.status, r.why)
cProfile.run('go()', '/tmp/prof')
pstats.Stats('/tmp/prof').sort_stats('cumtime').print_stats(35)
