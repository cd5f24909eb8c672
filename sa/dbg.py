"""developer aid: print the summary of functions: dbg.py [-s] QUALNAME..."""
import sys, time, signal
class TO(Exception): pass
def _al(*a):
    raise TO('timeout')
signal.signal(signal.SIGALRM,_al)
import facts, interp
from terms import *

def run(db, q, n=None, **k):
    for f in db.find(q, n)[:3]:
        t = time.time()
        S = interp.summarise(db, f, **k)
        print('==', f['n'], f['path'], f['line'], 'err', S.error, 'taint', S.taint[:5], '%.2fs' % (time.time() - t))
        print('  ret', S.ret)
        for c, v in S.cells.items():
            print('  cell', c, v)
        for g, t_ in S.trace:
            print('  ev', g, t_)

if __name__ == '__main__':
    if sys.argv[1] == '-s':
        db = facts.db()
        import collections, traceback
        cnt = collections.Counter()
        pat = sys.argv[2] if len(sys.argv) > 2 else ''
        for m, f in sorted(db.fn.items(), key=lambda x: (x[1]['path'], x[1]['line'])):
            if 'body' not in f or pat not in f['path'] or f.get('defaulted'):
                continue
            t = time.time()
            signal.alarm(12)
            try:
                S = interp.summarise(db, f)
                st = 'ERR ' + S.error[:60] if S.error else ('TAINT ' + ' | '.join(sorted(set(S.taint))[:3]) if S.taint else 'ok')
            except Exception as ex:
                st = 'EXC %s: %s @%s' % (type(ex).__name__, str(ex)[:80], traceback.extract_tb(ex.__traceback__)[-1].lineno)
            signal.alarm(0)
            cnt[st.split()[0]] += 1
            dt = time.time() - t
            if st != 'ok' or dt > 5:
                print(f['path'].replace('/repo/src/', ''), f['line'], f['q'], st, '%.1fs' % dt if dt > 1 else '')
            sys.stdout.flush()
        print(cnt)
    else:
        db = facts.db()
        for a in sys.argv[1:]:
            run(db, a)
