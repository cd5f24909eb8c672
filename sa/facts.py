"""Build the extractor, parse /repo's current sources, load the facts."""
import hashlib, json, os, subprocess, sys, fcntl, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANGXX = '/usr/lib/llvm-18/bin/clang++'
RES = '/usr/lib/llvm-18/lib/clang/18'
# not part of the library as it is built here: need external packages
SKIP = re.compile(r'(rootoutput|hepmcinterface|hepmcoutput|rivetoutput|tsc)\.cc$')


class Broken(Exception):
    """The analysis itself could not be carried out."""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def tool_path():
    return os.path.join(BUILD, 'xtract-' + _sha(_read(os.path.join(VERIF, 'xtract', 'xtract.cc'))))


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'xtract', 'xtract.cc')
    exe = tool_path()
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        cmd = [CLANGXX, '-std=c++17', '-O0', '-fno-rtti', '-w',
               '-I/usr/lib/llvm-18/include', src, '-o', exe + '.tmp',
               '-L/usr/lib/x86_64-linux-gnu', '-l:libclang-cpp.so.18.1',
               '-l:libLLVM.so.18.1']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Broken('cannot build extractor:\n' + r.stderr[-3000:])
        os.rename(exe + '.tmp', exe)
    return exe


def flags():
    return ['-resource-dir', RES, '-std=c++17', '-DNDEBUG',
            '-DPYTHIA_XML_DIR="x"', '-DLITTLE_ENDIAN_ARCHITECTURE',
            '-DGCC_COMPILER', '-fno-math-errno', '-fno-access-control',
            '-I%s/src/include' % REPO,
            '-I%s/stub' % VERIF,
            '-isystem', '%s/3rdparty/Cuba-4.2.2' % REPO,
            '-isystem', '%s/3rdparty/einhard' % REPO,
            '-isystem', '%s/3rdparty/yaml-cpp-0.8.0/include' % REPO,
            '-isystem', '/usr/include/eigen3', '-w', '-ferror-limit=0']


def _headers():
    d = os.path.join(REPO, 'src/include/smash')
    out = []
    for root, _, fs in os.walk(d):
        for f in fs:
            if f.endswith('.h'):
                out.append(os.path.join(root, f))
    return sorted(out)


# headers which cannot be parsed here (external packages not installed)
HSKIP = re.compile(r'(rootoutput|hepmcinterface|hepmcoutput|rivetoutput|tsc)\.h$')


def sources():
    d = os.path.join(REPO, 'src')
    return sorted(os.path.join(d, f) for f in os.listdir(d)
                  if f.endswith('.cc') and not SKIP.search(f))


def build_pch(pch, allh):
    """all headers, precompiled; the extractor is built at the same time"""
    with ThreadPoolExecutor(2) as ex:
        t = ex.submit(build_tool)
        if not os.path.exists(pch):
            for f in os.listdir(BUILD):
                if f.startswith('pch-'):
                    try:
                        os.unlink(os.path.join(BUILD, f))
                    except OSError:
                        pass
            tmp = pch + '.%d.tmp' % os.getpid()
            r = subprocess.run([CLANGXX] + flags() + ['-fpch-instantiate-templates', '-Xclang', '-fno-pch-timestamp', '-x', 'c++-header',
                                                      allh, '-o', tmp], capture_output=True, text=True)
            if r.returncode == 0:
                os.rename(tmp, pch)
        t.result()


def extract(extra=()):
    """Extract all TUs (cached by content).  Returns list of json paths.

    extra: additional source files (reference specifications)."""
    exe = tool_path()
    hs = _headers()
    stubs = []
    for root, _, fs in os.walk(os.path.join(VERIF, 'stub')):
        stubs += [os.path.join(root, f) for f in fs]
    hh = _sha(os.path.basename(exe), ' '.join(flags()),
              *[x for h in hs + sorted(stubs) for x in (h, _read(h))])
    cache = os.path.join(BUILD, 'facts')
    os.makedirs(cache, exist_ok=True)
    allh = os.path.join(BUILD, 'allheaders.cc')
    text = ''.join('#include "%s"\n' % h for h in hs if not HSKIP.search(h))
    if not os.path.exists(allh) or open(allh).read() != text:
        with open(allh, 'w') as f:
            f.write(text)
    jobs = [(allh, 'all', os.path.join(REPO, 'src'))]
    for s in sources():
        jobs.append((s, 'main', os.path.join(REPO, 'src')))
    for s in extra:
        jobs.append((s, 'main', os.path.join(REPO, 'src') + ',' +
                     os.path.join(VERIF, 'spec')))
    pch = os.path.join(BUILD, 'pch-' + _sha(hh, text) + '.pch')
    outs = []
    todo = []
    for src, mode, root in jobs:
        key = _sha(hh, src, _read(src), mode, root)
        out = os.path.join(cache, os.path.basename(src) + '-' + key + '.json')
        outs.append((src, out))
        if not os.path.exists(out):
            todo.append((os.path.getsize(src), src, mode, root, out))
    # headers that define the same names as these do: no precompiled header
    nopch = re.compile(r'/(collidermodus|library|stringprocess)\.cc$')
    todo.sort(key=lambda j: (j[2] == 'all', bool(nopch.search(j[1])), 'experiment' in j[1], j[0]), reverse=True)
    if todo:
        build_pch(pch, allh)
    build_tool()
    empty = os.path.join(BUILD, 'empty.cc')
    if not os.path.exists(empty):
        open(empty, 'w').close()

    def run(j, plain=False):
        _, src, mode, root, out = j
        tmp = out + '.%d.tmp' % os.getpid()
        usep = os.path.exists(pch) and not nopch.search(src) and not plain
        cmd = [exe, tmp, root, empty if usep and mode == 'all' else src,
               'pch' if usep and mode == 'main' else mode] + flags()
        if usep:
            cmd += ['-fpch-instantiate-templates', '-include-pch', pch]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if not os.path.exists(tmp):
            return src, r.stderr[-2000:]
        with open(out + '.err', 'w') as f:
            f.write(r.stderr)
        if usep and r.returncode:
            return run(j, True)
        os.rename(tmp, out)
        return None
    with ThreadPoolExecutor(8) as ex:
        bad = [b for b in ex.map(run, todo) if b]
    if bad:
        raise Broken('cannot parse %s:\n%s' % bad[0])
    # forget stale cache entries
    keep = set(o for _, o in outs)
    try:
        ents = [os.path.join(cache, f) for f in os.listdir(cache) if f.endswith('.json')]
        stale = [e for e in ents if e not in keep]
        if len(stale) > 400:
            for e in stale:
                os.unlink(e)
                if os.path.exists(e + '.err'):
                    os.unlink(e + '.err')
    except OSError:
        pass
    return outs


class DB:
    def __init__(self):
        self.fn = {}        # mangled -> function
        self.byq = {}       # qualified name -> [function]
        self.rec = {}       # diag name -> record
        self.recq = {}      # qualified -> [record]
        self.enum = {}
        self.glob = {}      # mangled -> global
        self.globq = {}
        self.units = []
        self.errors = {}

    def load(self, outs):
        for src, path in outs:
            with open(path) as f:
                d = json.load(f)
            types, files = d['types'], d['files']
            self.units.append(src)
            if d['errors']:
                self.errors[src] = d['errors']
            for fn in d['functions']:
                m = fn['m']
                if fn.get('internal') or '(anonymous' in fn['n'] or '(anonymous' in fn['q']:
                    m = m + '@' + src if False else m
                if m in self.fn:
                    if m in self.fn and self.fn[m]['_src'] != src and 'body' in fn and 'body' not in self.fn[m]:
                        pass
                    elif fn.get('internal') and self.fn[m]['_src'] != src:
                        # same-named internal function in another unit
                        self.fn[m + '@' + src] = fn
                        fn['_T'] = types
                        fn['_F'] = files
                        fn['_src'] = src
                        fn['path'] = files[fn['file']]
                        self.byq.setdefault(fn['q'], []).append(fn)
                        continue
                    else:
                        continue
                fn['_T'] = types
                fn['_F'] = files
                fn['_src'] = src
                fn['path'] = files[fn['file']]
                self.fn[m] = fn
                self.byq.setdefault(fn['q'], []).append(fn)
            for r in d['records']:
                if r['n'] in self.rec:
                    continue
                r['_T'] = types
                r['path'] = files[r['file']]
                self.rec[r['n']] = r
                self.recq.setdefault(r['q'], []).append(r)
            for e in d['enums']:
                if e['q'] not in self.enum:
                    e['path'] = files[e['file']]
                    self.enum[e['q']] = e
            for g in d['globals']:
                g['_T'] = types
                g['_src'] = src
                g['path'] = files[g['file']]
                key = g['m']
                if key in self.glob and ('init' not in g or self.glob[key]['_src'] == src):
                    continue
                if key in self.glob and 'init' in self.glob[key]:
                    self.glob[key + '@' + src] = g
                    self.globq.setdefault(g['q'], []).append(g)
                    continue
                self.glob[key] = g
                self.globq.setdefault(g['q'], []).append(g)
        return self

    def lookup_fn(self, m, src=None):
        if src is not None:
            f = self.fn.get(m + '@' + src)
            if f is not None:
                return f
        return self.fn.get(m)

    def find(self, q, nparams=None, pred=None):
        r = [f for f in self.byq.get(q, []) if 'body' in f]
        if nparams is not None:
            r = [f for f in r if len(f['params']) == nparams]
        if pred:
            r = [f for f in r if pred(f)]
        return r


_db = None


def db(extra=None, prop=None):
    global _db
    if _db is None:
        if extra is None:
            d = os.path.join(VERIF, 'spec')
            extra = sorted(os.path.join(d, f) for f in os.listdir(d)
                           if f.endswith('.cc')) if os.path.isdir(d) else []
        _db = DB().load(extract(extra))
    return _db


if __name__ == '__main__':
    import time
    t = time.time()
    if sys.argv[1:] == ['setup']:
        build_tool()
        sys.exit(0)
    d = db()
    print('units %d functions %d records %d enums %d globals %d errors %s  %.1fs' % (
        len(d.units), len(d.fn), len(d.rec), len(d.enum), len(d.glob), d.errors, time.time() - t))
