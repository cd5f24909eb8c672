"""Obligations given by reference functions in /verif/spec/*.cc.

A line  //@ <property> <qualified name> [key=value ...]  in front of a function
of namespace spec says: the named function of the library denotes the same
mathematical function as the one that follows.  Keys:
  n=<k>       number of parameters
  sig=<a,b>   substrings of the parameter types, in order
  const=0|1   the const / non-const overload
  ret=<s>     substring of the return type
  inst=<s>    substring of the name of the template instance
  inline=a,b  operations to look through (on both sides)
  opaque=a,b  operations not to look through
  skip=a,b    outputs not compared (substring of the output's name)
  unroll=<k>
  finding=<name>  the function describes a known wrong behaviour: when the function
              differs from its specification but equals this one, the finding listed
              under that name in known-findings.txt is what fails, and nothing else
  fresh       the object itself (`this`) does not matter beforehand
"""
import os
import re

import facts

LINE = re.compile(r'^//@ (\w+) (.*)$')
KEYS = ('n', 'sig', 'const', 'inst', 'inline', 'opaque', 'skip', 'limit', 'secs', 'file', 'pure', 'lambda', 'unroll', 'finding', 'ret')


class Obl:
    pass


def parse(path, db):
    """annotations of one file, with the spec functions they refer to"""
    out = []
    fns = sorted([f for f in db.fn.values() if f['path'] == path and 'body' in f and f['q'].startswith('spec::')],
                 key=lambda f: f['line'])
    for no, line in enumerate(open(path), 1):
        m = LINE.match(line.strip())
        if not m:
            continue
        parts = m.group(2).split()
        o = Obl()
        o.prop = m.group(1)
        name = []
        o.opt = {}
        if parts and parts[0].count('<') > parts[0].count('>'):
            pass
        for p in parts:
            k, eq, v = p.partition('=')
            if eq and k in KEYS:
                o.opt[k] = v
            else:
                name.append(p)
        o.q = ' '.join(name)
        o.at = '%s:%d' % (os.path.relpath(path, facts.VERIF), no)
        o.ref = None
        for f in fns:
            if f['line'] > no:
                o.ref = f
                break
        out.append(o)
    return out


def obligations(db, prop=None):
    d = os.path.join(facts.VERIF, 'spec')
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith('.cc'):
            p = os.path.join(d, f)
            if prop and ('//@ %s ' % prop) not in open(p).read():
                continue
            out += [o for o in parse(p, db) if prop is None or o.prop == prop]
    return out


def tname(fn, p):
    return fn['_T'][p['t']]['n'].replace('const ', '')


def candidates(db, o):
    fs = [f for f in db.byq.get(o.q, []) if 'body' in f]
    if 'n' in o.opt:
        fs = [f for f in fs if len(f['params']) == int(o.opt['n'])]
    if 'const' in o.opt:
        fs = [f for f in fs if bool(f.get('const')) == (o.opt['const'] == '1')]
    if 'inst' in o.opt:
        fs = [f for f in fs if o.opt['inst'] in f['n']]
    if 'ret' in o.opt:
        fs = [f for f in fs if o.opt['ret'] in f['_T'][f['rt']]['n']]
    if 'sig' in o.opt:
        want = o.opt['sig'].split(',')
        fs = [f for f in fs if len(f['params']) == len(want) and
              all(w in tname(f, p) for w, p in zip(want, f['params']))]
    if 'file' in o.opt:
        fs = [f for f in fs if o.opt['file'] in f['path']]
    if len(fs) > 1:
        np = len([p for p in o.ref['params'] if p['n'] != 'self'])
        g = [f for f in fs if len(f['params']) == np]
        fs = g or fs
    if len(fs) > 1:
        rp = [p for p in o.ref['params'] if p['n'] != 'self']
        g = [f for f in fs if [tname(f, p) for p in f['params']] == [tname(o.ref, p) for p in rp]]
        fs = g or fs
    if len(fs) > 1:
        # the same definition seen through several units
        seen = {}
        for f in fs:
            seen.setdefault((f['path'], f['line'], f['n']), f)
        fs = list(seen.values())
    return fs
