"""Models of the C++ standard library operations used by the code base."""
import re
from terms import *
import terms as TM

NUMLIM = re.compile(r'^std::numeric_limits<(.*)>::(\w+)$')
PURE_FREE = re.compile(
    r'^(std::)?(__)?(isnan|isfinite|isinf|isdigit|isspace|isalpha|isxdigit|toupper|tolower|strcmp|strlen|'
    r'stoi|stol|stod|stof|stoul|stoull|stoll|to_string|atan2|fmod|hypot|copysign|gcd|lcm|ldexp|'
    r'frexp|isprint|ispunct|isalnum|isupper|islower|nextafter|remainder|cyl_bessel_[a-z]+|legendre|assoc_legendre|sph_legendre|beta|'
    r'strtod|strtol|strtoul|memcmp|tgamma|lgamma|make_tuple|tie|distance|size|setw|setprecision|setfill|'
    r'fixed|scientific|hex|dec|left|right|boolalpha|signbit|quoted|lexicographical_compare|'
    r'filesystem::.*|regex_match|regex_search|regex_replace|operator"".*|hash<.*|less<.*|plus<.*)$')


class _M:
    pass


def fpclass(base, v):
    nan = app('isnan', v, boolean=True)
    if base == 'isnan':
        return nan
    inf = app('isinf', v, boolean=True)
    return and_(not_(nan), inf if base == 'isinf' else not_(inf))


def vals(I, args):
    out = []
    for a in args:
        out.append(I.eval(a))
        if I.st is None:
            return None
    return out


def iter_of(I, lv, idx):
    if lv[0] == 'cond':
        return ite(lv[1], iter_of(I, lv[2], idx), iter_of(I, lv[3], idx))
    if lv[0] == 'val':
        lv = I.temp(lv[1])
    return mkT('iter', I.ref(lv), idx)


def concat(a, b):
    def f(x, y):
        xs = list(x.args[1:]) if x.tag == 'app' and x.args[0] == 'concat' else [x]
        ys = list(y.args[1:]) if y.tag == 'app' and y.args[0] == 'concat' else [y]
        if xs and ys and xs[-1].tag == 'str' and ys[0].tag == 'str':
            m = strlit(xs[-1].args[0] + ys[0].args[0])
            xs, ys = xs[:-1] + [m], ys[1:]
        r = [z for z in xs + ys if not (z.tag == 'str' and z.args[0] == '')]
        if not r:
            return strlit('')
        if len(r) == 1:
            return r[0]
        return mkT('app', 'concat', *r)
    return map2('concat', f, a, b)


def char_to_str(I, v, t):
    if t['k'] in 'iu' and isinstance(v, T):
        c = const_of(asnum(v))
        if c is not None:
            return strlit(chr(int(c)))
        return mkT('app', 'chr', v)
    return v


def stream_put(I, lv, v):
    old = I.read(lv)

    def f(s, x):
        if x.tag == 'str' and x.args[0] == '':
            return s
        if x.tag == 'str' and s.tag == 'app' and s.args[0] == '<<' and isinstance(s.args[2], T) and s.args[2].tag == 'str':
            return mkT('app', '<<', s.args[1], strlit(s.args[2].args[0] + x.args[0]))
        if x.tag == 'app' and x.args[0] == 'concat':
            for p in x.args[1:]:
                s = f(s, p)
            return s
        return mkT('app', '<<', s, x)
    v = I.freeze(v)
    r = mapn(f, [old, v])
    if r is None:
        r = mkT('app', '<<', old, v)
    I.write(lv, r)


def elem_type(n):
    """first template argument"""
    i = n.find('<')
    if i < 0:
        return ''
    d = 0
    for j in range(i + 1, len(n)):
        c = n[j]
        if c == '<':
            d += 1
        elif c == '>' and d:
            d -= 1
        elif c in ',>' and d == 0:
            return n[i + 1:j].strip()
    return ''


def push(I, lv, v):
    old = I.read(lv)
    v = I.freeze(v)

    def f(o):
        n = None
        if o.tag == 'obj' and o.args[0] == '' and all(c[0] == 'i' for c, _ in o.args[1]):
            n = len(o.args[1])
            d = dict(o.args[1])
            d[('i', n)] = v
            return obj(None, d, 'vec')
        return mkT('app', 'push_back', o, v)
    I.write(lv, map1(('push', v.id), f, old))


def call_f(I, fv, lvs, e):
    """call a callable value with LV arguments"""
    if isinstance(fv, T) and fv.tag == 'closure':
        r = I.call_closure(fv, lvs, e)
    elif isinstance(fv, T) and fv.tag == 'fnref':
        fn = I.db.lookup_fn(fv.args[1], I.fr.src)
        if fn is not None and 'body' in fn:
            r = I.call_fn(fn, None, lvs, e)
        else:
            r = I.opaque_apply('call:' + fv.args[0], [I.lvread(l) for l in lvs])
    else:
        r = I.opaque_apply('callfn', [fv] + [I.lvread(l) for l in lvs])
    return I.as_val(r) if isinstance(r, tuple) else r


def range_args(I, b, e):
    """(lv, lo, n) for an iterator pair over one container"""
    if isinstance(b, T) and isinstance(e, T) and b.tag == 'iter' and e.tag == 'iter' and b.args[0] is e.args[0]:
        ref = b.args[0]
        return ('lv', ref.args[0], ref.args[1]), b.args[1], sub(e.args[1], b.args[1])
    return None


def same_node(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return all(same_node(a.get(k), b.get(k)) for k in set(a) | set(b) if k != 'l')
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same_node, a, b))
    return a == b


def class_iterators(I, args):
    """x of x.begin(), x.end() where x is an object of a class iterated as a whole"""
    for a in args[:2]:
        if a['k'] != 'mcall' or not a.get('f') or a.get('a') or not a['f']['q'].startswith('smash::'):
            return None
    b, e = args[0]['f']['q'].rsplit('::', 1), args[1]['f']['q'].rsplit('::', 1)
    if b[0] != e[0] or b[1] not in ('begin', 'cbegin') or e[1] not in ('end', 'cend') or \
            not same_node(args[0]['o'], args[1]['o']) or bool(args[0].get('arrow')) != bool(args[1].get('arrow')):
        return None
    o = args[0]['o']
    if args[0].get('arrow') and o['k'] == 'this' and I.fr.this is not None:
        return I.fr.this
    return I.deref(I.eval(o)) if args[0].get('arrow') else I.eval_lv(o)


def algo(I, name, q, args, e):
    """std algorithms over [first, last)"""
    if name in ('accumulate', 'any_of', 'all_of', 'none_of', 'for_each', 'find_if', 'count_if', 'find',
                'count', 'fill', 'transform', 'copy', 'equal', 'max_element', 'min_element', 'sort', 'reverse',
                'iota', 'copy_if', 'inner_product', 'stable_sort', 'partial_sum', 'next', 'prev', 'advance',
                'lower_bound', 'upper_bound', 'binary_search', 'unique', 'remove_if', 'remove', 'shuffle', 'min', 'max',
                'is_sorted', 'find_if_not', 'adjacent_find', 'minmax_element', 'generate', 'rotate', 'set_difference', 'replace_if', 'nth_element', 'mismatch', 'search', 'back_inserter', 'includes', 'for_each_n', 'move_backward', 'partition', 'fill_n'):
        vs = vals(I, args)
        if vs is None:
            return ('val', UNDEF)
    else:
        return NotImplemented
    if name in ('next', 'prev'):
        n = vs[1] if len(vs) > 1 else ONE
        return I.advance(vs[0], n if name == 'next' else neg(n))
    ra = range_args(I, vs[0], vs[1]) if len(vs) >= 2 else None
    if ra is None and len(vs) >= 2:
        x = class_iterators(I, args)
        if x is not None and x[0] == 'lv':
            ra = x, ZERO, size_of(I.read(x))
            vs[:2] = [iter_of(I, x, ZERO), iter_of(I, x, ra[2])]
    if name in ('accumulate', 'any_of', 'all_of', 'none_of', 'for_each', 'count_if', 'find_if', 'count', 'find',
                'transform', 'equal', 'fill', 'copy_if', 'find_if_not', 'adjacent_find', 'iota', 'inner_product') and ra is not None:
        lv, lo, n = ra
        fr = I.fr
        if name == 'find' and False:
            pass
        acc = None
        if name in ('accumulate', 'inner_product'):
            acc = I.temp(vs[3 if name == 'inner_product' else 2])
        elif name in ('count_if', 'count'):
            acc = I.temp(ZERO)
        elif name in ('any_of', 'all_of', 'none_of', 'equal'):
            acc = I.temp(FALSE if name in ('any_of',) else TRUE)
        cur = {}

        def bind(i):
            cur['i'] = i
            cur['e'] = I.sub_lv(lv, ('i', add(lo, num(i) if isinstance(i, int) else i)))

        def body():
            el = cur['e']
            i = cur['i']
            iv = num(i) if isinstance(i, int) else i
            if name == 'accumulate':
                old = I.temp(I.read(acc))
                if len(vs) > 3:
                    r = call_f(I, vs[3], [old, el], e)
                else:
                    ft = elem_plus(I, acc, el, e)
                    r = ft
                if I.st is not None:
                    I.write(acc, r)
            elif name == 'inner_product':
                other = vs[2]
                o = I.deref(I.advance(other, iv))
                I.write(acc, add(I.read(acc), mul(I.lvread(el), I.lvread(o))))
            elif name == 'count_if':
                c = truth(call_f(I, vs[2], [el], e))
                I.write(acc, add(I.read(acc), ite(c, ONE, ZERO)))
            elif name == 'count':
                c = eqv(I.lvread(el), vs[2])
                I.write(acc, add(I.read(acc), ite(c, ONE, ZERO)))
            elif name == 'any_of':
                c = truth(call_f(I, vs[2], [el], e))
                I.write(acc, or_(I.read(acc), c))
            elif name == 'all_of':
                c = truth(call_f(I, vs[2], [el], e))
                I.write(acc, and_(I.read(acc), c))
            elif name == 'none_of':
                c = truth(call_f(I, vs[2], [el], e))
                I.write(acc, and_(I.read(acc), not_(c)))
            elif name == 'for_each':
                call_f(I, vs[2], [el], e)
            elif name == 'fill':
                I.write(el, vs[2])
            elif name == 'iota':
                I.write(el, add(vs[2], iv))
            elif name == 'equal':
                o = I.deref(I.advance(vs[2], iv))
                if len(vs) > 3:
                    c = truth(call_f(I, vs[3], [el, o], e))
                else:
                    c = eqv(I.lvread(el), I.lvread(o))
                I.write(acc, and_(I.read(acc), c))
            elif name == 'transform':
                if len(vs) == 4:
                    r = call_f(I, vs[3], [el], e)
                    dst = vs[2]
                else:
                    o = I.deref(I.advance(vs[2], iv))
                    r = call_f(I, vs[4], [el, o], e)
                    dst = vs[3]
                if I.st is None:
                    return
                if isinstance(dst, T) and dst.tag == 'app' and dst.args[0] == 'back_inserter':
                    ref = dst.args[1]
                    push(I, ('lv', ref.args[0], ref.args[1]), r)
                else:
                    I.write(I.deref(I.advance(dst, iv)), r)
            elif name == 'copy_if':
                c = truth(call_f(I, vs[3], [el], e))
                dst = vs[2]
                if isinstance(dst, T) and dst.tag == 'app' and dst.args[0] == 'back_inserter':
                    ref = dst.args[1]
                    I.branch(c, lambda: push(I, ('lv', ref.args[0], ref.args[1]), I.lvread(el)), lambda: None)
                else:
                    I.unk('copy_if destination', e)
        if name in ('find_if', 'find', 'find_if_not', 'adjacent_find'):
            K = I.kname()
            dom = lt(K, n if name != 'adjacent_find' else sub(n, ONE))
            bind(K)
            d0 = I.loopdepth
            I.loopdepth += 1
            if name == 'adjacent_find':
                a = cur['e']
                bind(add(K, ONE))
                isnum = re.search(r'__normal_iterator<(const )?(double|float|int|unsigned|long)', I.t(args[0])['n'])
                c = (eq_num if isnum else eqv)(I.lvread(a), I.lvread(cur['e'])) if len(vs) == 2 else truth(call_f(I, vs[2], [a, cur['e']], e))
            elif name == 'find':
                isnum = re.search(r'__normal_iterator<(const )?(double|float|int|unsigned|long)', I.t(args[0])['n'])
                c = (eq_num if isnum else eqv)(I.lvread(cur['e']), vs[2])
            else:
                c = truth(call_f(I, vs[2], [cur['e']], e))
                if name == 'find_if_not':
                    c = not_(c)
            I.loopdepth = d0
            found = I.exists(K, dom, c)
            first = mkT('app', 'first', K, dom, c, bind=K.fv, isint=True, nonneg=True)
            return mkT('iter', vs[0].args[0], ite(found, add(lo, first), add(lo, n)))
        cn = const_of(n) if isinstance(n, T) else None
        if cn is not None and 0 <= cn <= I.unroll:
            I.unrolled(int(cn), bind, body)
        else:
            K = I.kname()
            I.summ_loop({'l': e.get('l', 0)}, K, lambda: lt(K, n), lambda: bind(K), body, n)
        if I.st is None:
            return ('val', UNDEF)
        if acc is not None:
            return I.read(acc)
        if name == 'for_each':
            return vs[2]
        if name == 'transform':
            return I.advance(vs[-2 if len(vs) == 4 else -2], n) if not (vs[2].tag == 'app') else vs[2]
        return VOID
    if name == 'copy' and ra is not None:
        lv, lo, n = ra
        src = I.range_value(vs[0], vs[1])
        d = vs[2]
        if isinstance(d, T) and d.tag == 'iter' and const_of(d.args[1]) == 0:
            ref = d.args[0]
            I.write(('lv', ref.args[0], ref.args[1]), src)
            return I.advance(d, n)
        if isinstance(d, T) and d.tag == 'app' and d.args[0] == 'back_inserter':
            ref = d.args[1]
            l = ('lv', ref.args[0], ref.args[1])
            I.write(l, app('append', I.read(l), src))
            return d
    if name in ('sort', 'stable_sort', 'reverse', 'shuffle', 'unique', 'remove_if', 'remove', 'partial_sum', 'nth_element', 'rotate', 'generate', 'partition') and ra is not None:
        lv, lo, n = ra
        c = I.read(lv)
        extra = [I.freeze(v) for v in vs[2:]]
        whole = I.range_value(vs[0], vs[1])
        I.write(lv, app('std::' + name, whole if whole is c else app('part', c, lo, n), *extra))
        if name in ('unique', 'remove_if', 'remove', 'partition'):
            return mkT('iter', vs[0].args[0], app('newend:' + name, c, *extra, isint=True, nonneg=True))
        return VOID
    if name in ('max_element', 'min_element', 'lower_bound', 'upper_bound', 'adjacent_find', 'search') and ra is not None:
        lv, lo, n = ra
        c = I.range_value(vs[0], vs[1])
        return mkT('iter', vs[0].args[0], app('std::' + name, c, *[I.freeze(v) for v in vs[2:]], isint=True, nonneg=True))
    if name == 'back_inserter':
        return mkT('app', 'back_inserter', I.ref(I.eval_lv(args[0])))
    if name in ('binary_search', 'is_sorted', 'includes'):
        c = I.range_value(vs[0], vs[1])
        return app('std::' + name, c, *[I.freeze(v) for v in vs[2:]], boolean=True)
    if name in ('min', 'max') and len(vs) <= 3:
        return NotImplemented
    for i, a in enumerate(vs):
        if isinstance(a, T) and a.tag == 'iter':
            ref = a.args[0]
            l = ('lv', ref.args[0], ref.args[1])
            if name not in ('lower_bound', 'equal', 'any_of', 'all_of', 'find_if', 'max_element'):
                I.write(l, I.opaque_apply('after:std::' + name, [I.read(l)] + vs))
    return I.opaque_apply('std::' + name, vs)


def elem_plus(I, acc, el, e):
    a, b = I.read(acc), I.lvread(el)
    return add(a, b)


def eqv(a, b):
    return eq(a, b)


def std_call(I, f, q, this, args, e, oty):
    if q == '__builtin_expect':
        return I.eval(args[0])
    name = q.rsplit('::', 1)[-1]
    bare = q[5:] if q.startswith('std::') else q
    t = I.fr.T[f['rt']] if f.get('rt', -1) >= 0 else {'k': 'o', 'n': ''}
    if this is not None:
        return std_method(I, f, q, name, this, args, e, oty, t)
    # operators as free functions
    if name.startswith('operator') and not q.startswith('operator""'):
        op = name[8:]
        return std_free_op(I, op, f, args, e, t)
    base = bare.split('<')[0]
    if base.startswith('__'):
        base = base.lstrip('_')
    if base in ('move', 'forward', 'as_const', 'ref', 'cref', 'move_if_noexcept') and len(args) == 1:
        return ('reflv', I.eval_lv(args[0]))
    if base in UNARY and len(args) == 1:
        return UNARY[base](map1('asnum', asnum, I.eval(args[0])))
    if q in ('abs', 'fabs', 'labs'):
        return fabs(I.eval(args[0]))
    if base in ('pow',) and len(args) == 2:
        a, b = I.eval(args[0]), I.eval(args[1])
        return vpow(map1('asnum', asnum, a), map1('asnum', asnum, b))
    if base == 'hypot':
        vs = [I.eval(a) for a in args]
        r = ZERO
        for v in vs:
            r = add(r, mul(v, v))
        return sqrt(r)
    if base == 'fma':
        a, b, c = [I.eval(x) for x in args]
        return add(mul(a, b), c)
    if base in ('min', 'max', 'fmin', 'fmax'):
        vs = vals(I, args)
        if len(vs) == 1 and isinstance(vs[0], T) and vs[0].tag == 'obj':
            vs = [x for _, x in vs[0].args[1]]
            fn = vmin if base in ('min', 'fmin') else vmax
            r = vs[0]
            for v in vs[1:]:
                r = fn(r, v)
            return r
        if len(vs) == 2:
            return vmin(*vs) if base in ('min', 'fmin') else vmax(*vs)
        if len(vs) == 3:
            c = truth(call_f(I, vs[2], [I.temp(vs[0] if base == 'max' else vs[1]), I.temp(vs[1] if base == 'max' else vs[0])], e))
            return ite(c, vs[1], vs[0])
        return I.opaque_apply(q, vs)
    if base in ('make_move_iterator',) and len(args) == 1:
        return I.eval(args[0])
    if base == 'snprintf' and len(args) == 4 and I.array_arg(args[0]) is not None:
        # the text of a number, cut if the buffer cannot hold every value
        lv = I.eval_lv(I.array_arg(args[0]))
        n, fmt, v = [I.eval(a) for a in args[1:]]
        m = isinstance(fmt, T) and fmt.tag == 'str' and re.match(r'^%(?:\.(\d+))?g$', fmt.args[0])
        room = const_of(n)
        if m and room is not None and room >= int(m.group(1) or 6) + 8:
            I.write(lv, app('format', fmt, v))
            return app('format.length', fmt, v, isint=True, nonneg=True)
        I.write(lv, app('format', fmt, v, n))
        return app('format.length', fmt, v, n, isint=True, nonneg=True)
    if base == 'clamp':
        v, lo, hi = vals(I, args)
        return ite(lt(v, lo), lo, ite(lt(hi, v), hi, v))
    if base == 'minmax':
        a, b = vals(I, args)
        return obj(None, {('f', 'first'): vmin(a, b), ('f', 'second'): vmax(a, b)}, 'pair')
    if base == 'signbit':
        return lt(I.eval(args[0]), ZERO)
    if base in ('isnan', 'isfinite', 'isinf'):
        return fpclass(base, I.eval(args[0]))
    if base == 'invoke' and args:
        return I.call_value(I.eval(args[0]), args[1:], e)
    if base == 'get' and len(args) == 1:
        lv = I.eval_lv(args[0])
        n = I.t(args[0])['n']
        ta = f.get('ta', ['0'])
        m = re.match(r'^(\d+)', ta[0])
        if not m:
            return ('reflv', I.sub_lv(lv, ('f', 'get<%s>' % ta[0])))
        i = int(m.group(1))
        if n.startswith('std::pair'):
            return ('reflv', I.mem_of(lv, 'first' if i == 0 else 'second'))
        return ('reflv', I.sub_lv(lv, ('i', i)))
    if base in ('make_pair',):
        a, b = vals(I, args)
        return obj(None, {('f', 'first'): a, ('f', 'second'): b}, 'pair')
    if base == 'make_tuple':
        vs = vals(I, args)
        return obj(None, {('i', i): v for i, v in enumerate(vs)}, 'tuple')
    if base == 'tie':
        return mkT('app', 'tie', *[I.ref(I.eval_lv(a)) for a in args])
    if base in ('make_unique', 'make_shared'):
        n = f['ta'][0] if f.get('ta') else '?'
        n = re.sub(r'^(const )', '', n)
        ctor = find_ctor(I, n, args)
        if ctor is not None and I.kept(ctor['q']):
            vs = vals(I, args)
            if vs is None:
                return ('val', UNDEF)
            I.opaque_used.setdefault(ctor['q'], 0)
            vs += [I.lvread(l) for l in default_args(I, ctor, len(args))]
            v = I.make_opaque(ctor, vs, e, I.t(e))
        elif ctor is not None:
            lvs = [I.eval_lv(a) for a in args] + default_args(I, ctor, len(args))
            if I.st is None:
                return ('val', UNDEF)
            v = I.construct(ctor, lvs, e)
        else:
            vs = vals(I, args)
            if vs is None:
                return ('val', UNDEF)
            if not vs:
                v = I.default_named(n)
            elif len(vs) == 1 and I.t(args[0])['n'] == n:
                v = vs[0]
            else:
                v = I.opaque_apply('make:' + n, vs)
        if I.st is None:
            return ('val', UNDEF)
        return I.addr(I.temp(v))
    if base == 'make_optional':
        return obj(None, {('f', '#has'): TRUE, ('f', '#opt'): I.eval(args[0])}, 'opt')
    if base == 'swap' and len(args) == 2:
        a, b = I.eval_lv(args[0]), I.eval_lv(args[1])
        x, y = I.lvread(a), I.lvread(b)
        I.write(a, y)
        I.write(b, x)
        return VOID
    if base == 'exchange':
        a = I.eval_lv(args[0])
        v = I.eval(args[1])
        old = I.lvread(a)
        I.write(a, v)
        return old
    if base in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty') and len(args) == 1:
        lv = I.eval_lv(args[0])
        n = I.container_size(lv, I.t(args[0]))
        if base in ('begin', 'cbegin'):
            return iter_of(I, lv, ZERO)
        if base in ('end', 'cend'):
            return iter_of(I, lv, n)
        if base == 'size':
            return n
        return eq_num(n, ZERO)
    if base == 'addressof':
        return I.addr_of(I.eval_lv(args[0]))
    if base in ('isfinite',):
        return fpclass(base, I.eval(args[0]))
    if base == 'to_string':
        return app('to_string', I.eval(args[0]))
    if base in ('getline',):
        lv = I.eval_lv(args[0])
        dst = I.eval_lv(args[1])
        s = I.lvread(lv)
        extra = [I.eval(a) for a in args[2:]]
        I.write(dst, app('getline.line', s, *extra))
        I.write(lv, app('getline.rest', s, *extra))
        return ('reflv', lv)
    if base == 'distance':
        a, b = vals(I, args)
        if I.is_it(a) and I.is_it(b):
            return sub(I.iter_idx(b), I.iter_idx(a))
        return I.opaque_apply('distance', [a, b], isint=True)
    if base in ('endl', 'flush'):
        lv = I.eval_lv(args[0])
        stream_put(I, lv, strlit('\n'))
        return ('reflv', lv)
    r = algo(I, base, q, args, e)
    if r is not NotImplemented:
        return r
    m = NUMLIM.match(q)
    if 'numeric_limits' in q:
        ns = {'int': ('i', 32), 'unsigned int': ('u', 32), 'short': ('i', 16), 'unsigned short': ('u', 16),
              'int16_t': ('i', 16), 'uint16_t': ('u', 16), 'int32_t': ('i', 32), 'uint32_t': ('u', 32)}.get(t['n'].replace('const ', ''))
        base = q.rsplit('::', 1)[-1]
        if ns and base in ('max', 'min', 'lowest'):
            k, w = ns
            return num((2 ** (w - 1) - 1 if k == 'i' else 2 ** w - 1) if base == 'max' else -2 ** (w - 1) if k == 'i' else 0)
        return sym('%s<%s>' % (q, t['n']), isint=t['k'] in 'iu', nonneg=(t['k'] == 'u'))
    import interp
    if interp.IMPURE_STD.match(q) or 'random' in q:
        return I.opaque_call(f, None, args, e)
    if PURE_FREE.match(q) or q.startswith('std::chrono') or interp.PURE_OTHER.match(q) or q.startswith('operator""'):
        mut = any(c in 'mp' for c in f.get('pm', ''))
        if not mut:
            vs = vals(I, args)
            if vs is None:
                return ('val', UNDEF)
            return I.opaque_apply(q, vs, isint=t['k'] in 'iu', nonneg=t['k'] == 'u', boolean=t['k'] == 'b')
    return I.opaque_call(f, None, args, e)


_ctor_index = {}


def find_ctor(I, n, args):
    db = I.db
    if id(db) not in _ctor_index:
        d = {}
        for fn in db.fn.values():
            if fn.get('ctor') and 'body' in fn:
                rn = fn['_T'][fn['thist']]['n'] if fn.get('thist', -1) >= 0 else fn['n'].rsplit('::', 1)[0]
                d.setdefault(rn, []).append(fn)
        _ctor_index[id(db)] = d
    cs = [c for c in _ctor_index[id(db)].get(n, []) if len(c['params']) == len(args)]
    if not cs:
        cs = [c for c in _ctor_index[id(db)].get(n, []) if len(c['params']) > len(args) and
              all('def' in p for p in c['params'][len(args):])]
    if len(cs) == 1:
        return cs[0]
    if len(cs) > 1:
        best = [c for c in cs if all(c['_T'][p['t']]['n'] == I.t(a)['n'] for p, a in zip(c['params'], args))]
        if len(best) == 1:
            return best[0]
        best = [c for c in cs if all((c['_T'][p['t']]['k'] == I.t(a)['k']) for p, a in zip(c['params'], args))]
        if len(best) == 1:
            return best[0]
    return None


def default_args(I, ctor, n):
    """lvalues of the default arguments from the n-th on"""
    out = []
    fr = I.fr
    for p in ctor['params'][n:]:
        try:
            I.fr = I.new_frame(ctor)
            out.append(I.eval_lv(p['def']))
        finally:
            I.fr = fr
    return out


ARRT = __import__('re').compile(r'^(?:const )?std::array<(.*), (\d+)(?:UL)?>$')
NUMS = ('double', 'float', 'int', 'long', 'unsigned int', 'unsigned long', 'short', 'unsigned short', 'char',
        'unsigned char')


def array_len(tn):
    """number of elements of a small std::array type"""
    m = ARRT.match(tn)
    return int(m.group(2)) if m and int(m.group(2)) <= 16 else None


def std_free_op(I, op, f, args, e, t):
    ts = [I.t(a) for a in args]
    names = [x['n'] for x in ts]
    if op in ('<<', '>>') and ('stream' in names[0] or 'ostream' in t['n'] or 'istream' in t['n']):
        lv = I.eval_lv(args[0])
        if I.st is None:
            return ('val', UNDEF)
        if op == '<<':
            v = I.eval(args[1])
            if I.st is None:
                return ('val', UNDEF)
            if ts[1]['k'] in 'iu' and ts[1].get('w') == 8:
                v = char_to_str(I, v, ts[1])
            stream_put(I, lv, v)
        else:
            dst = I.eval_lv(args[1])
            s = I.lvread(lv)
            tt = I.t(args[1])
            I.write(dst, app('>>' + tt['n'], s, isint=tt['k'] in 'iu', nonneg=tt['k'] == 'u'))
            I.write(lv, app('>>rest:' + tt['n'], s))
        return ('reflv', lv)
    vs = vals(I, args)
    if vs is None:
        return ('val', UNDEF)
    if op in ('==', '!='):
        if I.is_it(vs[0]) or I.is_it(vs[1]) or any(isinstance(v, D) and all(I.is_it(l) for l in leaves(v)) for v in vs):
            r = I.iter_eq(vs[0], vs[1])
        elif names[0].startswith('std::optional') and names[1].startswith('std::optional'):
            r = eq(vs[0], vs[1])
        elif 'nullptr_t' in names[1] or vs[1] is NULL:
            r = eq(vs[0], NULL)
        elif array_len(names[0]) is not None and array_len(names[0]) == array_len(names[1]):
            r = TRUE
            en = ARRT.match(names[0]).group(1)
            num = en in NUMS
            for i in range(array_len(names[0])):
                x, y = (sel(v, ('i', i), isint=en in NUMS[2:]) for v in vs)
                r = and_(r, eq_num(x, y) if num else eq(x, y))
        else:
            r = eq(I.freeze(vs[0]), I.freeze(vs[1]))
        return r if op == '==' else not_(r)
    if op in ('<', '>', '<=', '>='):
        a, b = vs
        if I.has_it(a) and I.has_it(b):
            a, b = I.iter_pair(a, b)
            return {'<': lt(a, b), '>': lt(b, a), '<=': le(a, b), '>=': le(b, a)}[op]
        a, b = I.freeze(a), I.freeze(b)
        if op in ('>', '<='):
            a, b = b, a
        r = app('less', a, b, boolean=True)
        return r if op in ('<', '>') else not_(r)
    if op == '+' and ('basic_string' in names[0] or 'basic_string' in names[-1]):
        a, b = vs
        a = char_to_str(I, a, ts[0])
        b = char_to_str(I, b, ts[1])
        return concat(I.freeze(a), I.freeze(b))
    if op in ('+', '-') and len(vs) == 2:
        a, b = vs
        if I.has_it(a) and I.has_it(b):
            return sub(*I.iter_pair(a, b))
        if I.has_it(a):
            return I.advance(a, b if op == '+' else neg(b))
    if op == '/' and 'path' in names[0]:
        return app('path/', *[I.freeze(v) for v in vs])
    mut = 'm' in f.get('pm', '')
    if mut:
        lv = I.eval_lv(args[0])
        I.write(lv, I.opaque_apply('op' + op, vs))
        return ('reflv', lv)
    return I.opaque_apply('op' + op, vs, boolean=t['k'] == 'b')


def has(v):
    """contained-value flag of an optional"""
    def f(l):
        if l.tag == 'obj' and l.args[2] == 'opt':
            return dict(l.args[1])[('f', '#has')]
        return bool_atom(mkT('app', 'has', l))
    return map1('has', f, v)


def opt_merge(a):
    return a


EIG = re.compile(r'^Eigen::Matrix<double, (\d+), (\d+)')


def mat_dims(v, tn):
    if isinstance(v, T) and v.tag == 'obj' and isinstance(v.args[2], str) and v.args[2].startswith('mat'):
        a, b = v.args[2][3:].split('x')
        return int(a), int(b)
    m = EIG.match(tn)
    return (int(m.group(1)), int(m.group(2))) if m else None


def eigen_method(I, r, name, this, args, oty, t):
    """small dense matrices, row by row"""
    def mat(dm, f):
        return obj(None, {('i', i): f(i) for i in range(dm[0] * dm[1])}, 'mat%dx%d' % dm)
    tn = oty['n'] if oty else ''
    if name in ('operator()', 'operator[]') and r.startswith('Eigen::DenseCoeffsBase'):
        v = I.lvread(this)
        dm = mat_dims(v, tn)
        ix = [I.eval(a) for a in args]
        if I.st is None:
            return ('val', UNDEF)
        if len(ix) == 1:
            return I.sub_lv(this, ('i', ix[0]))
        if dm:
            return I.sub_lv(this, ('i', add(mul(ix[0], num(dm[1])), ix[1])))
        return None
    if name == 'operator<<':
        x = I.eval(args[0])
        if I.st is None:
            return ('val', UNDEF)
        I.write(I.sub_lv(this, ('i', ZERO)), x)
        return obj(None, {('f', '#t'): I.addr(this), ('f', '#n'): num(1)}, 'comma')
    if name == 'operator,':
        c = I.lvread(this)
        x = I.eval(args[0])
        if I.st is None:
            return ('val', UNDEF)
        if not (isinstance(c, T) and c.tag == 'obj' and c.args[2] == 'comma'):
            return None
        d = dict(c.args[1])
        I.write(I.sub_lv(I.deref(d[('f', '#t')]), ('i', d[('f', '#n')])), x)
        return obj(None, {('f', '#t'): d[('f', '#t')], ('f', '#n'): add(d[('f', '#n')], ONE)}, 'comma')
    if name == 'operator=' and r == 'Eigen::Matrix':
        v = I.eval(args[0])
        if I.st is None:
            return ('val', UNDEF)
        I.write(this, v)
        return this
    if name in ('operator*', 'operator+', 'operator-', 'transpose') and r.startswith(('Eigen::MatrixBase', 'Eigen::DenseBase')):
        a = I.lvread(this)
        da = mat_dims(a, tn)
        if da is None:
            return None
        if not args:
            if name == 'operator-':
                return mat(da, lambda i: neg(sel(a, ('i', i))))
            if name == 'transpose':
                return mat((da[1], da[0]), lambda i: sel(a, ('i', (i % da[0]) * da[1] + i // da[0])))
            return None
        b = I.eval(args[0])
        if I.st is None:
            return ('val', UNDEF)
        bt = I.t(args[0])
        if name == 'operator*' and bt['k'] in 'iud':
            return mat(da, lambda i: mul(sel(a, ('i', i)), b))
        db = mat_dims(b, bt['n'])
        if db is None:
            return None
        if name == 'operator*':
            if da[1] != db[0]:
                return None

            def f(i):
                r_, c_ = divmod(i, db[1])
                s = ZERO
                for k in range(da[1]):
                    s = add(s, mul(sel(a, ('i', r_ * da[1] + k)), sel(b, ('i', k * db[1] + c_))))
                return s
            return mat((da[0], db[1]), f)
        op = add if name == 'operator+' else sub
        return mat(da, lambda i: op(sel(a, ('i', i)), sel(b, ('i', i))))
    if name in ('col', 'row', 'real', 'imag', 'eigenvalues', 'eigenvectors', 'norm', 'sum', 'dot', 'determinant',
                'inverse', 'trace', 'diagonal', 'squaredNorm', 'block', 'cwiseAbs', 'maxCoeff', 'minCoeff'):
        vs = [I.lvread(this)] + [I.eval(a) for a in args]
        if I.st is None:
            return ('val', UNDEF)
        return I.opaque_apply('Eigen:' + name, [I.freeze(v) for v in vs])
    return None


def std_method(I, f, q, name, this, args, e, oty, t):
    n = oty['n'] if oty else ''
    rec = f.get('rec', '')
    const = f.get('const')
    r = rec
    isptr = oty is not None and oty['k'] == 'p'
    if e.get('arrow') and oty and oty['k'] == 'p':
        n = oty.get('pn', n)

    def rd():
        return I.lvread(this)
    if r.startswith('Eigen::'):
        v = eigen_method(I, r, name, this, args, oty, t)
        if v is not None:
            return v
    if r.startswith('std::numeric_limits'):
        return sym(q)
    # --- smart pointers
    if r in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr'):
        if name == 'get':
            return rd()
        if name in ('operator->',):
            return rd()
        if name in ('operator*',):
            return I.deref(rd())
        if name == 'operator bool':
            return truth_ptr(rd())
        if name == 'operator=':
            v = I.eval(args[0])
            if I.st is None:
                return ('val', UNDEF)
            I.write(this, v)
            return this
        if name == 'reset':
            v = I.eval(args[0]) if args and args[0]['k'] != 'null' else NULL
            I.write(this, v)
            return VOID
        if name == 'release':
            v = rd()
            I.write(this, NULL)
            return v
        if name == 'operator[]':
            return I.sub_lv(I.deref(rd()), ('i', I.eval(args[0])))
    if r in ('std::optional', 'std::_Optional_base', 'std::_Optional_base_impl'):
        if name in ('has_value', 'operator bool'):
            return has(rd())
        if name in ('value', 'operator*', 'operator->'):
            if name == 'operator->':
                return I.addr(I.sub_lv(this, ('f', '#opt')))
            return I.sub_lv(this, ('f', '#opt'))
        if name == 'value_or':
            v = rd()
            d = I.eval(args[0])
            return ite(has(v), sel_v(v, 'f', '#opt'), d)
        if name == 'operator=':
            at = I.t(args[0])
            v = I.eval(args[0])
            if 'nullopt' in at['n']:
                v = obj(None, {('f', '#has'): FALSE}, 'opt')
            elif not at['n'].startswith('std::optional'):
                v = obj(None, {('f', '#has'): TRUE, ('f', '#opt'): v}, 'opt')
            I.write(this, v)
            return this
        if name == 'reset':
            I.write(this, obj(None, {('f', '#has'): FALSE}, 'opt'))
            return VOID
        if name == 'emplace':
            I.write(this, obj(None, {('f', '#has'): TRUE, ('f', '#opt'): I.eval(args[0])}, 'opt'))
            return I.sub_lv(this, ('f', '#opt'))
    if r in ('std::pair', 'std::tuple') and name == 'operator=':
        if this[0] == 'val' and isinstance(this[1], T) and this[1].tag == 'app' and this[1].args[0] == 'tie' or \
                isinstance(rd(), T) and rd().tag == 'app' and rd().args[0] == 'tie':
            tv = rd()
            v = I.eval(args[0])
            at = I.t(args[0])['n']
            for i, ref in enumerate(tv.args[1:]):
                comp = ('f', ('first', 'second')[i]) if at.startswith('std::pair') else ('i', i)
                I.write(('lv', ref.args[0], ref.args[1]), sel_v(v, comp[0], comp[1]))
            return this
        v = I.eval(args[0])
        I.write(this, v)
        return this
    if r == 'std::function':
        if name == 'operator()':
            v = rd()
            if isinstance(v, T) and v.tag in ('closure', 'fnref'):
                return I.call_value(v, args, e)
            vs = vals(I, args)
            if vs is None:
                return ('val', UNDEF)
            if t['k'] == 'v':
                return I.event('callfn', [v] + vs, e, t)
            return I.opaque_apply('callfn', [v] + vs, isint=t['k'] in 'iu', boolean=t['k'] == 'b')
        if name == 'operator bool':
            return truth_ptr(rd())
        if name == 'operator=':
            I.write(this, I.eval(args[0]))
            return this
    if r == 'std::back_insert_iterator':
        if name in ('operator*', 'operator++'):
            return this if not args else I.lvread(this)
        if name == 'operator=':
            v = I.eval(args[0])
            d = I.lvread(this)
            if I.st is not None and isinstance(d, T) and d.tag == 'app' and d.args[0] == 'back_inserter':
                push(I, ('lv', d.args[1].args[0], d.args[1].args[1]), v)
                return this
    if 'normal_iterator' in r or r in ('std::reverse_iterator', 'std::_List_iterator', 'std::_List_const_iterator',
                                       'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::move_iterator', 'std::__detail::_Node_iterator'):
        v = rd()
        if name == 'operator*':
            return I.deref(v)
        if name == 'operator->':
            if isinstance(v, T) and v.tag in ('iter',):
                return I.addr(I.deref(v))
            return v
        if name in ('operator++', 'operator--'):
            I.write(this, I.advance(v, ONE if name[-1] == '+' else num(-1)))
            return v if args else this
        if name in ('operator+', 'operator-'):
            d = I.eval(args[0])
            if I.is_it(d):
                return sub(I.iter_idx(v), I.iter_idx(d))
            return I.advance(v, d if name[-1] == '+' else neg(d))
        if name in ('operator+=', 'operator-='):
            d = I.eval(args[0])
            I.write(this, I.advance(v, d if name[-2] == '+' else neg(d)))
            return this
        if name == 'operator[]':
            return I.deref(I.advance(v, I.eval(args[0])))
        if name == 'base':
            return v
        if name == 'operator=':
            I.write(this, I.eval(args[0]))
            return this
    ismap = r in ('std::map', 'std::unordered_map', 'std::multimap', 'std::set', 'std::unordered_set', 'std::multiset')
    isseq = r in ('std::vector', 'std::deque', 'std::list', 'std::array', 'std::basic_string', 'std::__cxx11::basic_string', 'std::__cxx11::list',
                  'std::basic_string_view', 'std::initializer_list', 'std::priority_queue', 'std::queue', 'std::stack', 'std::bitset')
    if ismap or isseq:
        if name in ('size', 'length'):
            return I.container_size(this, {'n': n, 'k': 'r'})
        if name == 'empty':
            return eq_num(I.container_size(this, {'n': n, 'k': 'r'}), ZERO)
        if name in ('begin', 'cbegin'):
            return iter_of(I, this, ZERO)
        if name in ('end', 'cend'):
            return iter_of(I, this, I.container_size(this, {'n': n, 'k': 'r'}))
        if name == 'operator=':
            v = I.eval(args[0])
            if I.st is None:
                return ('val', UNDEF)
            I.write(this, v)
            return this
        if name == 'clear':
            I.write(this, strlit('') if 'basic_string' in r else mkT('obj', '', (), 'vec'))
            return VOID
        if name in ('reserve', 'shrink_to_fit'):
            for a in args:
                I.eval(a)
            return VOID
        if name == 'swap' and len(args) == 1:
            o = I.eval_lv(args[0])
            x, y = rd(), I.lvread(o)
            I.write(this, y)
            I.write(o, x)
            return VOID
    if isseq:
        if name in ('operator[]', 'at'):
            idx = I.eval(args[0])
            return I.sub_lv(this, ('i', idx))
        if name == 'front':
            return I.sub_lv(this, ('i', 0))
        if name == 'back':
            return I.sub_lv(this, ('i', sub(I.container_size(this, {'n': n, 'k': 'r'}), ONE)))
        if name in ('data', 'c_str'):
            if 'basic_string' in r:
                return rd()
            return iter_of(I, this, ZERO)
        if name in ('push_back', 'emplace_back') and 'basic_string' not in r:
            if len(args) == 1 and (name == 'push_back' or I.t(args[0])['n'] == elem_type(n) or I.t(args[0])['k'] != 'r'
                                   and not elem_type(n).startswith('smash::')):
                v = I.eval(args[0])
            elif len(args) == 0 and name == 'emplace_back':
                v = I.default_named(elem_type(n))
            else:
                et = elem_type(n)
                if et.startswith('std::unique_ptr'):
                    v = I.eval(args[0])
                elif et.startswith('std::pair') and len(args) == 2:
                    a, b = vals(I, args)
                    v = obj(None, {('f', 'first'): a, ('f', 'second'): b}, 'pair')
                else:
                    ctor = find_ctor(I, et, args)
                    if ctor is not None and I.kept(ctor['q']):
                        vs = vals(I, args)
                        if vs is None:
                            return ('val', UNDEF)
                        I.opaque_used.setdefault(ctor['q'], 0)
                        vs += [I.lvread(l) for l in default_args(I, ctor, len(args))]
                        v = I.make_opaque(ctor, vs, e, I.t(e))
                    elif ctor is not None:
                        lvs = [I.eval_lv(a) for a in args] + default_args(I, ctor, len(args))
                        v = I.construct(ctor, lvs, e)
                    else:
                        vs = vals(I, args)
                        if vs is None:
                            return ('val', UNDEF)
                        v = vs[0] if len(vs) == 1 else I.opaque_apply('make:' + et, vs)
            if I.st is None:
                return ('val', UNDEF)
            push(I, this, v)
            if name == 'emplace_back':
                return I.sub_lv(this, ('i', sub(I.container_size(this, {'n': n, 'k': 'r'}), ONE)))
            return VOID
        if name == 'resize':
            vs = vals(I, args)
            old = rd()
            if isinstance(old, T) and old.tag == 'obj' and old.args[0] == '' and not old.args[1]:
                et = elem_type(n)
                I.write(this, mkT('filled', vs[0], vs[1] if len(vs) > 1 else I.zero_named(et)))
            else:
                I.write(this, app('resize', old, *[I.freeze(v) for v in vs]))
            return VOID
        if name == 'assign' and len(args) == 2 and I.t(args[0])['k'] in 'iu':
            a, b = vals(I, args)
            I.write(this, mkT('filled', a, b))
            return VOID
        if name == 'fill':
            v = I.eval(args[0])
            m = re.match(r'^std::array<(.*), (\d+)>$', n)
            I.write(this, mkT('filled', num(int(m.group(2))) if m else size_of(rd()), v))
            return VOID
        if name == 'pop_back':
            old = rd()

            def pb(o):
                if o.tag == 'app' and o.args[0] == 'push_back':
                    return o.args[1]
                return mkT('app', 'pop_back', o)
            I.write(this, map1('pop_back', pb, old))
            return VOID
        if name == 'insert' and len(args) == 3:
            vs = vals(I, args)
            ra = range_args(I, vs[1], vs[2])
            if I.is_it(vs[0]) and ra is not None and vs[0].tag == 'iter' and I.iter_idx(vs[0]) is I.container_size(this, {'n': n, 'k': 'r'}):
                x = I.range_value(vs[1], vs[2])
                I.write(this, concat(rd(), x) if 'basic_string' in r else app('append', rd(), x))
                return VOID
            I.write(this, I.opaque_apply('insert', [rd()] + [I.iter_idx(v) if I.is_it(v) else v for v in vs]))
            return VOID
        if 'basic_string' in r:
            if name in ('operator+=', 'append', 'push_back') and len(args) == 1:
                v = I.eval(args[0])
                v = char_to_str(I, v, I.t(args[0]))
                I.write(this, concat(rd(), I.freeze(v)))
                return this
    if ismap:
        if name in ('operator[]', 'at') and len(args) == 1:
            key = I.freeze(I.eval(args[0]))
            return I.sub_lv(this, ('k', key))
        if name in ('count', 'contains'):
            key = I.freeze(I.eval(args[0]))
            c = I.contains(rd(), key)
            return c if name == 'contains' else ite(c, ONE, ZERO)
        if name == 'find':
            key = I.freeze(I.eval(args[0]))
            if this[0] == 'val':
                this = I.temp(this[1])
            if this[0] == 'lv':
                return mkT('mapit', I.ref(this), key)
        if name in ('insert', 'emplace') and r in ('std::map', 'std::unordered_map'):
            if len(args) == 1:
                v = I.eval(args[0])
                k, x = sel_v(v, 'f', 'first'), sel_v(v, 'f', 'second')
            elif len(args) == 2:
                k, x = vals(I, args)
            else:
                k = None
            if k is not None and I.st is not None:
                k = I.freeze(k)
                old = rd()
                c = I.contains(old, k)
                I.write(this, ite(c, old, upd_v(old, 'k', k, x)))
                return obj(None, {('f', 'first'): mkT('mapit', I.ref(this), k) if this[0] == 'lv' and isinstance(k, T) else UNDEF, ('f', 'second'): not_(c)}, 'pair')
    if r.startswith('std::basic_') or r.startswith('std::__cxx11::basic_') and 'stream' in r or r in ('std::ios_base',):
        if name in ('operator<<', 'operator>>'):
            a = args[0]
            if name == 'operator<<':
                if a['k'] == 'fn' or I.t(a)['k'] in ('p',) and 'stream' in I.t(a)['n'] or '(' in I.t(a)['n'] and 'ios' in I.t(a)['n']:
                    v = I.eval(a)
                    if isinstance(v, T) and v.tag == 'fnref' and v.args[0] in ('std::endl',):
                        stream_put(I, this, strlit('\n'))
                    elif isinstance(v, T) and v.tag == 'fnref' and v.args[0] == 'std::flush':
                        pass
                    else:
                        stream_put(I, this, mkT('str', '\x01' + v.args[0]) if isinstance(v, T) and v.tag == 'fnref' and False else v)
                else:
                    v = I.eval(a)
                    if I.st is None:
                        return ('val', UNDEF)
                    if I.t(a)['k'] in 'iud' and isinstance(v, T) and v.tag == 'str':
                        v = mkT('app', 'num', v)
                    stream_put(I, this, v)
                return this
            dst = I.eval_lv(a)
            s = rd()
            tt = I.t(a)
            if tt['k'] == 'p' or '(' in tt['n']:
                I.write(this, app('>>manip', s, I.eval(a)))
                return this
            I.write(dst, app('>>' + tt['n'], s, isint=tt['k'] in 'iu', nonneg=tt['k'] == 'u'))
            I.write(this, app('>>rest:' + tt['n'], s))
            return this
        if name in ('write', 'read') and len(args) == 2:
            # bytes of the object pointed to
            v = I.eval(args[0])
            n = I.eval(args[1])
            if I.st is None:
                return ('val', UNDEF)
            old = rd()
            if name == 'write':
                if isinstance(v, T) and v.tag == 'ptr':
                    v = I.read(('lv', v.args[0], v.args[1]))
                elif isinstance(v, T) and v.tag == 'iter':
                    ref, idx = v.args
                    v = mkT('app', 'iterof', I.read(('lv', ref.args[0], ref.args[1])), idx)
                I.write(this, I.opaque_apply('bytes<<', [old, v, n]))
                return this
            if isinstance(v, T) and v.tag in ('ptr', 'iter'):
                a = args[0]
                while a.get('k') in ('cast', 'paren') and isinstance(a.get('e'), dict):
                    if a.get('c') not in ('BitCast', 'NoOp', None) and a['k'] == 'cast':
                        break
                    a = a['e']
                pt = {'k': '?'}
                pn = I.t(a).get('pn', '')
                if re.search(r'\b(int|long|short|char|bool)\b', pn):
                    pt = {'k': 'u' if 'unsigned' in pn else 'i'}
                r = v if v.tag == 'ptr' else v.args[0]
                lv = ('lv', r.args[0], r.args[1])
                old_v = I.read(lv)
                if v.tag == 'iter':
                    # the container keeps its size
                    x = I.opaque_apply('bytes>>', [old, n, size_of(old_v)])
                else:
                    x = app('bytes>>', old, n, isint=pt['k'] in 'iu', nonneg=pt['k'] == 'u')
                I.write(lv, x)
            I.write(this, app('bytes>>rest', old, n))
            return this
        if name in ('operator bool',):
            return app('stream.ok', rd(), boolean=True)
        if name == 'operator!':
            return not_(app('stream.ok', rd(), boolean=True))
        if name in ('good', 'fail', 'eof', 'bad', 'is_open') and not args:
            return app('stream.' + name, rd(), boolean=True)
        if name == 'str' and not args:
            def ss(l):
                # text of a string stream built only from literals / pieces
                return mkT('app', 'stream.str', l)
            return map1('stream.str', ss, rd())
    # generic
    if const and t['k'] != 'v':
        vs = vals(I, args)
        if vs is None:
            return ('val', UNDEF)
        vs = [I.iter_idx(v) if False else v for v in vs]
        return I.opaque_apply(q, [rd()] + vs, isint=t['k'] in 'iu', nonneg=t['k'] == 'u', boolean=t['k'] == 'b')
    if f.get('virt') or not q.startswith('std::'):
        return NotImplemented
    # mutating method of a library object
    vs = []
    outs = []
    pm = f.get('pm', '')
    for i, a in enumerate(args):
        if i < len(pm) and pm[i] == 'm':
            lv = I.eval_lv(a)
            outs.append((i, lv))
            vs.append(I.lvread(lv))
        else:
            v = I.eval(a)
            vs.append(v)
        if I.st is None:
            return ('val', UNDEF)
    vs = [I.iter_idx(v) if I.is_it(v) and v.tag == 'iter' and this[0] == 'lv' and v.args[0] is I.ref(this) else v for v in vs]
    old = rd()
    I.write(this, I.opaque_apply('mut:' + q, [old] + vs))
    for i, lv in outs:
        if lv[0] in ('lv', 'cond'):
            I.write(lv, I.opaque_apply('out%d:%s' % (i, q), [old] + vs))
    if t['k'] == 'v':
        return VOID
    if t.get('ref'):
        return this
    if 'iterator' in t['n'] and this[0] == 'lv':
        return mkT('iter', I.ref(this), I.opaque_apply('pos:' + q, [old] + vs, isint=True, nonneg=True))
    return I.opaque_apply('ret:' + q, [old] + vs, isint=t['k'] in 'iu', nonneg=t['k'] == 'u', boolean=t['k'] == 'b')
