"""Linear integer terms and boolean formulas (plain nested tuples), their evaluation, simplification and SMT-LIB form.

Lin      : (k, ((var, coef), ...))      k + sum coef*var, variables sorted, coefs != 0
Formulas : True | False
           ('le', lin)      lin <= 0
           ('eq', lin)      lin == 0
           ('in', lin, ((lo, hi), ...))   lin lies in one of the (sorted, disjoint) ranges
           ('not', f) | ('and', (f, ...)) | ('or', (f, ...))
"""


# ---- linear terms

def lin_const(k):
    return (k, ())


def lin_var(i):
    return (0, ((i, 1),))


def lin_add(a, b, cb=1):
    if not b[1]:
        return (a[0] + cb * b[0], a[1])
    if not a[1] and cb == 1:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for v, c in b[1]:
        n = d.get(v, 0) + cb * c
        if n:
            d[v] = n
        else:
            d.pop(v, None)
    return (a[0] + cb * b[0], tuple(sorted(d.items())))


def lin_scale(a, c):
    if c == 0:
        return (0, ())
    return (a[0] * c, tuple((v, k * c) for v, k in a[1]))


def lin_eval(a, env):
    r = a[0]
    for v, c in a[1]:
        r += c * env[v]
    return r


# ---- ranges

def rng_inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = a[i][0] if a[i][0] > b[j][0] else b[j][0]
        hi = a[i][1] if a[i][1] < b[j][1] else b[j][1]
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


INF = 10 ** 40


def rng_neg(a, lo=-INF, hi=INF):
    out = []
    cur = lo
    for l, h in a:
        if h < cur:
            continue
        if l > hi:
            break
        if l > cur:
            out.append((cur, l - 1))
        cur = h + 1
    if cur <= hi:
        out.append((cur, hi))
    return tuple(out)


def rng_norm(rs):
    rs = sorted(rs)
    out = []
    for lo, hi in rs:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def rng_has(rs, x):
    lo, hi = 0, len(rs)
    while lo < hi:
        m = (lo + hi) // 2
        if rs[m][1] < x:
            lo = m + 1
        else:
            hi = m
    return lo < len(rs) and rs[lo][0] <= x


# ---- formulas

def f_le(a):
    if not a[1]:
        return a[0] <= 0
    return ('le', a)


def f_eq(a):
    if not a[1]:
        return a[0] == 0
    if a[1][0][1] < 0:
        a = lin_scale(a, -1)
    if len(a[1]) == 1:
        c = a[1][0][1]
        if a[0] % c:
            return False
        if c != 1:
            a = (a[0] // c, ((a[1][0][0], 1),))
    return ('eq', a)


def f_in(a, ranges):
    if not a[1]:
        return rng_has(ranges, a[0])
    if not ranges:
        return False
    return ('in', a, ranges)


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == 'not':
        return f[1]
    return ('not', f)


def f_and(fs):
    out = []
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        if f[0] == 'and':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(dict.fromkeys(out)))


def f_or(fs):
    out = []
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        if f[0] == 'or':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or', tuple(dict.fromkeys(out)))


def f_eval(f, env):
    if f is True or f is False:
        return f
    op = f[0]
    if op == 'eq':
        return lin_eval(f[1], env) == 0
    if op == 'in':
        return rng_has(f[2], lin_eval(f[1], env))
    if op == 'le':
        return lin_eval(f[1], env) <= 0
    if op == 'not':
        return not f_eval(f[1], env)
    if op == 'and':
        for g in f[1]:
            if not f_eval(g, env):
                return False
        return True
    for g in f[1]:
        if f_eval(g, env):
            return True
    return False


def f_vars(f, acc=None):
    if acc is None:
        acc = set()
    if f is True or f is False:
        return acc
    op = f[0]
    if op in ('eq', 'le', 'in'):
        for v, _ in f[1][1]:
            acc.add(v)
    elif op == 'not':
        f_vars(f[1], acc)
    else:
        for g in f[1]:
            f_vars(g, acc)
    return acc


def unary(f):
    """(var, ranges) such that f <=> var in ranges, when f talks about a single variable with a simple form."""
    op = f[0]
    if op == 'not':
        u = unary(f[1])
        return None if u is None else (u[0], rng_neg(u[1]))
    if op == 'and' or op == 'or':
        var = None
        acc = None
        for g in f[1]:
            u = unary(g)
            if u is None or (var is not None and u[0] != var):
                return None
            var = u[0]
            if acc is None:
                acc = u[1]
            elif op == 'and':
                acc = rng_inter(acc, u[1])
            else:
                acc = rng_norm(acc + u[1])
        return (var, acc)
    k, vs = f[1]
    if len(vs) != 1:
        return None
    v, c = vs[0]
    if op == 'eq':
        if k % c:
            return (v, ())
        x = -k // c
        return (v, ((x, x),))
    if op == 'le':          # c*v + k <= 0
        if c > 0:
            return (v, ((-INF, (-k) // c),))
        return (v, ((-(k // c), INF),)) if k % c == 0 else (v, ((_ceil_div(k, -c), INF),))
    if c == 1:
        return (v, tuple((lo - k, hi - k) for lo, hi in f[2]))
    return None


def _ceil_div(a, b):
    return -((-a) // b)


def lin_bounds(a, dom):
    lo = hi = a[0]
    for v, c in a[1]:
        d = dom[v]
        l, h = d[0][0], d[-1][1]
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    return lo, hi


def f_simplify(f, dom):
    """Simplifies f under the variable domains (sound: equivalent to f for every assignment in the domains)."""
    if f is True or f is False:
        return f
    op = f[0]
    if op in ('eq', 'le', 'in'):
        u = unary(f)
        if u is not None:
            d = dom[u[0]]
            i = rng_inter(d, u[1])
            if not i:
                return False
            if i == d:
                return True
            return f
        lo, hi = lin_bounds(f[1], dom)
        if op == 'eq':
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
        elif op == 'le':
            if hi <= 0:
                return True
            if lo > 0:
                return False
        else:
            i = rng_inter(((lo, hi),), f[2])
            if not i:
                return False
            if i == ((lo, hi),):
                return True
        return f
    if op == 'not':
        return f_not(f_simplify(f[1], dom))
    if op == 'and':
        out = []
        for g in f[1]:
            g = f_simplify(g, dom)
            if g is False:
                return False
            out.append(g)
        return f_and(out)
    out = []
    for g in f[1]:
        g = f_simplify(g, dom)
        if g is True:
            return True
        out.append(g)
    return f_or(out)


# ---- SMT-LIB

def _num(k):
    return str(k) if k >= 0 else '(- %d)' % -k


def lin_smt(a):
    k, vs = a
    parts = []
    for v, c in vs:
        parts.append('v%d' % v if c == 1 else '(* %s v%d)' % (_num(c), v))
    if k or not parts:
        parts.append(_num(k))
    return parts[0] if len(parts) == 1 else '(+ %s)' % ' '.join(parts)


def f_smt(f):
    if f is True:
        return 'true'
    if f is False:
        return 'false'
    op = f[0]
    if op == 'eq':
        k, vs = f[1]
        return '(= %s %s)' % (lin_smt((0, vs)), _num(-k))
    if op == 'le':
        k, vs = f[1]
        return '(<= %s %s)' % (lin_smt((0, vs)), _num(-k))
    if op == 'in':
        t = lin_smt(f[1])
        parts = []
        for lo, hi in f[2]:
            if lo == hi:
                parts.append('(= %s %s)' % (t, _num(lo)))
            elif lo <= -INF:
                parts.append('(<= %s %s)' % (t, _num(hi)))
            elif hi >= INF:
                parts.append('(>= %s %s)' % (t, _num(lo)))
            else:
                parts.append('(<= %s %s %s)' % (_num(lo), t, _num(hi)))
        return parts[0] if len(parts) == 1 else '(or %s)' % ' '.join(parts)
    if op == 'not':
        return '(not %s)' % f_smt(f[1])
    return '(%s %s)' % (op, ' '.join(f_smt(g) for g in f[1]))
