"""Hash-consed symbolic terms with a polynomial normal form.

Numeric terms are Laurent polynomials over atoms (variables, memory reads,
uninterpreted applications, sums, ...) with rational coefficients.  Integers
are mathematical integers, floats are mathematical reals.  Binders (sum, prod,
max, argmax) range over 0 <= v < n and are interned modulo renaming of their
bound variables."""
from fractions import Fraction
import itertools

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', 'poly')
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o
    # arithmetic sugar
    def __add__(a, b): return add(a, lift(b))
    def __radd__(a, b): return add(lift(b), a)
    def __sub__(a, b): return sub(a, lift(b))
    def __rsub__(a, b): return sub(lift(b), a)
    def __mul__(a, b): return mul(a, lift(b))
    def __rmul__(a, b): return mul(lift(b), a)
    def __truediv__(a, b): return div(a, lift(b))
    def __rtruediv__(a, b): return div(lift(b), a)
    def __neg__(a): return neg(a)
    def __ge__(a, b): return ge(a, lift(b))
    def __le__(a, b): return le(a, lift(b))
    def __gt__(a, b): return gt(a, lift(b))
    def __lt__(a, b): return lt(a, lift(b))
    def is_num(self): return self.op == 'num'
    @property
    def val(self): return self.args[0]

_table = {}
_byid = []
NOFV = frozenset()

def _mk(op, args, sort, fv):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.sort, t.id, t.fv = op, args, sort, len(_byid), fv
        t.poly = None
        _table[key] = t
        _byid.append(t)
    return t

def lift(x):
    if isinstance(x, T): return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, (int, Fraction)): return num(x)
    if isinstance(x, float): return num(Fraction(x))
    raise TypeError(x)

def _q(c):
    if type(c) is int: return c
    if c.denominator == 1: return int(c)
    return c

def num(c):
    c = _q(Fraction(c) if not isinstance(c, int) else c)
    t = _mk('num', (c,), 'Int' if isinstance(c, int) else 'Real', NOFV)
    return t

ZERO = num(0); ONE = num(1)
TRUE = _mk('true', (), 'Bool', NOFV)
FALSE = _mk('false', (), 'Bool', NOFV)

RANGE = {}     # var term -> extent term  (0 <= v < extent)
_fresh = itertools.count()

def var(name, sort='Int'):
    key = ('var', (name,), sort)
    t = _table.get(key)
    if t is None:
        t = _mk('var', (name,), sort, NOFV)
        t.fv = frozenset([t])
    return t

def fresh(prefix='i', extent=None, sort='Int'):
    v = var('%s$%d' % (prefix, next(_fresh)), sort)
    if extent is not None: RANGE[v] = lift(extent)
    return v

def _fvs(ts):
    s = NOFV
    for t in ts:
        if isinstance(t, T) and t.fv:
            s = s | t.fv if s else t.fv
    return s

def app(f, args, sort='Real'):
    args = tuple(lift(a) for a in args)
    # context-free simplifications of a few interpreted functions
    if f == 'exp' and args[0] is ZERO: return ONE
    if f == 'log' and args[0] is ONE: return ZERO
    if f == 'sqrt' and args[0].is_num() and args[0].val in (0, 1): return args[0]
    if f == 'trunc' and args[0].sort == 'Int': return args[0]
    return _mk('app', (f,) + args, sort, _fvs(args))

# ---------------------------------------------------------------- polynomials
def poly_of(t):
    """dict monomial -> coef ; monomial = tuple of (atom, exp) sorted by id"""
    if t.poly is None:
        if t.op == 'num': t.poly = {(): t.val} if t.val != 0 else {}
        elif t.op == 'poly': t.poly = dict(t.args)
        else: t.poly = {((t, 1),): 1}
    return t.poly

def _mono_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) + e
        if n == 0: del d[x]
        else: d[x] = n
    return tuple(sorted(d.items(), key=lambda p: p[0].id))

def from_poly(p):
    items = [(m, _q(c)) for m, c in p.items() if c != 0]
    if not items: return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == (): return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    if len(items) > 1: items.sort(key=_mid)
    key = ('poly', tuple(items))
    t = _polys.get(key)
    if t is not None: return t
    sort = 'Int'
    fv = NOFV
    for m, c in items:
        if type(c) is not int: sort = 'Real'
        for a, e in m:
            if a.sort != 'Int' or e < 0: sort = 'Real'
            fv = fv | a.fv
    t = _mk('poly', tuple(items), sort, fv)
    _polys[key] = t
    return t
_polys = {}
_mids = {}
def _mid(mc):
    m = mc[0]
    r = _mids.get(m)
    if r is None: r = _mids[m] = len(_mids)
    return r

def add(a, b):
    if a is ZERO: return b
    if b is ZERO: return a
    p = dict(poly_of(a))
    for m, c in poly_of(b).items():
        n = p.get(m, 0) + c
        if n == 0: p.pop(m, None)
        else: p[m] = n
    return from_poly(p)

def neg(a): return scale(a, -1)
def scale(a, k):
    if k == 0: return ZERO
    if k == 1: return a
    return from_poly({m: c * k for m, c in poly_of(a).items()})
def sub(a, b):
    if a is b: return ZERO
    return add(a, neg(b))

def mul(a, b):
    if a is ZERO or b is ZERO: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    if a.op == 'num': return scale(b, a.val)
    if b.op == 'num': return scale(a, b.val)
    p = {}
    again = False
    for m1, c1 in poly_of(a).items():
        for m2, c2 in poly_of(b).items():
            m = _mono_mul(m1, m2)
            n = p.get(m, 0) + c1 * c2
            if n == 0: p.pop(m, None)
            else: p[m] = n
    # sqrt(x)^2 = x   (x >= 0 is part of the contracts that use sqrt)
    for m in p:
        for x, e in m:
            if x.op == 'app' and x.args[0] == 'sqrt' and abs(e) >= 2: again = True
            if x.op == 'poly' and e > 0: again = True
    r = from_poly(p)
    if again: r = _renorm(r)
    return r

def _renorm(t):
    r = ZERO
    for m, c in poly_of(t).items():
        acc = num(c)
        rest = []
        for x, e in m:
            if x.op == 'app' and x.args[0] == 'sqrt' and abs(e) >= 2:
                k = e // 2 if e > 0 else -((-e) // 2)
                acc = mul(acc, power(x.args[1], k))
                e -= 2 * k
                if e: rest.append((x, e))
            elif x.op == 'poly' and e > 0:
                acc = mul(acc, power(x, e))
            else: rest.append((x, e))
        acc = mul(acc, from_poly({tuple(rest): 1})) if rest else acc
        r = add(r, acc)
    return r

def power(a, k):
    if k == 0: return ONE
    if k < 0: return inv(power(a, -k))
    r = a
    for _ in range(k - 1): r = mul(r, a)
    return r

def inv(a):
    if a.op == 'num':
        if a.val == 0: raise ZeroDivisionError
        return num(Fraction(1) / Fraction(a.val))
    p = poly_of(a)
    if len(p) == 1:
        (m, c), = p.items()
        r = from_poly({tuple((x, -e) for x, e in m): Fraction(1) / Fraction(c)})
        if any(x.op == 'poly' and e < 0 for x, e in m): r = _renorm(r)
        if any(x.op == 'app' and x.args[0] == 'sqrt' and abs(e) >= 2 for x, e in m): r = _renorm(r)
        return r
    # extract content so that k*p and p share an atom
    items = sorted(p.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    lead = items[0][1]
    prim = scale(a, Fraction(1) / Fraction(lead)) if lead != 1 else a
    # common monomial factor
    common = None
    for m in poly_of(prim):
        d = dict(m)
        if common is None: common = d
        else:
            common = {x: min(e, d.get(x, 0)) if e > 0 else max(e, d.get(x, 0)) for x, e in common.items()
                      if d.get(x, 0) != 0 and (d[x] > 0) == (e > 0)}
    if common:
        cm = tuple(sorted(((x, -e) for x, e in common.items()), key=lambda q: q[0].id))
        prim2 = mul(prim, from_poly({cm: 1}))
        rest = from_poly({cm: 1})
    else:
        prim2, rest = prim, ONE
    if len(poly_of(prim2)) == 1: return mul(mul(inv(prim2), rest), num(Fraction(1) / Fraction(lead)))
    atom = from_poly({((prim2, -1),): 1})
    return scale(mul(atom, rest), Fraction(1) / Fraction(lead)) if lead != 1 else mul(atom, rest)

def div(a, b):
    if b.op == 'num': return scale(a, Fraction(1) / Fraction(b.val))
    return mul(a, inv(b))

# ------------------------------------------------------------------- booleans
def _ite_cmp(p, cmp):
    """comparison of a conditional between two numbers: a condition on its guard (None: not of that form)"""
    its = poly_of(p)
    if len(its) > 2: return None
    a = c = None; k = 0
    for m, co in its.items():
        if m == (): k = co
        elif a is None and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite': a, c = m[0][0], co
        else: return None
    if a is None: return None
    g, x, y = a.args
    if x.op != 'num' or y.op != 'num': return None
    return ite(g, TRUE if cmp(c * x.val + k) else FALSE, TRUE if cmp(c * y.val + k) else FALSE)
def ge0(p):
    if p.op == 'num': return TRUE if p.val >= 0 else FALSE
    r = _ite_cmp(p, lambda v: v >= 0)
    if r is not None: return r
    p = _primitive(p, True)
    if p.op == 'num': return TRUE if p.val >= 0 else FALSE
    return _mk('ge0', (p,), 'Bool', p.fv)
def _primitive(p, floorconst):
    """divide by the (positive) content; integer polys also round the constant"""
    items = poly_of(p)
    from math import gcd
    nc = [c for m, c in items.items() if m != ()]
    if p.sort == 'Int':
        g = 0
        for c in nc: g = gcd(g, abs(int(c)))
        if g > 1:
            d = {m: c // g for m, c in items.items() if m != ()}
            c0 = items.get((), 0)
            if c0: d[()] = c0 // g if floorconst else Fraction(c0, g)
            return from_poly(d)
        return p
    lead = sorted(items.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    k = None
    for m, c in lead:
        if m != (): k = abs(c); break
    if k and k != 1: return scale(p, Fraction(1) / Fraction(k))
    return p
def gt0(p):
    if p.op == 'num': return TRUE if p.val > 0 else FALSE
    if p.sort == 'Int': return ge0(sub(p, ONE))
    r = _ite_cmp(p, lambda v: v > 0)
    if r is not None: return r
    p = _primitive(p, False)
    return _mk('gt0', (p,), 'Bool', p.fv)
def eq0(p):
    if p.op == 'num': return TRUE if p.val == 0 else FALSE
    r = _ite_cmp(p, lambda v: v == 0)
    if r is not None: return r
    items = sorted(poly_of(p).items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    lead = [c for m, c in items if m != ()][0]
    if p.sort == 'Int':
        from math import gcd
        g = 0
        for m, c in items:
            if m != (): g = gcd(g, abs(int(c)))
        c0 = poly_of(p).get((), 0)
        if c0 % g: return FALSE
        if lead < 0: g = -g
        if g != 1: p = from_poly({m: c // g for m, c in poly_of(p).items()})
    elif lead != 1:
        p = scale(p, Fraction(1) / Fraction(lead))
    return _mk('eq0', (p,), 'Bool', p.fv)
def ge(a, b): return ge0(sub(a, b))
def le(a, b): return ge0(sub(b, a))
def gt(a, b): return gt0(sub(a, b))
def lt(a, b): return gt0(sub(b, a))
def eq(a, b):
    a, b = lift(a), lift(b)
    if a.sort == 'Bool' or b.sort == 'Bool':
        if a is b: return TRUE
        return or_(and_(a, b), and_(not_(a), not_(b)))
    return eq0(sub(a, b))
def ne(a, b): return not_(eq(a, b))

def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'ge0': return gt0(neg(a.args[0]))
    if a.op == 'gt0': return ge0(neg(a.args[0]))
    if a.op == 'and': return or_(*[not_(x) for x in a.args])
    if a.op == 'or': return and_(*[not_(x) for x in a.args])
    return _mk('not', (a,), 'Bool', a.fv)

def and_(*xs):
    out = []
    seen = set()
    def go(x):
        if x is TRUE: return True
        if x is FALSE: return False
        if x.op == 'and':
            return all(go(y) for y in x.args)
        if x in seen: return True
        if not_(x) in seen: return False
        seen.add(x); out.append(x)
        return True
    for x in xs:
        if not go(lift(x)): return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return _mk('and', tuple(out), 'Bool', _fvs(out))

def or_(*xs):
    out = []
    seen = set()
    def go(x):
        if x is FALSE: return True
        if x is TRUE: return False
        if x.op == 'or': return all(go(y) for y in x.args)
        if x in seen: return True
        if not_(x) in seen: return False
        seen.add(x); out.append(x)
        return True
    for x in xs:
        if not go(lift(x)): return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return _mk('or', tuple(out), 'Bool', _fvs(out))

def implies(a, b): return or_(not_(a), b)
def conjuncts(c):
    if c is TRUE: return []
    return list(c.args) if c.op == 'and' else [c]

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'Bool':
        return or_(and_(c, a), and_(not_(c), b))
    # pick a canonical polarity
    n = not_(c)
    if n.id < c.id and n.op != 'or': c, a, b = n, b, a
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    sort = 'Int' if a.sort == 'Int' and b.sort == 'Int' else 'Real'
    return _mk('ite', (c, a, b), sort, c.fv | a.fv | b.fv)

# -------------------------------------------------------------- integer div/mod
PROVER = None   # set by prove.py: object with .ge0(poly)->bool under base facts

def divides(m, a):
    """exact polynomial quotient a/m for a monomial m (positive exps), or None"""
    mp = poly_of(m)
    if len(mp) != 1: return None
    (mm, mc), = mp.items()
    q = {}
    for k, c in poly_of(a).items():
        d = dict(k)
        for x, e in mm:
            if d.get(x, 0) < e: return None
            d[x] -= e
            if d[x] == 0: del d[x]
        nc = Fraction(c) / Fraction(mc)
        if nc.denominator != 1 and a.sort == 'Int': return None
        q[tuple(sorted(d.items(), key=lambda p: p[0].id))] = nc
    return from_poly(q)

def divmod_parts(a, m):
    """a = m*Q + R, Q collecting every monomial of a divisible by m"""
    mp = poly_of(m)
    if len(mp) != 1: return ZERO, a
    (mm, mc), = mp.items()
    if mc <= 0: return ZERO, a
    Q, R = {}, {}
    for k, c in poly_of(a).items():
        d = dict(k); ok = True
        for x, e in mm:
            if d.get(x, 0) < e: ok = False; break
        if ok and mc != 1 and mm == ():
            qc, rc = divmod(c, mc)
            if qc: Q[k] = qc
            if rc: R[k] = rc
            continue
        if ok and Fraction(c, mc).denominator == 1:
            for x, e in mm:
                d[x] -= e
                if d[x] == 0: del d[x]
            Q[tuple(sorted(d.items(), key=lambda p: p[0].id))] = Fraction(c, mc)
        else: R[k] = c
    return from_poly(Q), from_poly(R)

DEFS = {}    # (dividend, divisor) -> named quotient (introduced by a precondition)
def idiv(a, m):
    """floor division, m > 0"""
    a, m = lift(a), lift(m)
    if m is ONE: return a
    if a.op == 'num' and m.op == 'num': return num(a.val // m.val)
    if a is ZERO: return ZERO
    d = DEFS.get((a, m))
    if d is not None: return d
    Q, R = divmod_parts(a, m)
    if Q is not ZERO or True:
        if R is ZERO: return Q
        if PROVER and PROVER.in_range(R, m): return Q
        if Q is not ZERO: return add(Q, idiv(R, m))
    # (x idiv k) idiv m = x idiv (k*m)
    if a.op == 'idiv': return idiv(a.args[0], mul(a.args[1], m))
    return _mk('idiv', (a, m), 'Int', a.fv | m.fv)

def imod(a, m):
    a, m = lift(a), lift(m)
    if m is ONE: return ZERO
    if a.op == 'num' and m.op == 'num': return num(a.val % m.val)
    Q, R = divmod_parts(a, m)
    if R is ZERO: return ZERO
    if PROVER and PROVER.in_range(R, m): return R
    a = R
    return _mk('imod', (a, m), 'Int', a.fv | m.fv)

# -------------------------------------------------------------------- binders
_binders = {}

def key_of(t, env):
    if not (t.fv and any(v in env for v in t.fv)): return ('#', t.id)
    op = t.op
    if op == 'var': return ('b', env[t])
    if op == 'poly':
        return ('poly',) + tuple(sorted(((tuple(sorted(((key_of(a, env), e) for a, e in m), key=repr)), str(c)) for m, c in t.args), key=repr))
    if op in ('and', 'or'):
        return (op,) + tuple(sorted((key_of(x, env) for x in t.args), key=repr))
    if op in ('sum', 'max', 'min', 'argmax', 'argmin', 'prod'):
        vs, g, b = t.args
        e2 = dict(env)
        for i, (v, n) in enumerate(vs): e2[v] = ('in', len(env), i)
        return (op, tuple(key_of(n, env) for v, n in vs), key_of(g, e2), key_of(b, e2))
    return (op,) + tuple(key_of(x, env) if isinstance(x, T) else x for x in t.args)

def _binder(op, vs, guard, body, sort):
    """intern modulo alpha"""
    # group vars by extent, try all permutations inside a group
    vs = sorted(vs, key=lambda vn: vn[1].id)
    groups = [list(g) for _, g in itertools.groupby(vs, key=lambda vn: vn[1].id)]
    best = None
    nperm = 1
    for g in groups:
        for k in range(2, len(g) + 1): nperm *= k
    if nperm > 120: perms = [vs]
    else: perms = [[x for g in c for x in g] for c in itertools.product(*[list(itertools.permutations(g)) for g in groups])]
    for p in perms:
        env = {v: i for i, (v, n) in enumerate(p)}
        k = (op, tuple(n.id for v, n in p), key_of(guard, env), key_of(body, env))
        kr = repr(k)
        if best is None or kr < best[0]: best = (kr, p)
    kr, p = best
    t = _binders.get(kr)
    if t is None:
        bv = set(v for v, n in p)
        fv = (guard.fv | body.fv) - bv
        for v, n in p: fv = fv | n.fv
        t = _mk(op, (tuple(p), guard, body), sort, frozenset(fv))
        _binders[kr] = t
    return t

def mk_sum(vs, guard, body):
    """sum over vs=[(v,n)] with 0<=v<n and guard, of body"""
    return _norm_sum(list(vs), guard, body)

def _ite_atom(t, bv):
    """an ite (depending on bound vars) occurring as a factor of some monomial"""
    for m, c in poly_of(t).items():
        for x, e in m:
            if x.op == 'ite' and (x.args[0].fv & bv): return x
    return None

def _find_divmod(t, bv, acc):
    """collect idiv/imod subterms whose dividend is affine in one bound var"""
    if not (t.fv & bv): return
    if t.op in ('idiv', 'imod'):
        acc.append(t)
    if t.op == 'poly':
        for m, c in t.args:
            for a, e in m: _find_divmod(a, bv, acc)
    elif t.op in ('sum', 'max', 'min', 'argmax', 'argmin', 'prod'):
        vs, g, b = t.args
        _find_divmod(g, bv, acc); _find_divmod(b, bv, acc)
        for v, n in vs: _find_divmod(n, bv, acc)
    else:
        for x in t.args:
            if isinstance(x, T): _find_divmod(x, bv, acc)

def _norm_sum(vs, guard, body):
    if guard is FALSE or body is ZERO: return ZERO
    # trivial extents
    for i, (v, n) in enumerate(vs):
        if n is ONE:
            return _norm_sum(vs[:i] + vs[i+1:], subst(guard, {v: ZERO}), subst(body, {v: ZERO}))
        if n is ZERO: return ZERO
    if not vs:
        return ite(guard, body, ZERO)
    bv = frozenset(v for v, n in vs)
    # disjunctive guard: split on a disjunct
    if guard.op == 'or':
        a = guard.args[0]
        rest = or_(*guard.args[1:])
        return add(_norm_sum(vs, a, body), _norm_sum(vs, and_(not_(a), rest), body))
    if guard.op == 'and':
        for x in guard.args:
            if x.op == 'or':
                others = and_(*[y for y in guard.args if y is not x])
                a = x.args[0]; rest = or_(*x.args[1:])
                return add(_norm_sum(vs, and_(others, a), body), _norm_sum(vs, and_(others, not_(a), rest), body))
    # guard simplification with the prover
    if PROVER:
        g2 = PROVER.simplify_guard(guard, vs)
        if g2 is not guard: return _norm_sum(vs, g2, body)
        # equality elimination
        for c in conjuncts(guard):
            if c.op == 'eq0':
                pieces = PROVER.split_eq(c.args[0], conjuncts(guard))
                if pieces is not None and len(pieces) > 1:
                    g3 = and_(*[x for x in conjuncts(guard) if x is not c], *[eq0(p) for p in pieces])
                    return _norm_sum(vs, g3, body)
                cand = []
                for m, k in poly_of(c.args[0]).items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0] in bv and abs(k) == 1:
                        v = m[0][0]
                        rest = sub(c.args[0], scale(v, k))
                        if v not in rest.fv: cand.append((v, scale(rest, -k)))
                if cand:
                    cand.sort(key=lambda ve: (len(poly_of(ve[1])), dict(vs)[ve[0]].id))
                    v, e = cand[0]
                    n = dict(vs)[v]
                    vs2 = [(a, subst(b, {v: e})) for a, b in vs if a is not v]
                    g3 = and_(*[subst(x, {v: e}) for x in conjuncts(guard) if x is not c], ge0(e), gt(n, e))
                    return _norm_sum(vs2, g3, subst(body, {v: e}))
    # push ite into guard
    x = _ite_atom(body, bv)
    if x is not None:
        c, a, b = x.args
        r1 = replace_atom(body, x, a); r2 = replace_atom(body, x, b)
        return add(_norm_sum(vs, and_(guard, c), r1), _norm_sum(vs, and_(guard, not_(c)), r2))
    # split on idiv/imod
    acc = []
    _find_divmod(body, bv, acc); _find_divmod(guard, bv, acc)
    if acc:
        acc.sort(key=lambda t: sum(e for mm in poly_of(t.args[1]) for a, e in mm) if t.args[1].op != 'num' else 0)
        for d in acc:
            a, m = d.args
            p = poly_of(a)
            vv = [v for v in a.fv if v in bv]
            for v in vv:
                if p.get(((v, 1),)) == 1:
                    n = dict(vs)[v]
                    q = divides(m, n)
                    if q is not None:
                        hi, lo = fresh('s', q), fresh('s', m)
                        e = add(mul(hi, m), lo)
                        vs2 = [(x_, subst(n_, {v: e})) for x_, n_ in vs if x_ is not v] + [(hi, q), (lo, m)]
                        return _norm_sum(vs2, subst(guard, {v: e}), subst(body, {v: e}))
    # split into monomials, pull out invariant factors, flatten nested sums
    res = ZERO
    for m, c in poly_of(body).items():
        out, inn, nested = [], [], None
        for a, e in m:
            if a.fv & bv:
                if a.op == 'sum' and e == 1 and nested is None: nested = a
                else: inn.append((a, e))
            else: out.append((a, e))
        coef = scale(from_poly({tuple(out): 1}), c)
        inner = from_poly({tuple(inn): 1})
        if nested is not None:
            nvs, ng, nb = nested.args
            ren = {v: fresh('s', n) for v, n in nvs}
            sren = {}
            nvs2 = []
            for v, n in nvs:
                n2 = subst(n, sren); w = fresh('s', n2); sren[v] = w; nvs2.append((w, n2))
            t = _norm_sum(vs + nvs2, and_(guard, subst(ng, sren)), mul(inner, subst(nb, sren)))
        else:
            t = _final_sum(vs, guard, inner)
        res = add(res, mul(coef, t))
    return res

def _final_sum(vs, guard, body):
    used = guard.fv | body.fv
    coef = ONE
    keep = []
    for i, (v, n) in enumerate(vs):
        if v in used or any(v in n2.fv for _, n2 in vs): keep.append((v, n))
        else: coef = mul(coef, n)
    if not keep:
        return mul(coef, ite(guard, body, ZERO))
    # pull guards that do not depend on bound vars
    bv = frozenset(v for v, n in keep)
    gi, go = [], []
    for c in conjuncts(guard): (gi if c.fv & bv else go).append(c)
    t = _binder('sum', keep, and_(*gi), body, body.sort)
    if go: t = ite(and_(*go), t, ZERO)
    return mul(coef, t)

def replace_atom(t, x, r):
    """replace atom x by r where it occurs as a factor (with positive or negative power)"""
    res = ZERO
    for m, c in poly_of(t).items():
        d = dict(m)
        if x in d:
            e = d.pop(x)
            res = add(res, mul(from_poly({tuple(sorted(d.items(), key=lambda p: p[0].id)): c}), power(r, e)))
        else:
            res = add(res, from_poly({m: c}))
    return res

def mk_max(v, n, body, op='max', guard=None):
    guard = TRUE if guard is None else guard
    if n is ONE and guard is TRUE:
        return subst(body, {v: ZERO}) if op in ('max', 'min') else ZERO
    acc = []
    bv = frozenset([v])
    if v not in body.fv and op in ('max', 'min') and guard is TRUE: return body
    return _binder(op, [(v, n)], guard, body, body.sort if op in ('max', 'min') else 'Int')

def mk_prod(v, n, body):
    if v not in body.fv and n.op == 'num': return power(body, n.val)
    if n.op == 'num' and n.val <= 8:
        r = ONE
        for i in range(n.val): r = mul(r, subst(body, {v: num(i)}))
        return r
    return _binder('prod', [(v, n)], TRUE, body, body.sort)

# --------------------------------------------------------------- substitution
def subst(t, s):
    if not s: return t
    memo = {}
    return _subst(t, s, memo)

def _subst(t, s, memo):
    if not t.fv: return t
    hit = False
    for v in t.fv:
        if v in s: hit = True; break
    if not hit: return t
    r = memo.get(t)
    if r is not None: return r
    op = t.op
    if op == 'var': r = s[t]
    elif op == 'poly':
        r = ZERO
        for m, c in t.args:
            acc = num(c)
            keep = []
            for a, e in m:
                a2 = _subst(a, s, memo)
                if a2 is a: keep.append((a, e))
                else: acc = mul(acc, power(a2, e))
            if keep: acc = mul(acc, from_poly({tuple(keep): 1}))
            r = add(r, acc)
    elif op == 'app': r = app(t.args[0], [_subst(x, s, memo) for x in t.args[1:]], t.sort)
    elif op == 'ge0': r = ge0(_subst(t.args[0], s, memo))
    elif op == 'gt0': r = gt0(_subst(t.args[0], s, memo))
    elif op == 'eq0': r = eq0(_subst(t.args[0], s, memo))
    elif op == 'not': r = not_(_subst(t.args[0], s, memo))
    elif op == 'and': r = and_(*[_subst(x, s, memo) for x in t.args])
    elif op == 'or': r = or_(*[_subst(x, s, memo) for x in t.args])
    elif op == 'ite':
        c = _subst(t.args[0], s, memo)
        if c is TRUE: r = _subst(t.args[1], s, memo)
        elif c is FALSE: r = _subst(t.args[2], s, memo)
        else: r = ite(c, _subst(t.args[1], s, memo), _subst(t.args[2], s, memo))
    elif op == 'idiv': r = idiv(_subst(t.args[0], s, memo), _subst(t.args[1], s, memo))
    elif op == 'imod': r = imod(_subst(t.args[0], s, memo), _subst(t.args[1], s, memo))
    elif op in ('sum', 'max', 'min', 'argmax', 'argmin', 'prod'):
        vs, g, b = t.args
        s2 = dict(s); nvs = []
        for v, n in vs:
            n2 = _subst(n, s, {})
            n2 = subst(n, s2) if any(w in s2 for w in n.fv) else n
            if n2 is n:
                s2.pop(v, None); nvs.append((v, n))
            else:
                w = fresh('s', n2); s2[v] = w; nvs.append((w, n2))
        g2, b2 = subst(g, s2), subst(b, s2)
        if op == 'sum': r = mk_sum(nvs, g2, b2)
        elif op == 'prod': r = mk_prod(nvs[0][0], nvs[0][1], b2)
        else: r = mk_max(nvs[0][0], nvs[0][1], b2, op, g2)
    else:
        raise NotImplementedError(op)
    memo[t] = r
    return r

def map_atoms(t, f):
    """rebuild numeric/bool term replacing every maximal atom a (of numeric polys) by f(a) (or None to keep)"""
    op = t.op
    if op in ('num', 'true', 'false'): return t
    if op == 'poly':
        r = ZERO
        for m, c in t.args:
            acc = num(c)
            for a, e in m: acc = mul(acc, power(map_atoms(a, f), e))
            r = add(r, acc)
        return r
    if op == 'ge0': return ge0(map_atoms(t.args[0], f))
    if op == 'gt0': return gt0(map_atoms(t.args[0], f))
    if op == 'eq0': return eq0(map_atoms(t.args[0], f))
    if op == 'not': return not_(map_atoms(t.args[0], f))
    if op == 'and': return and_(*[map_atoms(x, f) for x in t.args])
    if op == 'or': return or_(*[map_atoms(x, f) for x in t.args])
    r = f(t)
    if r is not None: return r
    if op == 'var': return t
    if op == 'app': return app(t.args[0], [map_atoms(x, f) for x in t.args[1:]], t.sort)
    if op == 'ite': return ite(map_atoms(t.args[0], f), map_atoms(t.args[1], f), map_atoms(t.args[2], f))
    if op == 'idiv': return idiv(map_atoms(t.args[0], f), map_atoms(t.args[1], f))
    if op == 'imod': return imod(map_atoms(t.args[0], f), map_atoms(t.args[1], f))
    if op in ('sum', 'max', 'min', 'argmax', 'argmin', 'prod'):
        vs, g, b = t.args
        g2, b2 = map_atoms(g, f), map_atoms(b, f)
        nvs = [(v, map_atoms(n, f)) for v, n in vs]
        if g2 is g and b2 is b and all(a[1] is c[1] for a, c in zip(nvs, vs)): return t
        s = {}
        out = []
        for (v, n), (_, n0) in zip(nvs, vs):
            if n is n0: out.append((v, n))
            else:
                w = fresh('s', n); s[v] = w; out.append((w, n))
        g2, b2 = subst(g2, s), subst(b2, s)
        if op == 'sum': return mk_sum(out, g2, b2)
        if op == 'prod': return mk_prod(out[0][0], out[0][1], b2)
        return mk_max(out[0][0], out[0][1], b2, op, g2)
    raise NotImplementedError(op)

def atoms(t, pred, acc=None):
    """all subterms satisfying pred"""
    if acc is None: acc = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if pred(x): acc[x] = True
        if x.op == 'poly':
            for m, c in x.args:
                for a, e in m: st.append(a)
        elif x.op in ('sum', 'max', 'min', 'argmax', 'argmin', 'prod'):
            vs, g, b = x.args
            st.append(g); st.append(b)
            for v, n in vs: st.append(n)
        else:
            for y in x.args:
                if isinstance(y, T): st.append(y)
    return acc

# ----------------------------------------------------------------------- show
def show(t, d=0):
    if d > 12: return '...'
    op = t.op
    if op == 'num': return str(t.val)
    if op in ('true', 'false'): return op
    if op == 'var': return t.args[0]
    if op == 'app': return '%s(%s)' % (t.args[0], ', '.join(show(x, d+1) for x in t.args[1:]))
    if op == 'poly':
        out = []
        for m, c in t.args:
            fs = [show(a, d+1) if e == 1 else '%s^%d' % (show(a, d+1), e) for a, e in m]
            if c != 1 or not fs: fs.insert(0, str(c))
            out.append('*'.join(fs))
        return '(' + ' + '.join(out) + ')'
    if op == 'ge0': return '%s>=0' % show(t.args[0], d+1)
    if op == 'gt0': return '%s>0' % show(t.args[0], d+1)
    if op == 'eq0': return '%s==0' % show(t.args[0], d+1)
    if op == 'not': return '!(%s)' % show(t.args[0], d+1)
    if op == 'and': return '(' + ' && '.join(show(x, d+1) for x in t.args) + ')'
    if op == 'or': return '(' + ' || '.join(show(x, d+1) for x in t.args) + ')'
    if op == 'ite': return '(%s ? %s : %s)' % tuple(show(x, d+1) for x in t.args)
    if op in ('idiv', 'imod'): return '(%s %s %s)' % (show(t.args[0], d+1), '//' if op == 'idiv' else '%', show(t.args[1], d+1))
    if op in ('sum', 'max', 'min', 'argmax', 'argmin', 'prod'):
        vs, g, b = t.args
        return '%s{%s%s}(%s)' % (op, ', '.join('%s<%s' % (show(v), show(n, d+1)) for v, n in vs),
                                 '' if g is TRUE else ' | ' + show(g, d+1), show(b, d+1))
    return '%s%r' % (op, t.args)
def boolt(b): return TRUE if b else FALSE
