"""Postconditions: equality of terms modulo the theory of the term algebra, and
refutation of what does not hold by evaluating both sides on small valuations."""
import itertools, math, random, hashlib
from .terms import *
from . import terms as tm
from .prove import PROV, STATS, APPFACTS
from .natives import RAND
from .mem import simp

BIND = ('sum', 'max', 'min', 'argmax', 'argmin', 'prod')

# ------------------------------------------------------------ normalisation
def norm(t, strong=False):
    memo = {}
    def go(t):
        op = t.op
        if op in ('num', 'true', 'false', 'var'): return t
        key = (t, tuple(PROV.path))
        r = memo.get(key)
        if r is not None: return r
        if op == 'poly':
            r = ZERO
            for m, c in t.args:
                acc = num(c)
                for a, e in m: acc = mul(acc, power(go(a), e))
                r = add(r, acc)
        elif op in ('ge0', 'gt0', 'eq0'):
            r = {'ge0': ge0, 'gt0': gt0, 'eq0': eq0}[op](go(t.args[0]))
        elif op == 'not': r = not_(go(t.args[0]))
        elif op == 'and': r = and_(*[go(x) for x in t.args])
        elif op == 'or': r = or_(*[go(x) for x in t.args])
        elif op == 'app': r = app(t.args[0], [go(x) for x in t.args[1:]], t.sort)
        elif op == 'ite':
            c = go(t.args[0])
            c = simp(c, strong)
            if c is TRUE: r = go(t.args[1])
            elif c is FALSE: r = go(t.args[2])
            else:
                with PROV.under(c): a = go(t.args[1])
                with PROV.under(not_(c)): b = go(t.args[2])
                r = ite(c, a, b)
        elif op == 'idiv': r = idiv(go(t.args[0]), go(t.args[1]))
        elif op == 'imod': r = imod(go(t.args[0]), go(t.args[1]))
        elif op in BIND:
            vs, g, b = t.args
            nvs = [(v, go(n)) for v, n in vs]
            s = {}; out = []
            for (v, n), (_, n0) in zip(nvs, vs):
                if n is n0: out.append((v, n))
                else:
                    w = fresh('s', n); s[v] = w; out.append((w, n))
            g, b = subst(g, s), subst(b, s)
            g2 = go(g)
            with PROV.under(g2): b2 = go(b)
            if op == 'sum': r = mk_sum(out, g2, b2)
            elif op == 'prod': r = mk_prod(out[0][0], out[0][1], b2)
            else: r = mk_max(out[0][0], out[0][1], b2, op, g2)
        else: r = t
        memo[key] = r
        return r
    return go(t)


def merge_radix(t):
    """sum over (r<R, s<S) of f(S*r+s)  =  sum over k<R*S of f(k)"""
    def f(a):
        if a.op != 'sum': return None
        vs, g, b = a.args
        b = map_atoms(b, f); g = map_atoms(g, f)
        vs = list(vs)
        changed = True
        while changed:
            changed = False
            for (r, R), (s, S) in itertools.permutations(vs, 2):
                if r in S.fv or s in R.fv: continue
                if any(r in n.fv or s in n.fv for v, n in vs if v is not r and v is not s): continue
                k = fresh('k', mul(R, S))
                e = sub(k, mul(S, r))
                b2, g2 = subst(b, {s: e}), subst(g, {s: e})
                if r in b2.fv or r in g2.fv or s in b2.fv: continue
                vs = [(v, n) for v, n in vs if v is not r and v is not s] + [(k, mul(R, S))]
                b, g = b2, g2
                changed = True
                break
        return mk_sum(vs, g, b)
    return map_atoms(t, f)

def conds_of(t, acc):
    """conditions of ites that occur outside binders"""
    if t.op == 'poly':
        for m, c in t.args:
            for a, e in m: conds_of(a, acc)
    elif t.op == 'ite':
        for c in cond_leaves(t.args[0]): acc[c] = True
        conds_of(t.args[1], acc); conds_of(t.args[2], acc)
    elif t.op in ('app', 'ge0', 'gt0', 'eq0', 'not', 'and', 'or', 'idiv', 'imod'):
        for x in t.args:
            if isinstance(x, T): conds_of(x, acc)
    return acc
def cond_leaves(c):
    if c.op in ('and', 'or', 'not'):
        out = []
        for x in c.args: out += cond_leaves(x)
        return out
    return [c]

def assume_in(t, c, val):
    """replace condition c by a boolean constant inside ite conditions"""
    tv = TRUE if val else FALSE
    memo = {}
    def go(t):
        if t is c: return tv
        if t.op in ('num', 'true', 'false', 'var'): return t
        r = memo.get(t)
        if r is not None: return r
        op = t.op
        if op == 'poly':
            r = ZERO
            for m, k in t.args:
                acc = num(k)
                for a, e in m: acc = mul(acc, power(go(a), e))
                r = add(r, acc)
        elif op == 'ite':
            cc = go(t.args[0])
            r = go(t.args[1]) if cc is TRUE else go(t.args[2]) if cc is FALSE else ite(cc, go(t.args[1]), go(t.args[2]))
        elif op == 'not':
            x = go(t.args[0]); r = not_(x)
        elif op == 'and': r = and_(*[go(x) for x in t.args])
        elif op == 'or': r = or_(*[go(x) for x in t.args])
        elif op == 'app': r = app(t.args[0], [go(x) for x in t.args[1:]], t.sort)
        else: r = t
        memo[t] = r
        return r
    return go(t)

def eq_subst():
    """substitution var -> term read off the equations among the facts in force"""
    out = {}
    for f in PROV.base + PROV.path:
        for c in conjuncts(f):
            if c.op != 'eq0': continue
            d = subst(c.args[0], out) if out else c.args[0]
            p = poly_of(d)
            if not p: continue
            # divide by the common factors (each proved positive)
            common = None
            for m in p:
                s = {a: e for a, e in m if e > 0}
                common = s if common is None else {a: min(e, s[a]) for a, e in common.items() if a in s}
            for a, e in (common or {}).items():
                if PROV.prove(gt0(a)): d = mul(d, power(a, -e))
            p = poly_of(d)
            for m, k in p.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'var' and k in (1, -1):
                    v = m[0][0]
                    rest = sub(mul(num(k), v), d) if k == 1 else add(d, v)
                    if v in rest.fv or v in RANGE: continue
                    out = {w: subst(t, {v: rest}) for w, t in out.items()}
                    out[v] = rest
                    break
    return out

def solve_var(d):
    """v -> term from d = 0 when a variable occurs linearly with coefficient +-1 and nowhere else"""
    p = poly_of(d)
    for m, k in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'var' and k in (1, -1):
            v = m[0][0]
            rest = sub(mul(num(k), v), d) if k == 1 else add(d, v)
            if v not in rest.fv: return {v: rest}
    return None

def equal(a, b, depth=0, budget=None):
    """prove a == b in the current context"""
    if depth == 0 and a.sort != 'Bool' and b.sort != 'Bool':
        es = eq_subst()
        if es:
            ren = {}
            for t in (a, b):
                for v in t.fv:
                    n = RANGE.get(v)
                    if n is not None and any(w in n.fv for w in es) and v not in ren: ren[v] = fresh('e', subst(n, es))
            es = {**ren, **es}
            a, b = subst(a, es), subst(b, es)
    if a is b: STATS.norm += 1; return True
    if budget is None: budget = [200]
    if a.sort == 'Bool' or b.sort == 'Bool':
        return PROV.prove(implies(a, b), (), True) and PROV.prove(implies(b, a), (), True)
    d = sub(a, b)
    if d is ZERO: STATS.norm += 1; return True
    d = norm(d)
    if d is ZERO: STATS.norm += 1; return True
    d = norm(merge_radix(d))
    if d is ZERO: STATS.norm += 1; return True
    d = at_arg(d)
    if d is ZERO: STATS.norm += 1; return True
    return zero(d, depth, budget)

def zero(d, depth=0, budget=None):
    if budget is None: budget = [200]
    budget[0] -= 1
    if budget[0] < 0: return False
    d = norm(d)
    if d is ZERO: return True
    if d.op == 'num': return False
    # pair binders that differ only in provably equal parts
    d2 = unify_binders(d, depth, budget)
    if d2 is not d:
        if d2 is ZERO: return True
        return zero(d2, depth, budget)
    # case split
    cs = conds_of(d, {})
    if cs and depth < 12:
        c = min(cs, key=lambda x: (len(repr(x)), x.id))
        ok = True
        for val in (True, False):
            f = c if val else not_(c)
            with PROV.under(f):
                e = assume_in(d, c, val)
                if e is ZERO: continue
                if val and c.op == 'eq0':
                    x = solve_var(c.args[0])
                    if x: e = norm(subst(e, x))
                    if e is ZERO: continue
                if PROV.infeasible(): continue
                if not zero(e, depth + 1, budget): ok = False; break
        return ok
    e = peel_prods(d)
    if e is not d: return e is ZERO or zero(e, depth + 1, budget)
    # clear denominators
    e = clear_den(d)
    if e is not None and e is not d:
        if e is ZERO: return True
        if zero(e, depth + 1, budget): return True
    if PROV._z3(eq0(d), ()): return True
    return False

def at_arg(d):
    """f(argmax f) is max f (of a non-empty range)"""
    for m in list(atoms(d, lambda a: a.op in ('argmax', 'argmin') and a.args[1] is TRUE)):
        (v, n), = m.args[0]; b = m.args[2]
        if m.fv - d.fv or not PROV.prove(ge0(sub(n, ONE)), (), True): continue
        x = subst(b, {v: m}); y = norm(x)
        d = map_atoms(d, lambda a: mk_max(v, n, b, m.op[3:]) if a is x or a is y else None)
    return d

def peel_prods(d):
    """an empty product is 1; a product with one more factor than another one present unfolds"""
    ps = list(atoms(d, lambda a: a.op == 'prod'))
    if not ps: return d
    for p in ps:
        if not (p.fv - d.fv) and PROV.prove(ge0(neg(p.args[0][0][1])), (), True): return map_atoms(d, lambda a: ONE if a is p else None)
    for p in ps:
        for q in ps:
            (v, m), (w, k) = p.args[0][0], q.args[0][0]
            if sub(m, k) is ONE and not (p.fv - d.fv) and PROV.prove(ge0(k), (), True):
                x = mul(mk_prod(v, k, p.args[2]), subst(p.args[2], {v: k}))
                return map_atoms(d, lambda a: x if a is p else None)
    return d

def clear_den(d):
    """multiply by the denominators (each is non-zero where the code divides by it)"""
    dens = {}
    for m in poly_of(d):
        for a, e in m:
            if e < 0: dens[a] = max(dens.get(a, 0), -e)
    polys = {a: k for a, k in dens.items() if a.op == 'poly'}
    if not polys: return None
    # add d + e = n/p + m : bring the summands over the compound denominators
    r = ZERO
    for m, c in poly_of(d).items():
        dm = dict(m)
        acc = num(c)
        for a, k in polys.items():
            e = dm.pop(a, 0)
            acc = mul(acc, power(a, k + e))
        r = add(r, mul(acc, from_poly({tuple(sorted(dm.items(), key=lambda q: q[0].id)): 1})) if dm else acc)
    return r

def binders_in(t, acc):
    if t.op in BIND: acc[t] = True
    elif t.op == 'poly':
        for m, c in t.args:
            for a, e in m: binders_in(a, acc)
    elif t.op in ('app', 'ite', 'ge0', 'gt0', 'eq0', 'not', 'and', 'or', 'idiv', 'imod'):
        for x in t.args:
            if isinstance(x, T): binders_in(x, acc)
    return acc

def unify_binders(d, depth, budget):
    bs = list(binders_in(d, {}))
    if len(bs) < 2 or depth > 6: return d
    for i, x in enumerate(bs):
        for y in bs[i+1:]:
            if x.op != y.op or len(x.args[0]) != len(y.args[0]): continue
            key = ('uni', x, y, len(PROV.base), tuple(PROV.path))
            if key not in PROV.memo: PROV.memo[key] = same_binder(x, y, depth, budget)
            if PROV.memo[key]:
                return norm(map_atoms(d, lambda a: y if a is x else None))
    return d

def same_binder(x, y, depth, budget):
    xv, xg, xb = x.args; yv, yg, yb = y.args
    n = 0
    def candidates():
        for perm in itertools.permutations(range(len(yv))): yield perm, False
        if len(yv) == 1 and x.op in ('sum', 'prod'): yield (0,), True          # the same terms in reverse order
    for perm, rev in candidates():
        n += 1
        if n > 24: return False
        s = {}; ok = True
        for (v, m), j in zip(xv, perm):
            w, k = yv[j]
            if not (m is k or PROV.prove(eq(m, k), (), True)): ok = False; break
            s[w] = sub(sub(m, ONE), v) if rev else v
        if not ok: continue
        # capture-free: x's variables do not occur in y
        ren = {w: fresh('s', k) for w, k in yv}
        g2, b2 = subst(subst(yg, ren), {ren[w]: v for w, v in s.items()}), subst(subst(yb, ren), {ren[w]: v for w, v in s.items()})
        if g2 is not xg:
            # positions of maxima inside the guards: the same when their bodies are
            inner = lambda g: list(atoms(g, lambda a: a.op in ('argmax', 'argmin', 'max', 'min')))
            xi = inner(xg)
            for a in inner(g2) if depth < 6 else ():
                if a in xi: continue
                q = next((b for b in xi if b.op == a.op and same_binder(b, a, depth + 1, budget)), None)
                if q is not None: g2, b2 = (map_atoms(z, lambda c: q if c is a else None) for z in (g2, b2))
        if x.op == 'sum':
            if not (g2 is xg or (PROV.prove(xg, tuple(conjuncts(g2)), True) and PROV.prove(g2, tuple(conjuncts(xg)), True))): continue
        elif g2 is not xg and not (PROV.prove(xg, tuple(conjuncts(g2)), True) and PROV.prove(g2, tuple(conjuncts(xg)), True)): continue
        with PROV.under(xg):
            if equal(xb, b2, depth + 1, budget): return True
    return False

# ----------------------------------------------------------------- evaluation
class Undefined(Exception): pass

class Ev:
    """evaluate terms under a valuation of the free variables; uninterpreted
    functions get pseudo-random values (gens overrides per function name)"""
    def __init__(self, env, seed, gens=None):
        self.env = dict(env); self.seed = seed; self.gens = gens or {}
        self.fn = {}
        self.checking = set()
        self.steps = 0; self.reals = ()
    def val(self, name, args):
        k = (name, args)
        r = self.fn.get(k)
        if r is None:
            h = hashlib.md5(repr((self.seed, name, args)).encode()).digest()
            g = self.gens.get(name)
            rnd = int.from_bytes(h[:6], 'big')
            if g is not None: r = g(random.Random(rnd), *args)
            elif self.reals and rnd % 3 == 0: r = self.reals[(rnd >> 8) % len(self.reals)] + ((rnd >> 20) % 3 - 1) * 0.125
            else: r = ((rnd % 41) - 20) / 8.0
            self.fn[k] = r
        return r
    def ev(self, t):
        self.steps += 1
        if self.steps > 400000: raise Undefined('too large')
        op = t.op
        if op == 'num': return t.val if isinstance(t.val, int) else float(t.val)
        if op == 'var':
            if t in self.env: return self.env[t]
            if t.sort == 'Real':
                self.env[t] = self.val('$' + t.args[0], ()) if t.args[0] != 'INF' else 1e30
                return self.env[t]
            raise Undefined('free variable %s' % t)
        if op == 'poly':
            r = 0
            for m, c in t.args:
                x = c if isinstance(c, int) else float(c)
                for a, e in m:
                    v = self.ev(a)
                    if e < 0 and v == 0: raise Undefined('division by zero')
                    x = x * (v if e == 1 else v ** e)
                r = r + x
            return r
        if op == 'app':
            f = t.args[0]
            args = [self.ev(x) for x in t.args[1:]]
            if f == 'exp':
                if args[0] > 300: raise Undefined('exp')
                return math.exp(args[0])
            if f == 'log':
                if args[0] <= 0: raise Undefined('log')
                return math.log(args[0])
            if f == 'sqrt':
                if args[0] < 0: raise Undefined('sqrt')
                return math.sqrt(args[0])
            if f == 'pow':
                try: r = args[0] ** args[1]
                except Exception: raise Undefined('pow')
                if isinstance(r, complex): raise Undefined('pow')
                return r
            if f == 'trunc': return int(args[0])
            if f == 'tdiv':
                if args[1] == 0: raise Undefined('div')
                q = abs(args[0]) // abs(args[1])
                return q if (args[0] >= 0) == (args[1] > 0) else -q
            if f in RAND:
                vs, lo, hi, so = RAND[f]
                key = (f, tuple(args))
                if key not in self.fn:
                    sb = dict(zip(vs, t.args[1:]))
                    l, h = self.ev(subst(lo, sb)), self.ev(subst(hi, sb))
                    u = int.from_bytes(hashlib.md5(repr((self.seed, key)).encode()).digest()[:4], 'big') % 9
                    self.fn[key] = l if u == 0 else h if u == 8 else (int(l + (h - l + 1) * u / 9) if so == 'Int' else l + (h - l) * u / 8)
                return self.fn[key]
            if f in APPFACTS and f not in self.checking:
                # a valuation that breaks an assumed fact is not a counterexample
                self.checking.add(f)
                try:
                    for q in APPFACTS[f](*t.args[1:]):
                        if not self.ev(q): raise Undefined('assumed fact')
                finally: self.checking.discard(f)
            r = self.val(f, tuple(round(a, 9) if isinstance(a, float) else a for a in args))
            if t.sort == 'Bool': return bool(int(r * 8) % 2)
            if t.sort == 'Int' and isinstance(r, float): r = int(r) if r == int(r) and f in self.gens else int(r * 8) % 6 - 1
            return r
        if op == 'true': return True
        if op == 'false': return False
        if op == 'ge0': return self.ev(t.args[0]) >= 0
        if op == 'gt0': return self.ev(t.args[0]) > 0
        if op == 'eq0': return self.ev(t.args[0]) == 0
        if op == 'not': return not self.ev(t.args[0])
        if op == 'and': return all(self.ev(x) for x in t.args)
        if op == 'or': return any(self.ev(x) for x in t.args)
        if op == 'ite': return self.ev(t.args[1]) if self.ev(t.args[0]) else self.ev(t.args[2])
        if op in ('idiv', 'imod'):
            a, b = self.ev(t.args[0]), self.ev(t.args[1])
            if b <= 0: raise Undefined('divisor')
            return a // b if op == 'idiv' else a % b
        if op in BIND:
            vs, g, b = t.args
            save = {v: self.env.get(v) for v, n in vs}
            out = []
            def rec(i):
                if i == len(vs):
                    if self.ev(g): out.append((tuple(self.env[v] for v, n in vs), self.ev(b)))
                    return
                v, n = vs[i]
                for k in range(int(self.ev(n))):
                    self.env[v] = k
                    rec(i + 1)
            rec(0)
            for v, x in save.items():
                if x is None: self.env.pop(v, None)
                else: self.env[v] = x
            if op == 'sum': return sum(x for _, x in out)
            if op == 'prod':
                r = 1
                for _, x in out: r *= x
                return r
            if not out: raise Undefined('empty')
            if op == 'max': return max(x for _, x in out)
            if op == 'min': return min(x for _, x in out)
            best = out[0]
            for o in out[1:]:
                if (o[1] > best[1]) if op == 'argmax' else (o[1] < best[1]): best = o
            return best[0][0]
        raise Undefined(op)

def free_dims(ts):
    s = set()
    for t in ts: s |= t.fv
    return s

def consts_of(ts, acc=None):
    """numerals occurring in the terms (thresholds worth trying)"""
    acc = set() if acc is None else acc
    seen = set()
    def go(t):
        if t in seen: return
        seen.add(t)
        if t.op == 'num': acc.add(t.val)
        elif t.op == 'poly':
            for m, c in t.args:
                acc.add(abs(c))
                for a, e in m: go(a)
        elif t.op in BIND:
            for v, n in t.args[0]: go(n)
            go(t.args[1]); go(t.args[2])
        else:
            for x in t.args:
                if isinstance(x, T): go(x)
    for t in ts: go(t)
    return acc

def dim_models(facts, extra=()):
    """small valuations of the integer variables satisfying the facts (z3, used only to steer the search)"""
    import z3
    from .prove import Z3Tr, atom_facts
    out = []
    for cap in (3, 7, 20, 100, 1000):
        try:
            tr = Z3Tr(); s = z3.Solver(); s.set('timeout', 2000)
            fs = [tr.b(f) for f in list(facts) + list(extra)]
            side = []; done = set(); more = True
            while more:
                more = False
                for a in list(tr.atoms):
                    if a in done: continue
                    done.add(a); more = True
                    for f in atom_facts(a): side.append(tr.b(f))
            s.add(*fs); s.add(*side)
            ints = [a for a in tr.atoms if a.op == 'var' and a.sort == 'Int']
            for a in ints: s.add(tr.n(a) <= cap, tr.n(a) >= -cap)
            if s.check() == z3.sat:
                m = s.model()
                out.append({a: m.eval(tr.n(a), model_completion=True).as_long() for a in ints})
        except Exception: continue
        if len(out) >= 2: break
    return out

def sample(rng, ts, facts, hi=4, gens=None, defs=(), model=None, consts=()):
    """a valuation of the integer variables of ts and facts, or None"""
    vs = free_dims(list(ts) + list(facts))
    for E, a, m in defs: vs |= a.fv | m.fv
    named = {E for E, a, m in defs}
    # close under ranges
    work = list(vs)
    while work:
        v = work.pop()
        n = RANGE.get(v)
        if n is not None:
            for w in n.fv:
                if w not in vs: vs.add(w); work.append(w)
    env = {}
    dims = sorted((v for v in vs if v not in RANGE and v.sort == 'Int' and v not in named), key=lambda v: v.args[0])
    extra = [c for c in consts]
    negs = set()
    lower = set()
    for f in facts:
        if f.op == 'ge0':
            p = poly_of(f.args[0])
            ms = [m for m in p if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and p[ms[0]] > 0: lower.add(ms[0][0][0])
    negs = {v for v in dims if v not in lower}
    for v in dims:
        if model is not None and v in model and rng.random() < 0.85: env[v] = model[v]
        elif extra and rng.random() < 0.15: env[v] = max(0, rng.choice(extra) + rng.choice((-1, 0, 0, 1)))
        elif v in negs and rng.random() < 0.4: env[v] = rng.choice([-1, -1, -2, -3, 0])
        else: env[v] = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 0, hi])
    ev = Ev(env, rng.random(), gens)
    try:
        for E, a, m in defs:
            x, y = ev.ev(a), ev.ev(m)
            if y < 1 or x < 0: return None
            ev.env[E] = x // y + 1
        rv = sorted((v for v in vs if v in RANGE), key=lambda v: v.id)
        for _ in range(len(rv) + 1):
            for v in rv:
                if v in ev.env: continue
                try: n = ev.ev(RANGE[v])
                except Undefined: continue
                if n < 1: return None
                if model is not None and v in model and model[v] < n and rng.random() < 0.5: ev.env[v] = model[v]
                else: ev.env[v] = rng.randrange(int(n))
        for v in rv:
            if v not in ev.env: return None
        for f in facts:
            if not ev.ev(f): return None
    except Undefined: return None
    return ev

def refute(code, spec, defs=(), gens=None, tries=3000, want=1, seed=1):
    """a valuation on which the two terms differ (both defined), or None"""
    rng = random.Random(seed)
    facts = PROV.base + PROV.path
    cs = consts_of([code] + facts)
    ints = sorted(c for c in cs if isinstance(c, int) and 2 < c <= 64)
    reals = sorted(float(c) for c in cs if abs(c) < 1e6)
    good = 0
    models = None
    import time
    t0 = time.time()
    for k in range(tries):
        if time.time() - t0 > 20: break
        if k > 200 and good < 3 and models is None:
            models = dim_models(facts, [not_(code)] if code.sort == 'Bool' and spec is TRUE else [])
            models += dim_models(facts, [ge0(sub(RANGE[v], ONE)) for v in (code.fv | spec.fv) if v in RANGE])
            models += dim_models(facts)
        model = models[k % (len(models) + 1)] if models and k % (len(models) + 1) < len(models) else None
        ev = sample(rng, [code, spec], facts, gens=gens, defs=defs, model=model, consts=ints)
        if ev is None: continue
        ev.reals = reals if rng.random() < 0.3 else ()
        try:
            ev.steps = 0
            x, y = ev.ev(code), ev.ev(spec)
        except Undefined: continue
        good += 1
        if isinstance(x, bool) or isinstance(y, bool): bad = bool(x) != bool(y)
        else: bad = abs(x - y) > 1e-6 * (1 + abs(x) + abs(y))
        if bad:
            return {'valuation': {repr(v): ev.env[v] for v in ev.env if v.sort == 'Int' and (v in spec.fv or v in code.fv or v not in RANGE)},
                    'code': x, 'spec': y}
        if good > 400: break
    return None

def refute_bool(c, defs=(), gens=None, tries=3000, seed=1):
    return refute(c, TRUE, defs, gens, tries, seed=seed)
