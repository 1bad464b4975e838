"""Back ends that discharge obligations: (1) positivity certificates obtained by
slack elimination, (2) Handelman certificates found by LP and re-checked in exact
arithmetic, (3) z3.  All reason from the base facts (preconditions), the path
condition and the ranges of bound variables."""
import time
from fractions import Fraction
from . import terms as tm
from .terms import *
import z3

class Stats:
    def __init__(self):
        self.z3_calls = 0; self.z3_s = 0.0; self.slack = 0; self.lp = 0; self.z3_ok = 0; self.trivial = 0
        self.norm = 0; self.digits = 0
STATS = Stats()

APPFACTS = {}    # function name -> f(args) -> list of bool facts about the application

_VD = {}
def subst_top(p, s):
    """substitute variables at the top level of the polynomial only"""
    r = ZERO
    for m, c in poly_of(p).items():
        acc = num(c)
        keep = []
        for a, e in m:
            if a in s and e > 0: acc = mul(acc, power(s[a], e))
            else: keep.append((a, e))
        if keep: acc = mul(acc, from_poly({tuple(keep): 1}))
        r = add(r, acc)
    return r

class Prover:
    def __init__(self):
        self.base = []
        self.path = []
        self.memo = {}
        self.depth = 0
        self.z3_timeout = 3000
        self.lp_on = True

    # ---- context
    def reset(self, base=()):
        self.base = list(base); self.path = []; self.memo = {}
    def assume(self, f):
        for c in conjuncts(f):
            if c is not TRUE: self.base.append(c)
        self.memo = {}
    class _Push:
        def __init__(self, p, fs): self.p, self.fs = p, fs
        def __enter__(self):
            self.save = self.p.path
            self.p.path = self.p.path + [c for f in self.fs for c in conjuncts(f) if c is not TRUE]
        def __exit__(self, *a):
            self.p.path = self.save
    def under(self, *fs): return Prover._Push(self, fs)

    # ---- facts
    def facts(self, extra=()):
        return self.base + self.path + list(extra)

    def relevant(self, t, extra=()):
        """poly facts f>=0 relevant to t, plus list of vars"""
        F = []
        seen_atoms = set(); work = []
        def push(x):
            for a in top_atoms(x):
                if a not in seen_atoms:
                    seen_atoms.add(a); work.append(a)
        push(t)
        fl = []
        for f in self.facts(extra):
            fl.append(f)
        # numeric facts from bools
        numeric = []
        for f in fl:
            if f.op == 'ge0': numeric.append(f.args[0])
            elif f.op == 'gt0':
                p = f.args[0]
                numeric.append(p)
            elif f.op == 'eq0': numeric.append(f.args[0]); numeric.append(neg(f.args[0]))
        used = set()
        own = []
        while True:
            while work:
                a = work.pop()
                for f in atom_facts(a):
                    if f.op == 'ge0':
                        own.append(f.args[0]); push(f.args[0])
            more = False
            for i, p in enumerate(numeric):
                if i in used: continue
                at = top_atoms(p)
                if at & seen_atoms:
                    used.add(i); more = True
                    push(p)
            if not more and not work: break
        return [numeric[i] for i in sorted(used)] + own

    # ---- entry
    def prove(self, b, extra=(), strong=True):
        if b is TRUE: return True
        if b is FALSE: return self.infeasible(extra) if strong else False
        key = (b, tuple(self.base[-1:]), len(self.base), tuple(self.path), tuple(extra), strong)
        r = self.memo.get(key)
        if r is not None: return r
        r = self._prove(b, extra, strong)
        self.memo[key] = r
        return r

    def _prove(self, b, extra, strong):
        if b in self.base or b in self.path or b in extra: return True
        if b.op == 'and': return all(self.prove(x, extra, strong) for x in b.args)
        if b.op == 'ge0':
            if self._ge0(b.args[0], extra): return True
        elif b.op == 'gt0':
            pass
        elif b.op == 'eq0':
            p = b.args[0]
            if p.sort == 'Int' and self._ge0(p, extra) and self._ge0(neg(p), extra): return True
        elif b.op == 'not' and b.args[0].op == 'eq0' and b.args[0].args[0].sort == 'Int':
            p = b.args[0].args[0]
            if self._ge0(sub(p, ONE), extra) or self._ge0(sub(neg(p), ONE), extra): return True
        elif b.op == 'or':
            for x in b.args:
                if self.prove(x, extra, False): return True
        if strong: return self._z3(b, extra)
        return False

    def infeasible(self, extra=()):
        return self._z3(FALSE, extra)

    def ge0(self, p, extra=(), strong=False):
        return self.prove(tm.ge0(p), extra, strong)
    def in_range(self, R, m, extra=()):
        if self.depth > 3: return False
        self.depth += 1
        try:
            return self.ge0(R, extra) and self.ge0(sub(sub(m, ONE), R), extra)
        finally:
            self.depth -= 1

    # ---- positivity
    def _ge0(self, p, extra):
        if p.op == 'num': return p.val >= 0
        if len(poly_of(p)) <= 4:
            for a in top_atoms(p):
                if a.op in ('idiv', 'imod'):
                    for f in atom_facts(a):
                        if f.op == 'ge0':
                            d = sub(p, f.args[0])
                            if d.op == 'num' and d.val >= 0: return True
        if p.sort == 'Int' and self._digits(p, extra):
            STATS.digits += 1
            return True
        F = self.relevant(p, extra)
        if len(F) <= 14 and len(poly_of(p)) <= 12 and self._slack(p, F):
            STATS.slack += 1
            return True
        if self.lp_on and len(poly_of(p)) <= 16 and self._lp(p, F):
            STATS.lp += 1
            return True
        return False

    # ---- digit bounding: eliminate ranged variables by monotonicity
    def lower_bounds(self):
        key = ('lb', len(self.base), tuple(self.path))
        r = self.memo.get(key)
        if r is not None: return r
        lb = {}
        for f in self.base + self.path:
            if f.op != 'ge0': continue
            pf = poly_of(f.args[0])
            ms = [m for m in pf if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and pf[ms[0]] > 0:
                a = ms[0][0][0]
                c = Fraction(-pf.get((), 0)) / Fraction(pf[ms[0]])
                import math
                c = math.ceil(c)
                if a not in lb or lb[a] < c: lb[a] = c
        self.memo[key] = lb
        return lb

    def _digits(self, p, extra):
        lb = self.lower_bounds()
        facts = [f.args[0] for f in self.path + list(extra) + self.base if f.op == 'ge0']
        if self._bound(p, lb, 0): return True
        # change of variables through two-sided facts 0 <= e <= n-1
        subs = self._virtual(p, facts)
        if subs:
            q = p
            for v, e in subs: q = subst(q, {v: e})
            if q is not p and self._bound(q, lb, 0): return True
        return False

    def _virtual(self, p, facts):
        out = []
        used = set()
        pv = [a for a in p.fv if a in RANGE]
        if not pv: return out
        fs = set(facts)
        for e in facts:
            cand = [v for v in e.fv if v in RANGE and v in p.fv and abs(poly_of(e).get(((v, 1),), 0)) == 1]
            if not cand or len(poly_of(e)) < 2: continue
            for f in facts:
                if f is e: continue
                n1 = add(e, f)            # (e) + (n-1-e) = n-1
                if any(v in n1.fv for v in cand) or n1.op == 'num': continue
                if any(v in RANGE for v in n1.fv): continue
                for v in cand:
                    if v in used: continue
                    k = poly_of(e)[((v, 1),)]
                    rest = sub(e, scale(v, k))
                    if v in rest.fv: continue
                    R = self._vdigit(e, add(n1, ONE))
                    out.append((v, scale(sub(R, rest), k)))
                    used.add(v)
                    break
                break
        return out
    def _vdigit(self, e, n):
        key = ('vd', e, n)
        r = _VD.get(key)
        if r is None: r = _VD[key] = fresh('R', n)
        return r

    def _bound(self, p, lb, d):
        """p >= 0 by substituting extreme values of ranged variables"""
        if d > 40: return False
        vs = [v for v in top_atoms(p) if v.op == 'var' and v in RANGE]
        if vs:
            # a variable that no extent of another candidate mentions is eliminated first
            vs.sort(key=lambda v: -v.id)
            for v in vs:
                if any(v in RANGE[w].fv for w in vs if w is not v): continue
                A, B = {}, {}
                ok = True
                for m, c in poly_of(p).items():
                    dm = dict(m)
                    if v in dm:
                        if dm[v] != 1: ok = False; break
                        del dm[v]
                        A[tuple(sorted(dm.items(), key=lambda q: q[0].id))] = c
                    else: B[m] = c
                if not ok: continue
                A, B = from_poly(A), from_poly(B)
                if v in A.fv or v in B.fv: continue
                if self._bound(A, lb, d + 1): return self._bound(B, lb, d + 1)
                if self._bound(neg(A), lb, d + 1): return self._bound(add(B, mul(A, sub(RANGE[v], ONE))), lb, d + 1)
            return False
        # only dims left: shift by lower bounds
        s = {}
        for a in top_atoms(p):
            if a.op != 'var' and a not in lb:
                if a.op in ('idiv', 'imod', 'app', 'ite', 'sum', 'argmax', 'argmin', 'max', 'min', 'prod'):
                    if not any(f.op == 'ge0' and f.args[0] is a for f in atom_facts(a)): return False
                    continue
                return False
            c = lb.get(a)
            if c is None: return False
            if c != 0 and a.op == 'var': s[a] = add(a, num(c))
        q = subst_top(p, s)
        for m, c in poly_of(q).items():
            if c < 0: return False
            for a, e in m:
                if e < 0 and not (a in lb and lb[a] > 0): return False
        return True

    def _slack(self, p, F):
        n = len(F)
        orders = [F, list(reversed(F))]
        # upper-bound style facts first (they involve extents)
        orders.append(sorted(F, key=lambda f: -len(poly_of(f))))
        orders.append(sorted(F, key=lambda f: len(poly_of(f))))
        for o in orders:
            if self._slack1(p, o): return True
        return False

    def _slack1(self, p, F):
        # eliminate variables through slacks
        nonneg = set()
        for f in F:
            pf = poly_of(f)
            # plain lower bounds:  x - c >= 0, c >= 0
            if all(len(m) <= 1 and (not m or m[0][1] == 1) for m in pf) :
                xs = [m for m in pf if m]
                if len(xs) == 1 and pf[xs[0]] > 0 and pf.get((), 0) <= 0:
                    nonneg.add(xs[0][0][0])
        lb = {}
        cur = p
        slacks = set()
        done = set()
        sub_map = {}
        for f in F:
            g = f
            g = apply_elims(g, sub_map)
            pg = poly_of(g)
            if not pg: continue
            # candidate to eliminate: prefer negative coefficient (upper bounds) on index var => solve for extent
            best = None
            for m, c in pg.items():
                if c == 1 and m and all(e == 1 for a, e in m) and all(a not in slacks for a, e in m):
                    # solve monomial m (may be a product = extent) := slack - rest, if m's atoms do not occur elsewhere in g
                    rest = sub(g, from_poly({m: 1}))
                    if any(a in rest.fv or a in top_atoms(rest) for a, e in m): continue
                    k = (len(m) == 1, len(m))
                    if best is None or (len(m) > len(best[0])): best = (m, rest)
            if best is None: continue
            m, rest = best
            if not rest.fv and rest.op == 'num' and rest.val == 0: continue   # x >= 0 : nothing to do
            s = fresh('k')
            slacks.add(s)
            val = sub(s, rest)
            if mentions_mono(cur, m) or any(mentions_mono(v, m) for v in [cur]):
                c2 = repl_mono(cur, m, val)
                if c2 is None: continue
                cur = c2
                sub_map[m] = val
                if all_nonneg(cur, nonneg, slacks): return True
        return all_nonneg(cur, nonneg, slacks)

    def _lp(self, p, F):
        import numpy as np
        from scipy.optimize import linprog
        F = [f for f in F if f.op != 'num'][:16]
        if not F: return False
        for deg in (1, 2):
            prods = list(F)
            if deg == 2:
                if len(F) > 12: F = F[:12]
                prods = list(F)
                for i in range(len(F)):
                    for j in range(i, len(F)): prods.append(mul(F[i], F[j]))
            monos = {}
            pp = poly_of(p)
            for m in pp: monos.setdefault(m, len(monos))
            cols = []
            for q in prods:
                cols.append(poly_of(q))
                for m in poly_of(q): monos.setdefault(m, len(monos))
            monos.setdefault((), len(monos))
            A = np.zeros((len(monos), len(prods) + 1)); b = np.zeros(len(monos))
            for j, q in enumerate(cols):
                for m, c in q.items(): A[monos[m], j] = float(c)
            A[monos[()], len(prods)] = 1.0
            for m, c in pp.items(): b[monos[m]] = float(c)
            # quick reject: a monomial of p absent from all products
            try:
                r = linprog(np.ones(len(prods) + 1), A_eq=A, b_eq=b, bounds=[(0, None)] * (len(prods) + 1), method='highs')
            except Exception:
                return False
            if r.status == 0:
                lam = [Fraction(float(x)).limit_denominator(1000) if x > 1e-9 else Fraction(0) for x in r.x]
                acc = p
                for l, q in zip(lam, prods):
                    if l > 0: acc = sub(acc, scale(q, l))
                if acc.op == 'num' and acc.val >= 0: return True
        return False

    # ---- equations
    def split_eq(self, p, facts=(), _d=0):
        """p == 0  <=>  all pieces == 0 (mixed radix lemma); None if nothing can be split"""
        key = ('split', p, tuple(facts), len(self.base), tuple(self.path))
        if key in self.memo: return self.memo[key]
        extra = [f for f in facts if f.op != 'eq0']
        r = self._split(p, extra, 0)
        self.memo[key] = r
        return r

    def _split(self, p, extra, d):
        if d > 6 or p.op == 'num': return [p]
        if p.sort != 'Int': return [p]
        cands = {}
        for m in poly_of(p):
            if sum(e for a, e in m) < 2: continue
            for i in range(len(m)):
                x, e = m[i]
                mm = list(m)
                if e == 1: mm.pop(i)
                else: mm[i] = (x, e - 1)
                if mm: cands[tuple(mm)] = True
        for m, c in poly_of(p).items():   # numeric radices
            if len(m) == 1 and abs(c) > 1: cands[('num', abs(c))] = True
        lst = []
        for m in cands:
            t = num(m[1]) if m and m[0] == 'num' else from_poly({m: 1})
            lst.append((sum(e for a, e in m) if not (m and m[0] == 'num') else 0, t.id, t))
        lst.sort(key=lambda x: x[:2])
        for _, _, m in lst:
            Q, R = divmod_sym(p, m)
            if Q is ZERO: continue
            if R is ZERO:
                if self.ge0(sub(m, ONE), extra): return self._split(Q, extra, d + 1)
                continue
            if self.ge0(sub(sub(m, ONE), R), extra) and self.ge0(add(sub(m, ONE), R), extra):
                return self._split(Q, extra, d + 1) + self._split(R, extra, d + 1)
        return [p]

    def simplify_guard(self, g, vs=()):
        cs = conjuncts(g)
        if not cs: return g
        key = ('sg', g, len(self.base), tuple(self.path))
        r = self.memo.get(key)
        if r is not None: return r
        if self.depth > 3: return g
        self.depth += 1
        try:
            keep = list(cs)
            changed = False
            for c in list(cs):
                others = [x for x in keep if x is not c]
                if self.prove(c, tuple(others), False):
                    keep = others; changed = True
                elif self.prove(not_(c), tuple(others), False):
                    self.memo[key] = FALSE
                    return FALSE
            r = and_(*keep) if changed else g
            self.memo[key] = r
            return r
        finally:
            self.depth -= 1

    # ---- z3
    def _z3(self, b, extra, timeout=None):
        t0 = time.time()
        STATS.z3_calls += 1
        tr = Z3Tr()
        s = z3.Solver()
        s.set('timeout', timeout or self.z3_timeout)
        seen = set()
        goal = tr.b(b)
        fs = [tr.b(f) for f in self.facts(extra)]
        # facts about atoms (ranges, div/mod, registered app facts)
        done = set()
        more = True
        side = []
        while more:
            more = False
            for a in list(tr.atoms):
                if a in done: continue
                done.add(a); more = True
                for f in atom_facts(a): side.append(tr.b(f))
        s.add(*fs); s.add(*side); s.add(z3.Not(goal))
        r = s.check()
        STATS.z3_s += time.time() - t0
        if r == z3.unsat:
            STATS.z3_ok += 1
            return True
        return False

    def refute(self, b, extra=(), timeout=2000):
        """a z3 model of facts and not b, or None (used only to steer counterexample search)"""
        tr = Z3Tr(); s = z3.Solver(); s.set('timeout', timeout)
        goal = tr.b(b); fs = [tr.b(f) for f in self.facts(extra)]
        side = []; done = set(); more = True
        while more:
            more = False
            for a in list(tr.atoms):
                if a in done: continue
                done.add(a); more = True
                for f in atom_facts(a): side.append(tr.b(f))
        s.add(*fs); s.add(*side); s.add(z3.Not(goal))
        if s.check() == z3.sat: return s.model(), tr
        return None

def top_atoms(p):
    s = set()
    for m in poly_of(p):
        for a, e in m: s.add(a)
    return s

def atom_facts(a):
    out = []
    if a.op == 'var' and a in RANGE:
        n = RANGE[a]
        out.append(tm.ge0(a)); out.append(tm.ge0(sub(sub(n, ONE), a)))
    elif a.op == 'idiv':
        x, m = a.args
        out.append(tm.ge0(sub(x, mul(a, m)))); out.append(tm.ge0(sub(add(mul(a, m), sub(m, ONE)), x)))
        if x.op == 'var' and x in RANGE:
            out.append(tm.ge0(a))
            q = tm.divides(m, RANGE[x])
            if q is not None: out.append(tm.ge0(sub(sub(q, ONE), a)))
        elif PROV.depth < 2:
            PROV.depth += 1
            try:
                if PROV.prove(tm.ge0(x), (), False) : out.append(tm.ge0(a))
            finally: PROV.depth -= 1
    elif a.op == 'imod':
        x, m = a.args
        out.append(tm.ge0(a)); out.append(tm.ge0(sub(sub(m, ONE), a)))
        q = idiv(x, m)
        out.append(eq0(sub(x, add(mul(q, m), a))))
    elif a.op == 'app':
        f = APPFACTS.get(a.args[0])
        if f: out.extend(f(*a.args[1:]))
        if a.args[0] == 'exp': out.append(tm.gt0(a))
        elif a.args[0] == 'sqrt':
            out.append(tm.ge0(a))
            if a.args[1].op == 'num' and a.args[1].val >= 0: out.append(eq0(sub(mul(a, a), a.args[1])))
    elif a.op == 'prod' and PROV.depth < 2:
        PROV.depth += 1
        try:
            b = a.args[2]
            if PROV.prove(tm.ge0(sub(b, ONE)), (), False): out.append(tm.ge0(sub(a, ONE)))
            elif PROV.prove(tm.ge0(b), (), False): out.append(tm.ge0(a))
        finally: PROV.depth -= 1
    elif a.op in ('argmax', 'argmin'):
        vs, g, b = a.args
        if g is TRUE:
            out.append(tm.ge0(a)); out.append(tm.ge0(sub(sub(vs[0][1], ONE), a)))
    return out

def divmod_sym(p, m):
    """p = m*Q + R with numeric radix support (symmetric)"""
    if m.op == 'num':
        k = int(m.val)
        Q, R = {}, {}
        for mo, c in poly_of(p).items():
            if mo != () and c % k == 0: Q[mo] = c // k
            elif mo == ():
                q = int(round(Fraction(c, k))); 
                if q: Q[mo] = q
                if c - q * k: R[mo] = c - q * k
            else: R[mo] = c
        return from_poly(Q), from_poly(R)
    return divmod_parts(p, m)

def mentions_mono(p, m):
    d = dict(m)
    for mo in poly_of(p):
        e = dict(mo)
        if all(e.get(a, 0) >= k for a, k in d.items()): return True
    return False

def repl_mono(p, m, val):
    """replace the product m by val; None if some atom of m still occurs outside the product"""
    single = len(m) == 1
    r = ZERO
    d = dict(m)
    for mo, c in poly_of(p).items():
        e = dict(mo)
        k = min((e.get(a, 0) // x for a, x in d.items()))
        if k <= 0:
            r = add(r, from_poly({mo: c})); continue
        for a, x in d.items():
            e[a] -= k * x
            if e[a] == 0: del e[a]
        r = add(r, mul(from_poly({tuple(sorted(e.items(), key=lambda q: q[0].id)): c}), power(val, k)))
    return r

def apply_elims(p, sm):
    for m, v in sm.items():
        if mentions_mono(p, m): p = repl_mono(p, m, v)
    return p

def all_nonneg(p, nonneg, slacks):
    for m, c in poly_of(p).items():
        if c < 0: return False
        for a, e in m:
            if e % 2 == 0: continue
            if a in slacks or a in nonneg: continue
            return False
    return True

class Z3Tr:
    def __init__(self):
        self.atoms = {}
        self.cache = {}
        self.funcs = {}
    def const(self, t):
        z = self.atoms.get(t)
        if z is None:
            nm = 't%d' % t.id
            z = {'Int': z3.Int, 'Real': z3.Real, 'Bool': z3.Bool}[t.sort](nm)
            self.atoms[t] = z
        return z
    def n(self, t):
        r = self.cache.get(t)
        if r is not None: return r
        r = self._n(t)
        self.cache[t] = r
        return r
    def _n(self, t):
        if t.op == 'num':
            return z3.IntVal(t.val) if isinstance(t.val, int) else z3.RealVal(str(t.val))
        if t.op == 'poly':
            acc = None
            for m, c in t.args:
                term = None
                den = None
                for a, e in m:
                    za = self.n(a)
                    for _ in range(abs(e)):
                        if e > 0: term = za if term is None else term * za
                        else: den = za if den is None else den * za
                if term is None: term = z3.IntVal(1) if t.sort == 'Int' else z3.RealVal(1)
                if c != 1: term = (z3.IntVal(c) if isinstance(c, int) else z3.RealVal(str(c))) * term
                if den is not None:
                    if term.is_int(): term = z3.ToReal(term)
                    if den.is_int(): den = z3.ToReal(den)
                    term = term / den
                acc = term if acc is None else acc + term
            return acc
        if t.op == 'ite':
            return z3.If(self.b(t.args[0]), self.n(t.args[1]), self.n(t.args[2]))
        if t.op == 'app' and len(t.args) > 1:
            args = [self.n(x) for x in t.args[1:]]
            key = (t.args[0], tuple(a.sort() for a in args), t.sort)
            f = self.funcs.get(key)
            if f is None:
                rs = {'Int': z3.IntSort(), 'Real': z3.RealSort(), 'Bool': z3.BoolSort()}[t.sort]
                f = z3.Function('f%d_%s' % (len(self.funcs), t.args[0]), *([a.sort() for a in args] + [rs]))
                self.funcs[key] = f
            r = f(*args)
            self.atoms.setdefault(t, r)
            return r
        return self.const(t)
    def b(self, t):
        r = self.cache.get(t)
        if r is not None: return r
        op = t.op
        if op == 'true': r = z3.BoolVal(True)
        elif op == 'false': r = z3.BoolVal(False)
        elif op == 'ge0': r = self.n(t.args[0]) >= 0
        elif op == 'gt0': r = self.n(t.args[0]) > 0
        elif op == 'eq0': r = self.n(t.args[0]) == 0
        elif op == 'not': r = z3.Not(self.b(t.args[0]))
        elif op == 'and': r = z3.And(*[self.b(x) for x in t.args])
        elif op == 'or': r = z3.Or(*[self.b(x) for x in t.args])
        elif op == 'app' and len(t.args) > 1: r = self._n(t)
        else: r = self.const(t)
        self.cache[t] = r
        return r

PROV = Prover()
tm.PROVER = PROV
