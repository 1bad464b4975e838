"""Symbolic memory: regions (one per allocation) holding an ordered log of
quantified updates, and the read-over-write resolution."""
import itertools
from .terms import *
from . import terms as tm
from .prove import PROV

class Unsupported(Exception):
    """construct outside the verifier's reach (never a verdict about the code)"""

class CppThrow(Exception):
    def __init__(self, what): self.what = what

class DeadPath(Exception):
    """the current path condition is unsatisfiable"""

class Region:
    __slots__ = ('rid', 'name', 'size', 'sort', 'base', 'arity', 'freed', 'fam', 'grow')
    def __init__(self, rid, name, size, sort, base, arity=1):
        self.rid, self.name, self.size, self.sort, self.base, self.arity = rid, name, size, sort, base, arity
        self.freed, self.fam, self.grow = None, False, False

class QU:
    """quantified update: for all vars in range with guard: mem[idx] (=|+=|:=unknown) val"""
    __slots__ = ('vs', 'guard', 'idx', 'val', 'kind', 'line', 'loops')
    def __init__(self, vs, guard, idx, val, kind, line=None):
        self.vs, self.guard, self.idx, self.val, self.kind, self.line = tuple(vs), guard, tuple(idx), val, kind, line
    def map(self, f):
        return QU([(v, f(n)) for v, n in self.vs], f(self.guard), [f(i) for i in self.idx], f(self.val) if self.val is not None else None, self.kind, self.line)
    def __repr__(self):
        return 'QU[%s | %s] m[%s] %s %s' % (','.join('%s<%s' % (v, n) for v, n in self.vs), self.guard, ', '.join(map(repr, self.idx)),
               {'set': '=', 'add': '+=', 'havoc': ':=?'}[self.kind], self.val)

class Mark:
    __slots__ = ('loop',)
    def __init__(self, loop): self.loop = loop
    def __repr__(self): return 'Mark(%s)' % self.loop

def rename_vs(vs, terms, avoid=None):
    """fresh copies of bound vars; returns new vs and substituted terms"""
    s = {}
    out = []
    for v, n in vs:
        n2 = subst(n, s)
        w = fresh('u', n2)
        s[v] = w
        out.append((w, n2))
    return out, [subst(t, s) if t is not None else None for t in terms]

def solve_eqs(eqs, unknowns, facts=()):
    """solve idx equations for the unknown bound vars.
    returns (sol dict, leftover conditions) or None when some unknown stays undetermined"""
    unknowns = list(unknowns)
    sol = {}
    conds = []
    work = []
    for e in eqs:
        if e is ZERO: continue
        if e.op == 'num': return 'no'
        ps = PROV.split_eq(e, facts)
        work.extend(ps if ps else [e])
    steps = 0
    while work:
        steps += 1
        if steps > 200: return None
        # choose the equation that is easiest: one unknown, unit coefficient
        best = None
        for k, e in enumerate(work):
            if e.op == 'num':
                if e.val != 0: return 'no'
                best = ('drop', k); break
            us = [u for u in unknowns if u in e.fv and u not in sol]
            if not us:
                best = ('cond', k); break
        if best is None:
            cand = []
            for k, e in enumerate(work):
                us = [u for u in unknowns if u in e.fv and u not in sol]
                for u in us:
                    c = poly_of(e).get(((u, 1),))
                    if c in (1, -1):
                        rest = sub(e, scale(u, c))
                        if u in rest.fv: continue
                        others = [w for w in us if w in rest.fv]
                        if not others:
                            cand.append((0, k, u, scale(rest, -c)))
            if cand:
                cand.sort(key=lambda x: (x[0], x[1], x[2].id))
                _, k, u, val = cand[0]
                best = ('sol', k, u, val)
        if best is None:
            # peel a digit
            done = False
            for k, e in enumerate(work):
                us = [u for u in unknowns if u in e.fv and u not in sol]
                lhs = {}; rhs = {}
                for m, c in poly_of(e).items():
                    dep = any((a.fv & frozenset(us)) for a, x in m)
                    (lhs if dep else rhs)[m] = c
                L = from_poly(lhs); R = neg(from_poly(rhs))
                pl = poly_of(L)
                if all(c < 0 for c in pl.values()): L, R = neg(L), neg(R)
                cands = []
                for m, c in poly_of(L).items():
                    mu = [(a, x) for a, x in m if not (a.fv & frozenset(us))]
                    coef = mul(num(c), from_poly({tuple(mu): 1})) if mu else num(c)
                    if coef.op == 'num' and coef.val <= 1: continue
                    cands.append(coef)
                cands.sort(key=lambda t: (sum(x for mm in poly_of(t) for a, x in mm), t.id))
                for m in cands:
                    Q, Rm = divmod_parts(L, m)
                    if Q is ZERO: continue
                    if not PROV.in_range(Rm, m): continue
                    work.pop(k)
                    work.append(sub(Q, idiv(R, m)))
                    if Rm is not ZERO: work.append(sub(Rm, imod(R, m)))
                    else:
                        r = imod(R, m)
                        if r is not ZERO: conds.append(eq0(r))
                    done = True
                    break
                if done: break
            if not done: return None
            continue
        if best[0] == 'drop': work.pop(best[1]); continue
        if best[0] == 'cond':
            conds.append(eq0(work.pop(best[1]))); continue
        _, k, u, val = best
        work.pop(k)
        sol[u] = val
        work = [subst(e, {u: val}) for e in work]
        nw = []
        for e in work:
            if e is ZERO: continue
            nw.append(e)
        work = nw
    if any(u not in sol for u in unknowns): return None
    # close the substitution
    for _ in range(len(sol)):
        for u in sol: sol[u] = subst(sol[u], {w: x for w, x in sol.items() if w is not u})
    return sol, conds

def match_set(q, idx, facts=()):
    """condition under which a 'set' update hits idx, and the value it stores there"""
    vs, rest = q.vs, [q.guard, q.val] + list(q.idx)
    bv = frozenset(v for v, n in vs)
    if bv and any(i.fv & bv for i in idx):
        vs, rest = rename_vs(vs, rest)
    guard, val, qidx = rest[0], rest[1], rest[2:]
    eqs = [sub(a, b) for a, b in zip(qidx, idx)]
    if not vs:
        c = TRUE
        for e in eqs:
            ps = PROV.split_eq(e, facts) or [e]
            for p in ps: c = and_(c, eq0(p))
        return and_(c, guard), val
    r = solve_eqs(eqs, [v for v, n in vs], facts)
    if r == 'no': return FALSE, val
    if r is None: return None
    sol, conds = r
    c = and_(*conds)
    for v, n in vs:
        e = sol[v]
        c = and_(c, ge0(e), gt(subst(n, sol), e))
    c = and_(c, subst(guard, sol))
    return c, subst(val, sol)

def simp(c, strong=False):
    """drop conjuncts provable in the current context; FALSE if one is refutable"""
    if c is TRUE or c is FALSE: return c
    if c.op == 'and':
        keep = list(c.args)
        for x in list(c.args):
            others = [y for y in keep if y is not x]
            if PROV.prove(x, tuple(others), strong): keep = others
            elif PROV.prove(not_(x), tuple(others), strong): return FALSE
        return and_(*keep)
    if PROV.prove(c, (), strong): return TRUE
    if PROV.prove(not_(c), (), strong): return FALSE
    return c

def disjoint(q, vs_idx, extra_guard=TRUE):
    """prove that update q and access (vs, guard, idx) never touch the same element"""
    vs2, g2, idx2 = vs_idx
    nv, rest = rename_vs(q.vs, [q.guard] + list(q.idx))
    g1, idx1 = rest[0], rest[1:]
    facts = conjuncts(and_(g1, g2, extra_guard))
    cond = TRUE
    eqs = []
    for a, b in zip(idx1, idx2):
        e = sub(a, b)
        ps = PROV.split_eq(e, tuple(f for f in facts if f.op != 'eq0')) or [e]
        eqs += [eq0(p) for p in ps]
    c = and_(*eqs)
    if c is FALSE: return True
    for e in eqs:
        if PROV.prove(not_(e), tuple(facts), False): return True
    return PROV.prove(FALSE, tuple(facts) + tuple(conjuncts(c)), True)
