"""Building blocks of the proof harnesses: symbolic tensors created through the
real constructors, calls into the real functions, postcondition obligations."""
import time
from .terms import *
from . import terms as tm
from .prove import PROV, STATS, APPFACTS
from .mem import *
from . import exec as X
from . import spec as SP
from .exec import *

class H:
    def __init__(self, prog):
        self.prog = prog
        self.ex = Exec(prog)
        PROV.reset([])
        tm.DEFS.clear()
        self.defs = []
        self.gens = {}
        self.pre_sat = None
        self.bounded = []
        self.ex.h = self
    # ------------------------------------------------------- preconditions
    def dim(self, name, lo=1):
        v = var(name)
        PROV.assume(ge0(sub(v, num(lo))))
        return v
    def assume(self, *fs):
        for f in fs: PROV.assume(f)
    def out_extent(self, a, m, name):
        """name E = a div m + 1 (a >= 0, m >= 1): m*(E-1) <= a <= m*(E-1) + m-1"""
        E = var(name)
        tm.DEFS[(a, m)] = sub(E, ONE)
        self.defs.append((E, a, m))
        PROV.assume(and_(ge0(sub(E, ONE)), ge0(sub(a, mul(m, sub(E, ONE)))), ge0(sub(add(mul(m, sub(E, ONE)), sub(m, ONE)), a))))
        return E
    def satisfiable(self):
        """vacuity guard: a concrete valuation satisfies the precondition"""
        import random
        rng = random.Random(7)
        for k in range(400):
            if SP.sample(rng, [], PROV.base, gens=self.gens, defs=self.defs) is not None: return True
        ms = SP.dim_models(PROV.base)
        return bool(ms)
    # ------------------------------------------------------ postconditions
    def post_eq(self, name, code, want):
        try: ok = SP.equal(code, want)
        except Unsupported: raise
        cex = None
        if not ok: cex = SP.refute(code, want, self.defs, self.gens)
        self.ex.record_post(name, ok, cex, code, want)
        return ok
    def post(self, name, c):
        ok = PROV.prove(c, (), True) or PROV.prove(SP.norm(c), (), True)
        cex = None
        if not ok: cex = SP.refute_bool(c, self.defs, self.gens)
        self.ex.record_post(name, ok, cex, c, TRUE)
        return ok
    # ------------------------------------------------------------- objects
    def seq(self, items, et='int'):
        return self.ex.new_obj(Seq(et, [lift(i) if not isinstance(i, (tuple,)) and not hasattr(i, 'key') else i for i in items]))
    def arr2(self, a, b): return self.ex.new_obj(Seq('int', [lift(a), lift(b)], True))
    def fn(self, q, n=None, pred=None):
        c = [f for f in self.prog.by_q.get(q, []) if f.get('body') is not None and (n is None or len(f['params']) == n) and (pred is None or pred(f))]
        if not c: raise Unsupported('function %s not found' % q)
        return c[0]
    def call(self, q, args, this=None, n=None, pred=None):
        return self.ex.call_fn(self.fn(q, n, pred), args, this)
    def method(self, loc, name, args):
        """virtual call of a method by name on a class object"""
        o = self.ex.obj(loc)
        cls = o.cls
        seen = [cls]
        while seen:
            c = seen.pop(0)
            rec = self.ex.record_of(c)
            if rec is None: continue
            for g in self.prog.by_q.get(rec['q'] + '::' + name, []):
                if g.get('body') is not None and len(g['params']) == len(args) and g.get('cls') in (None, rec['t']):
                    return self.ex.call_fn(g, args, loc)
            for b in rec.get('bases', []): seen.append(b if isinstance(b, str) else b.get('t', ''))
        raise Unsupported('method %s of %s' % (name, cls))
    # ------------------------------------------------------------- tensors
    def tensor(self, shape, name=None):
        """a Tensor of the given shape built by Tensor(const Shape&); contents arbitrary (symbol `name`)"""
        rec = self.ex.record_of('deepworks::Tensor')
        loc = self.ex.alloc_rec(rec)
        sh = self.seq(shape)
        ctor = self.fn('deepworks::Tensor::Tensor', 1, lambda f: 'std::vector' in f['pt'][0] or 'Shape' in f['pt'][0])
        self.ex.call_fn(ctor, [sh], loc)
        if name: self.havoc(loc, name)
        return loc
    def data(self, t): return self.ex.rvalue(self.method(t, 'data', []))
    def total(self, t): return self.ex.rvalue(self.method(t, 'total', []))
    def shape(self, t):
        o = self.ex.obj(self.method(t, 'shape', []))
        return o
    def havoc(self, t, name, total=None):
        """replace the contents by arbitrary values name(0..total-1)"""
        p = self.data(t)
        if not isinstance(p, Ptr): return
        n = total if total is not None else self.total(t)
        i = fresh('x', n)
        self.ex.write(p.rid, p.pre + (add(p.off, i),), app(name, (i,)), vs=[(i, n)])
    def at(self, t, idx):
        """element at flat index idx"""
        p = self.data(t)
        return self.ex.read(p.rid, p.pre + (add(p.off, idx),))
    def frame(self, tensors):
        """snapshot of the storage of caller-owned tensors: [(name, tensor)]"""
        out = []
        for name, t in tensors:
            p = self.data(t)
            if isinstance(p, Ptr): out.append((name, t, p, self.total(t), self.ex.st.r[p.rid]))
        return out
    def post_frame(self, what, snap, upto=None):
        for name, t, p, n, log in snap:
            cur = self.data(t)
            if not (isinstance(cur, Ptr) and cur.rid == p.rid and cur.off is p.off and cur.pre == p.pre): self.post('%s keeps the storage of %s' % (what, name), FALSE); continue
            if self.ex.st.r[p.rid] is log: self.post('%s leaves %s unchanged' % (what, name), TRUE); continue
            i = fresh('i', n)
            idx = p.pre + (add(p.off, i),)
            self.post_eq('%s leaves %s unchanged' % (what, name), self.ex.read(p.rid, idx), self.ex.read(p.rid, idx, log))
    def new_tensor_obj(self):
        return self.ex.default_value('deepworks::Tensor')
    # -------------------------------------------------------------- layers
    def placeholder(self, shape):
        ctor = self.fn('deepworks::Placeholder::Placeholder', 1, lambda f: 'vector' in f['pt'][0])
        loc = self.ex.alloc_rec(self.ex.record_of('deepworks::Placeholder'))
        self.ex.call_fn(ctor, [self.seq(shape)], loc)
        return loc
    def op(self, cls, args):
        """construct deepworks::<cls>(args..., name)"""
        q = 'deepworks::' + cls
        rec = self.ex.record_of(q)
        if rec is None: raise Unsupported('class ' + q)
        loc = self.ex.alloc_rec(rec)
        ctor = self.fn(q + '::' + cls, len(args) + 1)
        self.ex.call_fn(ctor, list(args) + [Str('layer')], loc)
        return loc
    def apply_op(self, op, ins):
        """op(Placeholders) -> output placeholder"""
        v = self.ex.new_obj(Seq('deepworks::Placeholder', ins))
        cls = tname(self.ex.obj(op).cls)
        c = []
        for q in ('deepworks::BaseOp::operator()', 'deepworks::LayerInfo::operator()'):
            c += [f for f in self.prog.by_q.get(q, []) if f.get('body') is not None and f.get('cls', '').endswith('<%s>' % cls) and 'vector' in f['pt'][0]]
        if not c: raise Unsupported('BaseOp::operator() for ' + cls)
        return self.ex.call_fn(c[0], [v], op)
    def deref_sp(self, v): return self.ex.deref(self.ex.rvalue(v))
    def layer(self, cls, args, in_shapes):
        """(ICPULayer object, LayerInfo location, output placeholder)"""
        op = self.op(cls, args)
        out = self.apply_op(op, [self.placeholder(s) for s in in_shapes])
        rec = 'm_info'
        info = self.ex.obj(op).f[rec]
        cp = self.ex.copy_obj(info)
        sp = self.ex.rvalue(self.call('deepworks::cpu::ICPULayer::create', [cp]))
        return self.ex.deref(sp), info, out
    def param(self, info, name):
        m = self.method(info, 'params', [])
        n = self.ex.natives.get('std::unordered_map::at')
        return n(self.ex, {}, {}, [m, Str(name)])
    def buffer(self, info, name):
        m = self.method(info, 'buffers', [])
        n = self.ex.natives.get('std::unordered_map::at')
        return n(self.ex, {}, {}, [m, Str(name)])
    def pdata(self, info, name): return self.method(self.param(info, name), 'data', [])
    def pgrad(self, info, name): return self.method(self.param(info, name), 'grad', [])
    def tvec(self, ts): return self.ex.new_obj(Seq('deepworks::Tensor', ts))
    def run(self, fn, expect_throw=False):
        self.pre_sat = self.pre_sat is not False and self.satisfiable()
        self.ex.expect_throw = expect_throw
        self.results = self.ex.explore(fn)
        return self.results
    def post_shape(self, name, ph, dims):
        self._shape_post(name, self.ex.obj(self.method(ph, 'shape', [])), dims)
    def post_tshape(self, name, t, dims):
        self._shape_post(name, self.shape(t), dims)
    def post_shape_items(self, name, o, dims): self._shape_post(name, o, dims)
    def extents(self, o):
        if isinstance(o, X.SymSeq) and o.n.op == 'num': return [self.ex.read(o.rid, o.pre + (num(i),)) for i in range(int(o.n.val))]
        return list(o.items)
    def _shape_post(self, name, o, dims):
        if isinstance(o, X.SymSeq) and o.n.op == 'num': o = Seq(o.et, self.extents(o))
        if isinstance(o, Seq):
            if len(o.items) != len(dims): self.post(name, FALSE); return
            for a, b in zip(o.items, dims): self.post_eq(name, a, b)
        else: self.post(name, FALSE)
