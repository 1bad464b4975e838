"""C15 (loss), C16 (metrics), C17 (optimisers), C18 (data loader)."""
from .layers import *
from .tensor import T_, refused
from . import goal
from ..prove import APPFACTS

def labels(h, t, name, n, C):
    """contents of tensor t: class numbers name(i), 0 <= name(i) < C"""
    APPFACTS[name] = lambda *a: [ge0(app(name, a, 'Int')), gt(C, app(name, a, 'Int'))]
    h.gens[name] = lambda rng, *a: rng.randrange(0, 3)
    p = h.data(t)
    i = fresh('x', n)
    h.ex.write(p.rid, p.pre + (add(p.off, i),), app(name, (i,), 'Int'), vs=[(i, n)])

# ------------------------------------------------------------------ C15
def rec_of(h, cls): return h.ex.default_value('deepworks::' + cls)
def loss_obj(h):
    rec = h.ex.record_of('deepworks::loss::CrossEntropyLoss')
    loc = h.ex.alloc_rec(rec)
    c = [f for f in h.prog.by_q.get('deepworks::loss::CrossEntropyLoss::CrossEntropyLoss', []) if not f['params']]
    if c and c[0].get('body') is not None: h.ex.call_fn(c[0], [], loc)
    else: h.ex.default_fields(loc) if hasattr(h.ex, 'default_fields') else None
    return loc
def loss_fwd(h, earlier):
    B, C = h.dim('B'), h.dim('C'); D = [B, C]
    B0 = h.dim('B0') if earlier else None
    def run():
        L = loss_obj(h)
        if earlier:
            p0, t0 = h.tensor([B0, C], 'p0'), h.tensor([B0, ONE])
            labels(h, t0, 't0', B0, C)
            h.method(L, 'forward', [p0, t0])
        p, t = h.tensor(D, 'p'), h.tensor([B, ONE])
        labels(h, t, 't', B, C)
        fr = h.frame([('the predictions', p), ('the target', t)])
        v = h.ex.rvalue(h.method(L, 'forward', [p, t]))
        i = fresh('i', B)
        T = lambda i: app('t', [i], 'Int')
        h.post_eq('cross entropy is -1/B sum log p[i, t_i]', v, neg(div(S([(i, B)], fn_('log', app('p', [add(mul(i, C), T(i))]))), B)))
        h.post_frame('the loss', fr)
    h.run(run)
def fn_(name, x): return app(name, [x])
def loss_bwd(h):
    B, C = h.dim('B'), h.dim('C'); D = [B, C]
    def run():
        L = loss_obj(h)
        p, t, g = h.tensor(D, 'p'), h.tensor([B, ONE]), h.tensor(D, 'g')
        labels(h, t, 't', B, C)
        fr = h.frame([('the predictions', p), ('the target', t)])
        h.method(L, 'backward', [p, t, g])
        i, c = fresh('i', B), fresh('c', C)
        T = app('t', [i], 'Int')
        h.post_eq('the gradient is -1/(B*p) at the target class and 0 elsewhere', h.at(g, flat((i, c), D)),
                  ite(eq(c, T), neg(div(ONE, mul(B, app('p', [flat((i, c), D)])))), ZERO))
        h.post_tshape('the gradient keeps its shape', g, D)
        h.post_frame('the loss gradient', fr)
    h.run(run)
goal('C15', 'forward')(lambda h: loss_fwd(h, False))
goal('C15', 'forward after another batch')(lambda h: loss_fwd(h, True))
goal('C15', 'backward')(loss_bwd)

# ------------------------------------------------------------------ C16
def argmax_(i, C, f):
    k = fresh('k', C)
    return mk_max(k, C, f(i, k), 'argmax')
def metric(h, onehot):
    B, C = h.dim('B'), h.dim('C'); D = [B, C]
    def run():
        p = h.tensor(D, 'p')
        t = h.tensor(D, 't') if onehot else h.tensor([B, ONE], 't')
        fr = h.frame([('the predictions', p), ('the target', t)])
        v = h.ex.rvalue(h.call('deepworks::metric::accuracy' + ('OneHot' if onehot else ''), [p, t]))
        i = fresh('i', B)
        P = F('p', D)
        lab = argmax_(i, C, F('t', D)) if onehot else app('t', [i])
        hit = eq(argmax_(i, C, P), lab)
        h.post_eq('accuracy is the fraction of rows predicted correctly', v, div(S([(i, B)], ite(hit, ONE, ZERO)), B))
        h.post_frame('the metric', fr)
    h.run(run)
goal('C16', 'accuracy')(lambda h: metric(h, False))
goal('C16', 'one-hot accuracy')(lambda h: metric(h, True))

# ------------------------------------------------------------------ C17
def sym_map(h, n, entry, name='pname'):
    """an unordered_map of n entries under distinct symbolic names; entry(k) -> location of value k"""
    ex = h.ex
    m = ex.new_obj(X.MapO(()))
    cell = ex.new_cell(ZERO)
    ins = ex.natives.get('std::unordered_map::emplace')
    def body(env):
        i = ex.st.c[cell[1]]
        v = entry(i)
        o = ex.obj(m)
        key = app(name, [i], 'Int')
        ex.st.o[m[1]] = X.MapO(o.items + ((key, v),))
        ex.st.c[cell[1]] = add(i, ONE)
        return [(TRUE, ex.st, (X.NORMAL,))]
    ex.sym_loop({'l': 0}, X.Env({}), lambda env: gt(n, ex.st.c[cell[1]]), body, False, {cell[1]})
    return m
class Params:
    """n parameters of any rank and extents, each trainable or not"""
    def __init__(self, h, n):
        self.h, self.n = h, n
        ex = h.ex
        APPFACTS['dim'] = lambda *a: [ge0(sub(app('dim', a, 'Int'), ONE))]
        h.gens['dim'] = lambda rng, *a: rng.choice([1, 1, 2, 2, 3])
        APPFACTS['rank'] = lambda *a: [ge0(sub(app('rank', a, 'Int'), ONE))]
        h.gens['rank'] = lambda rng, *a: rng.choice([1, 1, 2])
        h.gens['tr'] = lambda rng, *a: rng.choice([0, 1])
        self.shapes = ex.new_region('shapes', None, 'Int', arity=2)
        k = fresh('k', n); d = fresh('d', self.rank(k))
        ex.write(self.shapes, (k, d), app('dim', [k, d], 'Int'), vs=[(k, n), (d, self.rank(k))])
        self.map = sym_map(h, n, self.entry)
    def rank(self, k): return app('rank', [k], 'Int')
    def total(self, k):
        s = fresh('s', self.rank(k))
        return mk_prod(s, self.rank(k), app('dim', [k, s], 'Int'))
    def train(self, k): return gt(app('tr', [k], 'Int'), ZERO)
    def entry(self, k):
        h, ex = self.h, self.h.ex
        sh = ex.new_obj(X.SymSeq('int', self.shapes, self.rank(k), (k,)))
        t = T_(h, [sh])
        p = ex.alloc_rec(ex.record_of('deepworks::Parameter'))
        ex.call_fn(h.fn('deepworks::Parameter::Parameter', 2), [t, ('v', self.train(k))], p)
        self.fill(p, 'data', 'w', k); self.fill(p, 'grad', 'g', k)
        return p
    def fill(self, p, what, name, k):
        h = self.h
        fill_family(h, h.method(p, what, []), name, k, None)
    def at(self, k): return self.h.ex.obj(self.h.ex.elem(self.map, k)).f['second']
    def read(self, what, k, i):
        t = self.h.method(self.at(k), what, [])
        return self.h.at(t, i)
    def fill_all(self, what, name): fill_family(self.h, None, name, None, (self.n, lambda k: self.h.method(self.at(k), what, [])))
def fill_family(h, t, name, k, every):
    """contents name(k, i) for tensor t (one entry), or for every entry of a family"""
    vs = []
    if every:
        k = fresh('k', every[0]); t = every[1](k); vs = [(k, every[0])]
    p = h.data(t); n = h.total(t)
    i = fresh('i', n)
    h.ex.write(p.rid, p.pre + (add(p.off, i),), app(name, [k, i]), vs=vs + [(i, n)])
def optimiser(h, cls, P, args):
    rec = h.ex.record_of('deepworks::optimizer::' + cls)
    loc = h.ex.alloc_rec(rec)
    h.ex.call_fn(h.fn('deepworks::optimizer::%s::%s' % (cls, cls), len(args) + 1), [P.map] + args, loc)
    return loc
def step(h, o): h.method(o, 'step', [])
def new_weight(h, P, what, want):
    k = fresh('k', P.n); i = fresh('i', P.total(k))
    w, g = app('w', [k, i]), app('g', [k, i])
    h.post_eq(what, P.read('data', k, i), ite(P.train(k), want(k, i, w, g), w))
def grads_kept(h, P, what, name='g'):
    k = fresh('k', P.n); i = fresh('i', P.total(k))
    h.post_eq(what + ' leaves the gradients unchanged', P.read('grad', k, i), app(name, [k, i]))
def sgd(h):
    n = h.dim('n', 0)
    lr, lr2 = var('lr', 'Real'), var('lr2', 'Real')
    def run():
        P = Params(h, n)
        o = optimiser(h, 'SGD', P, [lr])
        step(h, o)
        new_weight(h, P, 'SGD: w -= lr*g for the trainable parameters, no other', lambda k, i, w, g: w - lr * g)
        grads_kept(h, P, 'SGD')
        P.fill_all('grad', 'g2')
        h.method(o, 'set_lr', [lr2])
        h.post_eq('SGD: the learning rate set is the one in force', h.ex.rvalue(h.method(o, 'get_lr', [])), lr2)
        step(h, o)
        new_weight(h, P, 'SGD: the next step uses the new gradient and rate', lambda k, i, w, g: w - lr * g - lr2 * app('g2', [k, i]))
    h.run(run)
goal('C17', 'SGD')(sgd)
def tensor_maps(h, o, skip):
    """the maps of tensors an optimiser keeps per parameter, found in its object graph"""
    ex = h.ex; out = []
    def go(l):
        if not (isinstance(l, tuple) and l and l[0] == 'o'): return
        x = ex.obj(l)
        if isinstance(x, X.FamMap) and l != skip:
            e = ex.obj(ex.elem(l, fresh('k', x.n))).f['second']
            if isinstance(e, tuple) and isinstance(ex.obj(e), X.Rec) and X.tname(ex.obj(e).cls).endswith('Tensor'): out.append(l)
        elif isinstance(x, X.Rec):
            for v in x.f.values(): go(v)
    go(o)
    return out
class State_:
    def __init__(self, h, P, m): self.h, self.P, self.m = h, P, m
    def at(self, k): return self.h.ex.obj(self.h.ex.elem(self.m, k)).f['second']
    def read(self, k, i): return self.h.at(self.at(k), i)
    def fill(self, name): fill_family(self.h, None, name, None, (self.P.n, self.at))
def momentum(h, inductive):
    n = h.dim('n', 0)
    lr, lr2, ga = var('lr', 'Real'), var('lr2', 'Real'), var('gamma', 'Real')
    def run():
        P = Params(h, n)
        o = optimiser(h, 'SGDMomentum', P, [lr, ga])
        k = fresh('k', n); i = fresh('i', P.total(k))
        if inductive:
            s, = [State_(h, P, m) for m in tensor_maps(h, o, P.map)]
            h.post_eq('momentum: the velocity starts at 0', s.read(k, i), ZERO)
            s.fill('v')
            step(h, o)
            v = lambda k, i: ga * app('v', [k, i]) + lr * app('g', [k, i])
            new_weight(h, P, 'momentum: from any velocity v, w -= gamma*v + lr*g for the trainable parameters, no other', lambda k, i, w, g: w - v(k, i))
            h.post_eq('momentum: the velocity becomes gamma*v + lr*g', s.read(k, i), ite(P.train(k), v(k, i), app('v', [k, i])))
            grads_kept(h, P, 'momentum')
        else:
            step(h, o)
            new_weight(h, P, 'momentum: the first step is w -= lr*g', lambda k, i, w, g: w - lr * g)
            P.fill_all('grad', 'g2')
            h.method(o, 'set_lr', [lr2])
            h.post_eq('momentum: the learning rate set is the one in force', h.ex.rvalue(h.method(o, 'get_lr', [])), lr2)
            step(h, o)
            new_weight(h, P, 'momentum: the second step is w -= gamma*v + lr*g', lambda k, i, w, g: w - lr * g - ga * lr * g - lr2 * app('g2', [k, i]))
            grads_kept(h, P, 'momentum', 'g2')
    h.run(run)
goal('C17', 'SGD with momentum, first two steps')(lambda h: momentum(h, False))
goal('C17', 'SGD with momentum, step from any state')(lambda h: momentum(h, True))
def adam(h, inductive):
    n = h.dim('n', 0); N = h.dim('N', 0)
    lr, lr2, b1, b2, eps = [var(x, 'Real') for x in ('lr', 'lr2', 'b1', 'b2', 'eps')]
    pw = lambda b, t: X_pow(h, b, t)
    for b in (b1, b2):
        h.assume(gt(b, ZERO), gt(ONE, b))
        h.gens['$' + b.args[0]] = lambda rng: rng.choice([0.5, 0.75, 0.875, 0.9, 0.99, 0.999, 0.9999])
    h.gens['$eps'] = lambda rng: rng.choice([0.001, 0.125, 0.5])
    h.assume(gt(eps, ZERO))
    def run():
        P = Params(h, n)
        betas = h.ex.new_obj(X.Seq('float', [b1, b2], True))
        o = optimiser(h, 'Adam', P, [lr, betas, eps, N])
        k = fresh('k', n); i = fresh('i', P.total(k))
        upd = lambda m, v, t, rate: rate * (m / (ONE - pw(b1, t))) / (sqrt_(v / (ONE - pw(b2, t))) + eps)
        M = lambda m, g: b1 * m + (ONE - b1) * g
        V = lambda v, g: b2 * v + (ONE - b2) * g * g
        t = add(N, ONE)
        if inductive:
            ms = [State_(h, P, m) for m in tensor_maps(h, o, P.map)]
            a, b = ms
            for s in ms: h.post_eq('Adam: the moments start at 0', s.read(k, i), ZERO)
            a.fill('s1'); b.fill('s2')
            step(h, o)
            s1, s2, g = app('s1', [k, i]), app('s2', [k, i]), app('g', [k, i])
            first = SP.equal(a.read(k, i), ite(P.train(k), M(s1, g), s1)) or SP.equal(b.read(k, i), ite(P.train(k), V(s2, g), s2))
            swap = not first and SP.equal(b.read(k, i), ite(P.train(k), M(s2, g), s2))
            m, v = (b, a) if swap else (a, b)
            mn, vn = ('s2', 's1') if swap else ('s1', 's2')
            m0, v0 = app(mn, [k, i]), app(vn, [k, i])
            h.post_eq('Adam: the first moment becomes beta1*m + (1-beta1)*g', m.read(k, i), ite(P.train(k), M(m0, g), m0))
            h.post_eq('Adam: the second moment becomes beta2*v + (1-beta2)*g^2', v.read(k, i), ite(P.train(k), V(v0, g), v0))
            new_weight(h, P, 'Adam: from any moments, w -= lr*mhat/(sqrt(vhat)+eps) for the trainable parameters, no other',
                       lambda k, i, w, g: w - upd(M(app(mn, [k, i]), g), V(app(vn, [k, i]), g), t, lr))
            grads_kept(h, P, 'Adam')
        else:
            step(h, o)
            new_weight(h, P, 'Adam: first step', lambda k, i, w, g: w - upd(M(ZERO, g), V(ZERO, g), t, lr))
            P.fill_all('grad', 'g2')
            h.method(o, 'set_lr', [lr2])
            h.post_eq('Adam: the learning rate set is the one in force', h.ex.rvalue(h.method(o, 'get_lr', [])), lr2)
            step(h, o)
            def second(k, i, w, g):
                g2 = app('g2', [k, i])
                return w - upd(M(ZERO, g), V(ZERO, g), t, lr) - upd(M(M(ZERO, g), g2), V(V(ZERO, g), g2), add(t, ONE), lr2)
            new_weight(h, P, 'Adam: second step', second)
            grads_kept(h, P, 'Adam', 'g2')
    h.run(run)
def X_pow(h, b, t): return h.ex.natives.get('std::pow')(h.ex, {}, {'pt': ['double', 'double']}, [('v', b), ('v', t)])
def sqrt_(x): return app('sqrt', [x])
goal('C17', 'Adam, first two steps')(lambda h: adam(h, False))
goal('C17', 'Adam, step from any state')(lambda h: adam(h, True))

# ------------------------------------------------------------------ C18
class Data:
    """a data set under its assumed contract: size() and shape() are constant, pull(i, X, y) needs
    0 <= i < size() and tensors of the sample shapes, fills them with sample i and touches nothing else"""
    def __init__(self, h, rx, ry):
        ex = h.ex
        self.h = h
        self.size = h.dim('S', 0)
        self.X = [h.dim('X%d' % i) for i in range(rx)]; self.Y = [h.dim('Y%d' % i) for i in range(ry)]
    def create(self):
        h, ex = self.h, self.h.ex
        loc = ex.new_obj(X.Rec('harness::Dataset', {}))
        c = ex.contracts
        c['deepworks::IDataset::size'] = lambda ex, f, a, this: self.size
        c['deepworks::IDataset::shape'] = lambda ex, f, a, this: ex.new_obj(X.Rec('std::pair', {'first': h.seq(self.X), 'second': h.seq(self.Y)}))
        def pull(ex, f, a, this):
            i, x, y = ex.rvalue(a[0]), ex.rvalue(a[1]), ex.rvalue(a[2])
            ex.oblige('precondition', and_(ge0(i), gt(self.size, i)), 'IDataset::pull: the index is a sample of the data set')
            for what, t, D, name in (('image', x, self.X, 'img'), ('label', y, self.Y, 'lab')):
                o = h.shape(t)
                if not isinstance(o, X.Seq) or len(o.items) != len(D): ex.oblige('precondition', FALSE, 'IDataset::pull: the %s tensor has the sample rank' % what); continue
                for p, q in zip(o.items, D): ex.oblige('precondition', eq(p, q), 'IDataset::pull: the %s tensor has the sample shape' % what)
                p = h.data(t); n = prod(D)
                X_natives().for_each_write(ex, X_natives().Rng(ex, p), n, lambda j, name=name: app(name, [i, j]), 'IDataset::pull (%s)' % what)
            return None
        c['deepworks::IDataset::pull'] = pull
        return X.PObj(loc)
def X_natives():
    from .. import natives
    return natives
def loader(h, D, B, shuffle):
    loc = h.ex.alloc_rec(h.ex.record_of('deepworks::DataLoader'))
    h.ex.call_fn(h.fn('deepworks::DataLoader::DataLoader', 3), [('v', D), ('v', B), ('v', shuffle)], loc)
    return loc
def full_batch(h, d, X_, Y_, B, what, first=None):
    """rows hold distinct samples (first..first+B-1 in order, when given)"""
    i = fresh('i', B)
    got = []
    for t, D, name, lab in ((X_, d.X, 'img', 'image'), (Y_, d.Y, 'lab', 'label')):
        n = prod(D); j = fresh('j', n)
        e = h.at(t, add(mul(i, n), j))
        h.post_tshape('%s: the %s batch has shape B x sample shape' % (what, lab), t, [B] + D)
        if first is not None: h.post_eq('%s: %s row i is sample pos+i' % (what, lab), e, app(name, [add(first, i), j]))
        else:
            ok = e.op == 'app' and e.args[0] == name and e.args[2] is j
            s = e.args[1] if ok else None
            ok = ok and s.op == 'app' and s.args[0] in h.ex.distinct and s.args[1:] == (i,)
            h.post('%s: every %s row holds one sample, all rows different samples' % (what, lab), mk_bool(ok))
            if ok:
                h.post('%s: samples are in range' % what, and_(ge0(s), gt(d.size, s)))
                got.append(s)
    if first is None: h.post('%s: image and label of a row belong to the same sample' % what, mk_bool(len(got) == 2 and got[0] is got[1]))
def loader_goal(h, rx, ry, shuffle, pulls, empty):
    d = Data(h, rx, ry)
    B = h.dim('B')
    def run():
        L = loader(h, d.create(), B, TRUE if shuffle else FALSE)
        X_, Y_ = (T_(h, []), T_(h, [])) if empty else (h.tensor([B] + d.X, 'x0'), h.tensor([B] + d.Y, 'y0'))
        pos = ZERO
        for k in range(pulls):
            what = 'pull %d' % (k + 1)
            fr = h.frame([('image batch', X_), ('label batch', Y_)]) if not (empty and k == 0) else []
            r = h.ex.truth(h.ex.rvalue(h.method(L, 'pull', [X_, Y_])))
            full = ge0(sub(d.size, add(pos, B)))
            h.post_eq('%s: a batch is delivered exactly when B samples remain' % what, ite(r, ONE, ZERO), ite(full, ONE, ZERO))
            if h.ex.branch(full):
                full_batch(h, d, X_, Y_, B, what, None if shuffle else pos)
                pos = add(pos, B)
            else:
                h.post_frame('%s at the end of the data' % what, fr)
                pos = ZERO
    h.run(run)
for _rx, _ry in ((1, 1), (3, 1), (2, 2)):
    goal('C18', 'in order, sample ranks %d and %d, first pulls' % (_rx, _ry))(lambda h, rx=_rx, ry=_ry: loader_goal(h, rx, ry, False, 3, True))
    goal('C18', 'shuffled, sample ranks %d and %d, first pulls' % (_rx, _ry))(lambda h, rx=_rx, ry=_ry: loader_goal(h, rx, ry, True, 2, True))
goal('C18', 'in order, allocated tensors')(lambda h: loader_goal(h, 3, 1, False, 2, False))
goal('C18', 'shuffled, allocated tensors')(lambda h: loader_goal(h, 3, 1, True, 1, False))
def loader_any(h, rx, ry, shuffle):
    """one pull from any position the loader can be in (its only state that moves is the position)"""
    d = Data(h, rx, ry)
    B = h.dim('B'); P0 = h.dim('P', 0)
    def run():
        ex = h.ex
        L = loader(h, d.create(), B, TRUE if shuffle else FALSE)
        X_, Y_ = h.tensor([B] + d.X, 'x0'), h.tensor([B] + d.Y, 'y0')
        before = ex.obj(L)
        if not ex.branch(ge0(sub(d.size, B))): return
        h.method(L, 'pull', [X_, Y_])
        after = ex.obj(L)
        moved = [f for f in before.f if before.f[f] is not after.f[f] and not X.same_val(before.f[f], after.f[f])]
        if len(moved) != 1 or before.f[moved[0]] is not ZERO or after.f[moved[0]] is not B: raise Unsupported('loader state is not a single position')
        f = moved[0]
        ex.st.o[L[1]] = X.set_path(after, f, P0)
        fr = h.frame([('image batch', X_), ('label batch', Y_)])
        r = ex.truth(ex.rvalue(h.method(L, 'pull', [X_, Y_])))
        full = ge0(sub(d.size, add(P0, B)))
        h.post_eq('from any position: a batch is delivered exactly when B samples remain', ite(r, ONE, ZERO), ite(full, ONE, ZERO))
        if ex.branch(full):
            full_batch(h, d, X_, Y_, B, 'from any position', None if shuffle else P0)
            h.post_eq('from any position: the position advances by B', ex.obj(L).f[f], add(P0, B))
        else:
            h.post_frame('at the end of the data', fr)
            h.post_eq('at the end of the data the loader rewinds', ex.obj(L).f[f], ZERO)
        h.post('nothing else in the loader changes', mk_bool(all(X.same_val(ex.obj(L).f[g], after.f[g]) for g in after.f if g != f)))
    h.run(run)
for _rx, _ry in ((1, 1), (3, 1), (4, 2)):
    goal('C18', 'in order, sample ranks %d and %d, from any position' % (_rx, _ry))(lambda h, rx=_rx, ry=_ry: loader_any(h, rx, ry, False))
    goal('C18', 'shuffled, sample ranks %d and %d, from any position' % (_rx, _ry))(lambda h, rx=_rx, ry=_ry: loader_any(h, rx, ry, True))
