"""C01 (tensor geometry), C02 (copies and initialisers), C21 (layout conversions)."""
from .layers import *
from . import goal
from ..prove import APPFACTS

def T_(h, args, pred=None):
    """Tensor(args...) through the constructor"""
    loc = h.ex.alloc_rec(h.ex.record_of('deepworks::Tensor'))
    c = h.fn('deepworks::Tensor::Tensor', len(args), pred or (lambda f: not args or 'Tensor' not in f['pt'][0]))
    h.ex.call_fn(c, args, loc)
    return loc
def strides_of(h, t): return h.ex.obj(h.method(t, 'strides', []))

def geometry(h, t, D, what):
    """shape, strides, total and the owned buffer of t agree with D"""
    h.post_tshape('%s: shape' % what, t, D)
    st = strides_of(h, t)
    h.post_shape_items('%s: row-major strides' % what, st, [prod(D[k+1:]) for k in range(len(D))])
    h.post_eq('%s: element count = product of the extents' % what, h.total(t), prod(D))
    idx = [fresh('i', d) for d in D]
    at = ZERO
    for i, k in zip(idx, range(len(D))): at = add(at, mul(i, st.items[k]))
    h.post_eq('%s: strides address elements row-major' % what, at, flat(idx, D))
    p = h.data(t)
    reg = h.ex.regions[p.rid]
    size = reg.size(p.pre) if callable(reg.size) else reg.size
    if size is None: h.post('%s: the buffer has a size' % what, FALSE); return
    h.post('%s: every element lies inside the buffer' % what, and_(ge0(add(p.off, at)), gt(size, add(p.off, at))))
    h.post('%s: not empty' % what, not_(h.ex.rvalue(h.method(t, 'empty', []))))
def keep(h, t, n, name, what, i=None):
    i = fresh('i', n)
    h.post_eq(what, h.at(t, i), app(name, [i]))

def refused(h, name, fn):
    """every execution of fn raises an exception"""
    def run():
        try: fn()
        except X.CppThrow:
            h.post(name, TRUE); raise
        h.post(name, FALSE)
    h.run(run, expect_throw=True)

def construct(h, r):
    D = [h.dim('D%d' % i) for i in range(r)]
    def run():
        t = h.tensor(D, 'a')
        geometry(h, t, D, 'constructed')
    h.run(run)
def realloc(h, r, q):
    D = [h.dim('D%d' % i) for i in range(r)]; E = [h.dim('E%d' % i) for i in range(q)]
    def run():
        t = T_(h, [])
        h.post('a default tensor is empty', h.ex.rvalue(h.method(t, 'empty', [])))
        h.post_eq('a default tensor has no elements', h.total(t), ZERO)
        h.method(t, 'allocate', [h.seq(D)])
        geometry(h, t, D, 'allocated')
        u = h.ex.copy_obj(t)
        h.method(t, 'allocate', [h.seq(E)])
        geometry(h, t, E, 'allocated again')
        geometry(h, u, E, 'a copied handle')
        h.havoc(u, 'a')
        keep(h, t, prod(E), 'a', 'copied handles share one buffer')
    h.run(run)
def reshaped(h, r, q):
    D = [h.dim('D%d' % i) for i in range(r)]; E = [h.dim('E%d' % i) for i in range(q)]
    h.assume(eq(prod(D), prod(E)))
    def run():
        t = h.tensor(D, 'a')
        u = h.ex.copy_obj(t)
        h.method(t, 'reshape', [h.seq(E)])
        geometry(h, t, E, 'reshaped')
        keep(h, t, prod(E), 'a', 'reshape keeps the elements in order')
        h.post_tshape('a copied handle follows the reshape', u, E)
    h.run(run)
def reshape_bad(h, r, q):
    D = [h.dim('D%d' % i) for i in range(r)]; E = [h.dim('E%d' % i) for i in range(q)]
    h.assume(not_(eq(prod(D), prod(E))))
    def fn():
        t = h.tensor(D, 'a')
        h.method(t, 'reshape', [h.seq(E)])
    refused(h, 'a reshape to another element count is refused', fn)
def anyint(h, n): return var(n)
def negative(h, r, how):
    D = [anyint(h, 'D%d' % i) for i in range(r)]
    h.assume(or_(*[lt(d, ZERO) for d in D]))
    n = h.dim('N') if how == 'reshape' else None
    if n is not None: h.assume(eq(prod(D), n))
    def fn():
        if how == 'constructor': T_(h, [h.seq(D)])
        elif how == 'allocate': h.method(T_(h, []), 'allocate', [h.seq(D)])
        elif how == 'view':
            rid = h.ex.new_region('user', None)
            T_(h, [h.seq(D), X.Ptr(rid, (), ZERO)])
        else: h.method(h.tensor([n], 'a'), 'reshape', [h.seq(D)])
    refused(h, 'negative extents are refused (%s)' % how, fn)
def view(h, r):
    D = [h.dim('D%d' % i) for i in range(r)]
    o = h.dim('off', 0)
    def run():
        rid = h.ex.new_region('user', prod(D) + o)
        t = T_(h, [h.seq(D), X.Ptr(rid, (), o)])
        geometry(h, t, D, 'view of user memory')
        p = h.data(t)
        h.post('a view refers to the memory it was given', mk_bool(p.rid == rid and p.off is o))
    h.run(run)
for _r in range(1, 7):
    goal('C01', 'construction, rank %d' % _r)(lambda h, r=_r: construct(h, r))
    goal('C01', 'view of user memory, rank %d' % _r)(lambda h, r=_r: view(h, r))
for _r, _q in ((1, 2), (2, 4), (3, 1), (4, 2), (5, 6)):
    goal('C01', 'allocation twice, rank %d then %d' % (_r, _q))(lambda h, r=_r, q=_q: realloc(h, r, q))
for _r, _q in ((2, 1), (4, 2), (2, 3), (3, 3), (1, 4), (5, 2)):
    goal('C01', 'reshape rank %d to %d' % (_r, _q))(lambda h, r=_r, q=_q: reshaped(h, r, q))
    goal('C01', 'reshape refusal rank %d to %d' % (_r, _q))(lambda h, r=_r, q=_q: reshape_bad(h, r, q))
for _r in (1, 2, 3, 4):
    for _w in ('constructor', 'allocate', 'view', 'reshape'):
        if (_r, _w) != (1, 'reshape'): goal('C01', 'negative extents, %s, rank %d' % (_w, _r))(lambda h, r=_r, w=_w: negative(h, r, w))

# ------------------------------------------------------------ C02
def copy_ok(h, r):
    D = [h.dim('D%d' % i) for i in range(r)]
    def run():
        a, b, o = h.tensor(D, 'a'), h.tensor(D, 'b'), h.tensor(D, 'o')
        fr = h.frame([('another tensor', o), ('the source', a)])
        h.method(a, 'copyTo', [b])
        keep(h, b, prod(D), 'a', 'the destination equals the source element for element')
        h.post_tshape('the destination keeps its shape', b, D)
        h.post_frame('copyTo', fr)
    h.run(run)
def copy_bad(h, r, q):
    D = [h.dim('D%d' % i) for i in range(r)]; E = [h.dim('E%d' % i) for i in range(q)]
    if r == q: h.assume(or_(*[not_(eq(a, b)) for a, b in zip(D, E)]))
    refused(h, 'copying between different shapes is refused', lambda: h.method(h.tensor(D, 'a'), 'copyTo', [h.tensor(E, 'b')]))
def copy_empty(h):
    D = [h.dim('D%d' % i) for i in range(2)]
    refused(h, 'copying into an unallocated tensor is refused', lambda: h.method(h.tensor(D, 'a'), 'copyTo', [T_(h, [])]))
def init_goal(h, r, kind):
    D = [h.dim('D%d' % i) for i in range(r)]
    n = prod(D)
    def run():
        v = var('v', 'Real')
        o = h.tensor(D, 'o')
        fr = h.frame([('another tensor', o)])
        st = 'static' in kind
        k = kind.replace(' static', '')
        args = {'zeros': [], 'constant': [v], 'uniform': [var('lower', 'Real'), var('upper', 'Real')], 'xavierUniform': []}[k]
        if st: t = h.call('deepworks::Tensor::' + k, [h.seq(D)] + args)
        else:
            t = h.tensor(D, 'a')
            h.call('deepworks::initializer::' + k, [t] + args)
        h.post_tshape('%s: shape' % k, t, D)
        i = fresh('i', n)
        e = h.at(t, i)
        if k == 'zeros': h.post_eq('zeros sets every element to 0', e, ZERO)
        elif k == 'constant': h.post_eq('constant sets every element to the value', e, v)
        elif k == 'uniform': h.post('uniform draws lie in [lower, upper]', and_(ge(e, args[0]), le(e, args[1])))
        else:
            fin, fout = (D[0], D[1]) if r == 2 else (div(n, D[0]), D[0])
            # |e| <= sqrt(6/(fin+fout))
            bnd = div(num(6), add(fin, fout))
            if e.op == 'app' and e.args[0] in SP.RAND:      # a draw between lo and hi: enough for the two ends
                vs, lo, hi, so = SP.RAND[e.args[0]]
                sb = dict(zip(vs, e.args[1:])); lo, hi = subst(lo, sb), subst(hi, sb)
                h.post('Xavier draws lie in [-a, a], a = sqrt(6/(fan_in+fan_out))', and_(le(mul(lo, lo), bnd), le(mul(hi, hi), bnd)))
            else: h.post('Xavier draws lie in [-a, a], a = sqrt(6/(fan_in+fan_out))', le(mul(e, e), div(num(6), add(fin, fout))))
        h.post('no element keeps its old value unseen', mk_bool(not mentions(e, ('a',))))
        h.post_frame(k, fr)
        if k in ('uniform', 'xavierUniform'):
            j = fresh('j', n)
            h.post('draws of different elements are separate', mk_bool(h.at(t, j) is not e))
    if kind.startswith('uniform'): h.assume(le(var('lower', 'Real'), var('upper', 'Real')))
    h.run(run)
for _r in (1, 2, 3, 4): goal('C02', 'copyTo, rank %d' % _r)(lambda h, r=_r: copy_ok(h, r))
for _r, _q in ((1, 1), (2, 2), (4, 4), (2, 1), (3, 4)): goal('C02', 'copyTo refusal, rank %d to %d' % (_r, _q))(lambda h, r=_r, q=_q: copy_bad(h, r, q))
goal('C02', 'copyTo into an empty tensor')(copy_empty)
for _k in ('zeros', 'constant', 'uniform', 'xavierUniform'):
    for _r in (1, 2, 4):
        goal('C02', '%s, rank %d' % (_k, _r))(lambda h, r=_r, k=_k: init_goal(h, r, k))
    goal('C02', 'Tensor::%s' % _k)(lambda h, k=_k: init_goal(h, 2, k + ' static'))

# ------------------------------------------------------------ C21
def layout(h, fwd):
    N, C, Hh, W = D = [h.dim(x) for x in 'NCHW']
    E = [N, Hh, W, C]
    def run():
        a, b = h.tensor(D, 'a'), h.tensor(E, 'b')
        n, c, r, s = fresh('n', N), fresh('c', C), fresh('r', Hh), fresh('s', W)
        fr = h.frame([('its input', a if fwd else b)])
        q = 'deepworks::utils::' + ('NCHW2NHWC' if fwd else 'NHWC2NCHW')
        h.call(q, [a, b] if fwd else [b, a])
        if fwd: h.post_eq('element (n,c,h,w) moves to (n,h,w,c)', h.at(b, flat((n, r, s, c), E)), F('a', D)(n, c, r, s))
        else: h.post_eq('element (n,h,w,c) moves to (n,c,h,w)', h.at(a, flat((n, c, r, s), D)), F('b', E)(n, r, s, c))
        h.post_frame('the conversion', fr)
        # and back
        back = 'deepworks::utils::' + ('NHWC2NCHW' if fwd else 'NCHW2NHWC')
        d = h.tensor(D if fwd else E, 'd')
        h.call(back, [b, d] if fwd else [a, d])
        i = fresh('i', prod(D))
        idx = (n, c, r, s) if fwd else (n, r, s, c)
        S_ = D if fwd else E
        h.post_eq('the opposite conversion restores every element', h.at(d, flat(idx, S_)), F('a' if fwd else 'b', S_)(*idx))
    h.run(run)
goal('C21', 'NCHW to NHWC and back')(lambda h: layout(h, True))
goal('C21', 'NHWC to NCHW and back')(lambda h: layout(h, False))

# ------------------------------------------------------------ C01, arbitrary rank
def sym_shape(h, n, name):
    """a vector<int> of symbolic length n with arbitrary positive elements name(k)"""
    rid = h.ex.new_region('shape', n, 'Int')
    i = fresh('x', n)
    APPFACTS[name] = lambda *a: [ge0(sub(app(name, a, 'Int'), ONE))]
    h.gens[name] = lambda rng, *a: rng.choice([1, 1, 2, 2, 3])
    h.ex.write(rid, (i,), app(name, [i], 'Int'), vs=[(i, n)])
    return h.ex.new_obj(X.SymSeq('int', rid, n))
def any_rank(h):
    n = h.dim('rank')
    def run():
        sh = sym_shape(h, n, 'dim')
        t = T_(h, [sh])
        k = fresh('k', n); s = fresh('s', n)
        D = lambda i: app('dim', [i], 'Int')
        o = h.ex.obj(h.method(t, 'shape', []))
        h.post_eq('any rank: the shape has the same length', h.ex.seq_len(o), n)
        h.post_eq('any rank: shape', h.ex.rvalue(h.ex.elem(h.method(t, 'shape', []), k)), D(k))
        st = h.method(t, 'strides', [])
        h.post_eq('any rank: one stride per extent', h.ex.seq_len(h.ex.obj(st)), n)
        m = sub(sub(n, k), ONE); j = fresh('j', m)
        h.post_eq('any rank: stride k = product of the extents after k', h.ex.rvalue(h.ex.elem(st, k)), mk_prod(j, m, D(sub(sub(n, ONE), j))))
        h.post_eq('any rank: element count = product of the extents', h.total(t), mk_prod(s, n, D(s)))
    h.run(run)
goal('C01', 'construction, any rank')(any_rank)

def total_of(n, name):
    s = fresh('s', n)
    return mk_prod(s, n, app(name, [s], 'Int'))
def any_geometry(h, t, n, name, what):
    k = fresh('k', n)
    D = lambda i: app(name, [i], 'Int')
    h.post_eq(what + ': the shape has the same length', h.ex.seq_len(h.ex.obj(h.method(t, 'shape', []))), n)
    h.post_eq(what + ': shape', h.ex.rvalue(h.ex.elem(h.method(t, 'shape', []), k)), D(k))
    st = h.method(t, 'strides', [])
    h.post_eq(what + ': one stride per extent', h.ex.seq_len(h.ex.obj(st)), n)
    m = sub(sub(n, k), ONE); j = fresh('j', m)
    h.post_eq(what + ': stride k = product of the extents after k', h.ex.rvalue(h.ex.elem(st, k)), mk_prod(j, m, D(sub(sub(n, ONE), j))))
    h.post_eq(what + ': element count = product of the extents', h.total(t), total_of(n, name))
def any_realloc(h):
    n, m = h.dim('rank'), h.dim('rank2')
    def run():
        a, b = sym_shape(h, n, 'dim'), sym_shape(h, m, 'ext')
        t = T_(h, [a])
        u = h.ex.copy_obj(t)
        h.method(t, 'allocate', [b])
        any_geometry(h, t, m, 'ext', 'any rank, allocated again')
        any_geometry(h, u, m, 'ext', 'any rank, a copied handle')
        p = h.data(t); q = h.data(u)
        h.post('any rank: copied handles share one buffer', mk_bool(p.rid == q.rid and p.off is q.off))
        reg = h.ex.regions[p.rid]
        size = reg.size(p.pre) if callable(reg.size) else reg.size
        h.post_eq('any rank: the buffer holds exactly the elements', sub(size, p.off), total_of(m, 'ext'))
    h.run(run)
def any_reshape(h):
    n, m = h.dim('rank'), h.dim('rank2')
    def run():
        a, b = sym_shape(h, n, 'dim'), sym_shape(h, m, 'ext')
        h.assume(eq(total_of(n, 'dim'), total_of(m, 'ext')))
        t = T_(h, [a]); h.havoc(t, 'a')
        h.method(t, 'reshape', [b])
        any_geometry(h, t, m, 'ext', 'any rank, reshaped')
        keep(h, t, total_of(n, 'dim'), 'a', 'any rank: reshape keeps the elements in order')
    h.run(run)
def any_reshape_bad(h):
    n, m = h.dim('rank'), h.dim('rank2')
    def fn():
        a, b = sym_shape(h, n, 'dim'), sym_shape(h, m, 'ext')
        h.assume(not_(eq(total_of(n, 'dim'), total_of(m, 'ext'))))
        h.method(T_(h, [a]), 'reshape', [b])
    refused(h, 'any rank: a reshape to another element count is refused', fn)
goal('C01', 'allocation twice, any rank')(any_realloc)
goal('C01', 'reshape, any rank')(any_reshape)
goal('C01', 'reshape refusal, any rank')(any_reshape_bad)
