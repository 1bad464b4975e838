"""Layer contracts.  Every goal builds the layer through the public op, creates the
CPU kernel object through the factory, runs forward/backward/updateGradients of the
real code on tensors of symbolic shape and contents and states what must hold."""
from ..harness import *
from . import goal

def prod(xs):
    r = ONE
    for x in xs: r = mul(r, x)
    return r
def flat(idx, dims):
    """row-major index"""
    r = ZERO
    for i, d in zip(idx, dims): r = add(mul(r, d), i)
    return r
def F(name, dims):
    return lambda *idx: app(name, [flat(idx, dims)])
def S(vs, body, guard=TRUE): return mk_sum(vs, guard, body)

# ------------------------------------------------------------- activations
def activation(cls, args, fwd, bwd):
    def g(h, rank):
        D = [h.dim('D%d' % i) for i in range(rank)]
        al = var('alpha', 'Real')
        a = [al] if args else []
        def run():
            L, info, out = h.layer(cls, a, [D])
            h.post_shape('%s output shape' % cls, out, D)
            x, y, gy, gx = h.tensor(D, 'x'), h.tensor(D, 'y'), h.tensor(D, 'gy'), h.tensor(D, 'gx')
            h.method(L, 'forward', [h.tvec([x]), h.tvec([y])])
            n = prod(D); i = fresh('i', n)
            X, Y = app('x', [i]), None
            h.post_eq('%s forward' % cls, h.at(y, i), fwd(X, al))
            h.post_eq('%s forward leaves its input unchanged' % cls, h.at(x, i), X)
            h.method(L, 'backward', [h.tvec([x]), h.tvec([y]), h.tvec([gy]), h.tvec([gx])])
            h.post_eq('%s backward adds the input gradient' % cls, h.at(gx, i), app('gx', [i]) + bwd(X, fwd(X, al), app('gy', [i]), al))
            h.post_eq('%s backward leaves its output unchanged' % cls, h.at(y, i), fwd(X, al))
            h.post_eq('%s backward leaves the output gradient unchanged' % cls, h.at(gy, i), app('gy', [i]))
        h.run(run)
    return g
def exp_(x): return app('exp', [x])
ACT = {
 'ReLU': ([], lambda x, a: ite(gt(x, ZERO), x, ZERO), lambda x, y, g, a: ite(gt(x, ZERO), g, ZERO)),
 'LeakyReLU': (['a'], lambda x, a: ite(lt(x, ZERO), a * x, x), lambda x, y, g, a: ite(lt(x, ZERO), a * g, g)),
 'ELU': (['a'], lambda x, a: ite(lt(x, ZERO), a * (exp_(x) - ONE), x), lambda x, y, g, a: ite(lt(x, ZERO), a * exp_(x) * g, g)),
 'Sigmoid': ([], lambda x, a: div(ONE, ONE + exp_(neg(x))), lambda x, y, g, a: g * y * (ONE - y)),
}
for _c, (_a, _f, _b) in ACT.items():
    for _r in (2, 4):
        goal('C03', '%s rank %d' % (_c, _r))(lambda h, g=activation(_c, _a, _f, _b), r=_r: g(h, r))

@goal('C04', 'softmax')
def softmax(h):
    B, C = h.dim('B'), h.dim('C')
    D = [B, C]
    def run():
        L, info, out = h.layer('Softmax', [], [D])
        h.post_shape('Softmax output shape', out, D)
        x, y, gy, gx = h.tensor(D, 'x'), h.tensor(D, 'y'), h.tensor(D, 'gy'), h.tensor(D, 'gx')
        h.method(L, 'forward', [h.tvec([x]), h.tvec([y])])
        b, c, k = fresh('b', B), fresh('c', C), fresh('k', C)
        X = F('x', D)
        mx = mk_max(k, C, X(b, k))
        den = S([(k, C)], exp_(X(b, k) - mx))
        want = exp_(X(b, c) - mx) / den
        h.post_eq('softmax forward (exponents shifted by the row maximum)', h.at(y, flat((b, c), D)), want)
        h.havoc(y, 'y')
        h.method(L, 'backward', [h.tvec([x]), h.tvec([y]), h.tvec([gy]), h.tvec([gx])])
        G, Y = F('gy', D), F('y', D)
        h.post_eq('softmax backward adds y*(g - sum g*y)', h.at(gx, flat((b, c), D)),
                  F('gx', D)(b, c) + Y(b, c) * (G(b, c) - S([(k, C)], G(b, k) * Y(b, k))))
    h.run(run)

# ------------------------------------------------------------------ linear
def linear(h, rank):
    N = [h.dim('N')] + [h.dim('D%d' % i) for i in range(1, rank)]
    O = h.dim('O')
    I = prod(N[1:])
    def run():
        L, info, out = h.layer('Linear', [O], [N])
        h.post_shape('Linear output shape', out, [N[0], O])
        x, y, gy, gx = h.tensor(N, 'x'), h.tensor([N[0], O], 'y'), h.tensor([N[0], O], 'gy'), h.tensor(N, 'gx')
        h.post_tshape('Linear weight shape', h.pdata(info, 'weight'), [O, I])
        h.post_tshape('Linear bias shape', h.pdata(info, 'bias'), [O])
        h.havoc(h.pdata(info, 'weight'), 'w'); h.havoc(h.pdata(info, 'bias'), 'bias')
        h.method(L, 'forward', [h.tvec([x]), h.tvec([y])])
        n, o, i, k, q = fresh('n', N[0]), fresh('o', O), fresh('i', I), fresh('k', I), fresh('q', O)
        m = fresh('m', N[0])
        W, X, G = F('w', [O, I]), F('x', [N[0], I]), F('gy', [N[0], O])
        h.post_eq('Linear forward = W x + b', h.at(y, n * O + o), S([(k, I)], X(n, k) * W(o, k)) + app('bias', [o]))
        h.method(L, 'backward', [h.tvec([x]), h.tvec([y]), h.tvec([gy]), h.tvec([gx])])
        h.post_eq('Linear input gradient', h.at(gx, n * I + i), F('gx', [N[0], I])(n, i) + S([(q, O)], G(n, q) * W(q, i)))
        h.method(L, 'updateGradients', [h.tvec([x]), h.tvec([gy])])
        h.post_eq('Linear weight gradient', h.at(h.pgrad(info, 'weight'), o * I + i), S([(m, N[0])], G(m, o) * X(m, i)))
        h.post_eq('Linear bias gradient', h.at(h.pgrad(info, 'bias'), o), S([(m, N[0])], G(m, o)))
        h.post_eq('Linear weight unchanged', h.at(h.pdata(info, 'weight'), o * I + i), W(o, i))
        h.post_eq('Linear bias unchanged', h.at(h.pdata(info, 'bias'), o), app('bias', [o]))
        h.post_eq('Linear input unchanged', h.at(x, n * I + i), X(n, i))
    h.run(run)
for _r in (2, 3, 4):
    goal('C05', 'linear rank %d' % _r)(lambda h, r=_r: linear(h, r))

# ------------------------------------------------------------- convolution
class Conv:
    def __init__(s, h, hist=False):
        s.h = h
        s.B, s.C, s.H, s.W, s.O = [h.dim(x) for x in 'BCHWO']
        s.kh, s.kw, s.sh, s.sw = [h.dim(x) for x in ('kh', 'kw', 'sh', 'sw')]
        s.ph, s.pw = h.dim('ph', 0), h.dim('pw', 0)
        h.assume(ge(s.H + 2 * s.ph, s.kh), ge(s.W + 2 * s.pw, s.kw))
        s.OH = h.out_extent(s.H + 2 * s.ph - s.kh, s.sh, 'OH')
        s.OW = h.out_extent(s.W + 2 * s.pw - s.kw, s.sw, 'OW')
        s.IN, s.OUT = [s.B, s.C, s.H, s.W], [s.B, s.O, s.OH, s.OW]
        s.B0 = h.dim('B0') if hist else None
    def build(s):
        h = s.h
        L, info, out = h.layer('Convolution', [s.O, h.arr2(s.kh, s.kw), h.arr2(s.ph, s.pw), h.arr2(s.sh, s.sw)], [s.IN])
        h.post_shape('Convolution output shape', out, s.OUT)
        h.post_tshape('Convolution weight shape', h.pdata(info, 'weight'), [s.O, s.C, s.kh, s.kw])
        h.havoc(h.pdata(info, 'weight'), 'w'); h.havoc(h.pdata(info, 'bias'), 'bias')
        if s.B0 is not None:      # an arbitrary earlier call with another batch size
            x0, y0 = h.tensor([s.B0, s.C, s.H, s.W], 'x0'), h.tensor([s.B0, s.O, s.OH, s.OW], 'y0')
            h.method(L, 'forward', [h.tvec([x0]), h.tvec([y0])])
        s.x, s.y = h.tensor(s.IN, 'x'), h.tensor(s.OUT, 'y')
        h.method(L, 'forward', [h.tvec([s.x]), h.tvec([s.y])])
        return L, info
    def inside(s, a, b): return and_(ge0(a), lt(a, s.H), ge0(b), lt(b, s.W))
    def forward_post(s):
        h = s.h
        b, o, r, t = fresh('b', s.B), fresh('o', s.O), fresh('r', s.OH), fresh('s', s.OW)
        c, i, j = fresh('c', s.C), fresh('i', s.kh), fresh('j', s.kw)
        hh, ww = r * s.sh + i - s.ph, t * s.sw + j - s.pw
        X, W = F('x', s.IN), F('w', [s.O, s.C, s.kh, s.kw])
        want = app('bias', [o]) + S([(c, s.C), (i, s.kh), (j, s.kw)], W(o, c, i, j) * X(b, c, hh, ww), s.inside(hh, ww))
        h.post_eq('convolution forward = zero-padded strided cross-correlation + bias', h.at(s.y, flat((b, o, r, t), s.OUT)), want)
@goal('C06', 'convolution forward')
def conv_fwd(h):
    s = Conv(h)
    def run():
        L, info = s.build()
        s.forward_post()
    h.run(run)
@goal('C06', 'convolution forward after another batch')
def conv_fwd2(h):
    s = Conv(h, True)
    def run():
        L, info = s.build()
        s.forward_post()
    h.run(run)
def conv_bwd(h, hist, part):
    s = Conv(h, hist)
    def run():
        L, info = s.build()
        gy, gx = h.tensor(s.OUT, 'gy'), h.tensor(s.IN, 'gx')
        X, W, G = F('x', s.IN), F('w', [s.O, s.C, s.kh, s.kw]), F('gy', s.OUT)
        b, o, r, t = fresh('b', s.B), fresh('o', s.O), fresh('r', s.OH), fresh('s', s.OW)
        c = fresh('c', s.C)
        if part == 'input':
            h.method(L, 'backward', [h.tvec([s.x]), h.tvec([s.y]), h.tvec([gy]), h.tvec([gx])])
            u, v = fresh('u', s.H), fresh('v', s.W)
            q = fresh('q', s.O)
            i, j = u + s.ph - r * s.sh, v + s.pw - t * s.sw
            want = F('gx', s.IN)(b, c, u, v) + S([(q, s.O), (r, s.OH), (t, s.OW)], W(q, c, i, j) * G(b, q, r, t), and_(ge0(i), lt(i, s.kh), ge0(j), lt(j, s.kw)))
            h.post_eq('convolution input gradient is the adjoint, accumulated', h.at(gx, flat((b, c, u, v), s.IN)), want)
        else:
            if part == 'param after backward': h.method(L, 'backward', [h.tvec([s.x]), h.tvec([s.y]), h.tvec([gy]), h.tvec([gx])])
            h.method(L, 'updateGradients', [h.tvec([s.x]), h.tvec([gy])])
            i, j = fresh('i', s.kh), fresh('j', s.kw)
            hh, ww = r * s.sh + i - s.ph, t * s.sw + j - s.pw
            want = S([(b, s.B), (r, s.OH), (t, s.OW)], G(b, o, r, t) * X(b, c, hh, ww), s.inside(hh, ww))
            h.post_eq('convolution weight gradient', h.at(h.pgrad(info, 'weight'), flat((o, c, i, j), [s.O, s.C, s.kh, s.kw])), want)
            h.post_eq('convolution bias gradient', h.at(h.pgrad(info, 'bias'), o), S([(b, s.B), (r, s.OH), (t, s.OW)], G(b, o, r, t)))
    h.run(run)
goal('C07', 'convolution input gradient')(lambda h: conv_bwd(h, False, 'input'))
goal('C07', 'convolution parameter gradients')(lambda h: conv_bwd(h, False, 'param'))
goal('C07', 'convolution parameter gradients after the backward pass')(lambda h: conv_bwd(h, False, 'param after backward'))
goal('C07', 'convolution input gradient after another batch')(lambda h: conv_bwd(h, True, 'input'))
goal('C07', 'convolution parameter gradients after another batch')(lambda h: conv_bwd(h, True, 'param'))

# ------------------------------------------------------------ add, gap
@goal('C09', 'add')
def add_layer(h):
    D = [h.dim('D%d' % i) for i in range(4)]
    def run():
        L, info, out = h.layer('Add', [], [D, D])
        h.post_shape('Add output shape', out, D)
        x, z, y, gy, gx, gz = [h.tensor(D, n) for n in ('x', 'z', 'y', 'gy', 'gx', 'gz')]
        h.method(L, 'forward', [h.tvec([x, z]), h.tvec([y])])
        i = fresh('i', prod(D))
        h.post_eq('Add forward', h.at(y, i), app('x', [i]) + app('z', [i]))
        h.method(L, 'backward', [h.tvec([x, z]), h.tvec([y]), h.tvec([gy]), h.tvec([gx, gz])])
        h.post_eq('Add backward, first input', h.at(gx, i), app('gx', [i]) + app('gy', [i]))
        h.post_eq('Add backward, second input', h.at(gz, i), app('gz', [i]) + app('gy', [i]))
    h.run(run)
@goal('C09', 'global average pooling')
def gap(h):
    B, C, Hh, W = D = [h.dim(x) for x in 'BCHW']
    def run():
        L, info, out = h.layer('GlobalAvgPooling', [], [D])
        h.post_shape('GlobalAvgPooling output shape', out, [B, C, ONE, ONE])
        x, y, gy, gx = h.tensor(D, 'x'), h.tensor([B, C, ONE, ONE], 'y'), h.tensor([B, C, ONE, ONE], 'gy'), h.tensor(D, 'gx')
        h.method(L, 'forward', [h.tvec([x]), h.tvec([y])])
        b, c, r, s = fresh('b', B), fresh('c', C), fresh('r', Hh), fresh('s', W)
        h.post_eq('GAP forward', h.at(y, b * C + c), S([(r, Hh), (s, W)], F('x', D)(b, c, r, s)) / (Hh * W))
        h.method(L, 'backward', [h.tvec([x]), h.tvec([y]), h.tvec([gy]), h.tvec([gx])])
        h.post_eq('GAP backward', h.at(gx, flat((b, c, r, s), D)), F('gx', D)(b, c, r, s) + app('gy', [b * C + c]) / (Hh * W))
    h.run(run)

# ------------------------------------------------------------------ dropout
def dropout(h, rank, train, passes=1):
    """training: y = x * [u >= p] / (1-p) with the uniform draw u in [0,1) kept in the mask
    parameter for backward; evaluation: identity"""
    D = [h.dim('D%d' % i) for i in range(rank)]
    p = var('p', 'Real')
    h.assume(ge0(p), lt(p, ONE))
    def run():
        L, info, out = h.layer('Dropout', [p], [D])
        h.post_shape('Dropout output shape', out, D)
        x, y, gy, gx = h.tensor(D, 'x'), h.tensor(D, 'y'), h.tensor(D, 'gy'), h.tensor(D, 'gx')
        h.post_tshape('Dropout mask shape', h.pdata(info, 'mask'), D)
        if not train:
            h.method(h.param(info, 'mask'), 'train', [FALSE])
            h.havoc(h.pdata(info, 'mask'), 'oldmask')
        for k in range(passes):
            if k:
                h.havoc(x, 'x'); h.havoc(y, 'yb')
            h.method(L, 'forward', [h.tvec([x]), h.tvec([y])])
        i = fresh('i', prod(D))
        if not train:
            h.post_eq('dropout in evaluation mode is the identity', h.at(y, i), app('x', [i]))
            return
        u = h.at(h.pdata(info, 'mask'), i)
        keep = lambda v: ite(ge(u, p), v, ZERO) / (ONE - p)
        h.post('dropout draws lie in [0,1]', and_(ge0(u), ge0(ONE - u)))
        h.post('dropout draws are independent of the input', mk_bool(not mentions(u, ('x', 'y', 'gx', 'gy'))))
        h.post_eq('dropout forward = kept elements scaled by 1/(1-p)', h.at(y, i), keep(app('x', [i])))
        h.post_eq('dropout leaves its input unchanged', h.at(x, i), app('x', [i]))
        h.method(L, 'backward', [h.tvec([x]), h.tvec([y]), h.tvec([gy]), h.tvec([gx])])
        h.post_eq('dropout backward uses the same mask and scale, accumulated', h.at(gx, i), app('gx', [i]) + keep(app('gy', [i])))
    h.run(run)
def mk_bool(b): return TRUE if b else FALSE
def mentions(t, names, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen: return False
    seen.add(t)
    if t.op == 'app' and t.args[0] in names: return True
    if t.op == 'poly': return any(mentions(a, names, seen) for m, c in t.args for a, e in m)
    if t.op in SP.BIND: return any(mentions(n, names, seen) for v, n in t.args[0]) or mentions(t.args[1], names, seen) or mentions(t.args[2], names, seen)
    return any(mentions(a, names, seen) for a in t.args if isinstance(a, T))
for _r in (2, 4):
    goal('C12', 'dropout training rank %d' % _r)(lambda h, r=_r: dropout(h, r, True))
goal('C12', 'dropout training, second pass')(lambda h: dropout(h, 2, True, 2))
goal('C12', 'dropout evaluation')(lambda h: dropout(h, 2, False))

# --------------------------------------------------------------- batch norm
def bn(h, two, train, part='forward', hist=False):
    C = h.dim('C')
    eps, al = var('eps', 'Real'), var('alpha', 'Real')
    h.assume(gt(eps, ZERO))
    if two:
        B, Hh, W = [h.dim(x) for x in 'BHW']
        D = [B, C, Hh, W]
    else:
        B = h.dim('B'); D = [B, C]
    B0 = h.dim('B0') if hist else None
    def run():
        L, info, out = h.layer('BatchNorm2D' if two else 'BatchNorm1D', [eps, al], [D])
        h.post_shape('output shape', out, D)
        for n in ('gamma', 'beta'): h.post_tshape('batch norm %s shape' % n, h.pdata(info, n), [C])
        for n in ('running_mean', 'running_var'): h.post_tshape('batch norm %s shape' % n, h.buffer(info, n), [C])
        if hist:
            D0 = [B0] + D[1:]
            for n in ('gamma', 'beta'): h.havoc(h.pdata(info, n), n + '0')
            x0, y0 = h.tensor(D0, 'x0'), h.tensor(D0, 'y0')
            h.method(L, 'forward', [h.tvec([x0]), h.tvec([y0])])
        x, y, gy, gx = h.tensor(D, 'x'), h.tensor(D, 'y'), h.tensor(D, 'gy'), h.tensor(D, 'gx')
        for n in ('gamma', 'beta'): h.havoc(h.pdata(info, n), n)
        for n in ('running_mean', 'running_var'): h.havoc(h.buffer(info, n), n)
        if not train:
            for n in ('gamma', 'beta'): h.method(h.param(info, n), 'train', [FALSE])
        h.method(L, 'forward', [h.tvec([x]), h.tvec([y])])
        c = fresh('c', C)
        if two:
            b, r, s = fresh('b', B), fresh('r', Hh), fresh('s', W)
            n = B * Hh * W; vs = [(b, B), (r, Hh), (s, W)]; at = lambda f: F(f, D)(b, c, r, s); idx = flat((b, c, r, s), D)
        else:
            b = fresh('b', B); n = B; vs = [(b, B)]; at = lambda f: F(f, D)(b, c); idx = flat((b, c), D)
        X, G = at('x'), at('gy')
        g, be = app('gamma', [c]), app('beta', [c])
        rm, rv = app('running_mean', [c]), app('running_var', [c])
        mean = S(vs, X) / n
        va = S(vs, (X - mean) * (X - mean)) / n
        std = app('sqrt', [va + eps])
        if train and part == 'forward':
            h.post_eq('batch norm forward (training)', h.at(y, idx), (X - mean) / std * g + be)
            h.post_eq('running mean', h.at(h.buffer(info, 'running_mean'), c), rm * al + mean * (ONE - al))
            h.post_eq('running var', h.at(h.buffer(info, 'running_var'), c), rv * al + va * (ONE - al))
            h.post_eq('batch norm leaves its input unchanged', h.at(x, idx), X)
        elif train:
            h.method(L, 'backward', [h.tvec([x]), h.tvec([y]), h.tvec([gy]), h.tvec([gx])])
            xh = (X - mean) / std
            gi = g / std * (G - S(vs, G) / n - xh * S(vs, G * xh) / n)
            h.post_eq('batch norm input gradient, accumulated', h.at(gx, idx), at('gx') + gi)
            h.method(L, 'updateGradients', [h.tvec([x]), h.tvec([gy])])
            h.post_eq('beta gradient', h.at(h.pgrad(info, 'beta'), c), S(vs, G))
            h.post_eq('gamma gradient', h.at(h.pgrad(info, 'gamma'), c), S(vs, G * xh))
            h.post_eq('batch norm backward leaves the output gradient unchanged', h.at(gy, idx), G)
        else:
            h.post_eq('batch norm forward (evaluation)', h.at(y, idx), (X - rm) / app('sqrt', [rv + eps]) * g + be)
            h.post_eq('running mean unchanged', h.at(h.buffer(info, 'running_mean'), c), rm)
            h.post_eq('running var unchanged', h.at(h.buffer(info, 'running_var'), c), rv)
    h.run(run)
for _two in (False, True):
    _n = 'batch norm %dd' % (2 if _two else 1)
    goal('C10', _n + ' training')(lambda h, t=_two: bn(h, t, True))
    goal('C10', _n + ' training after another batch')(lambda h, t=_two: bn(h, t, True, 'forward', True))
    goal('C10', _n + ' evaluation')(lambda h, t=_two: bn(h, t, False))
    goal('C10', _n + ' evaluation after another batch')(lambda h, t=_two: bn(h, t, False, 'forward', True))
    goal('C11', _n + ' gradients')(lambda h, t=_two: bn(h, t, True, 'backward'))
    goal('C11', _n + ' gradients after another batch')(lambda h, t=_two: bn(h, t, True, 'backward', True))

# ------------------------------------------------------------- max pooling
def maxpool(h, part, hist=False):
    B, C, Hh, W = D = [h.dim(x) for x in 'BCHW']
    kh, kw, sh, sw = [h.dim(x) for x in ('kh', 'kw', 'sh', 'sw')]
    ph, pw = h.dim('ph', 0), h.dim('pw', 0)
    h.assume(ge(Hh + 2 * ph, kh), ge(W + 2 * pw, kw), lt(ph, kh), lt(pw, kw))
    OH = h.out_extent(Hh + 2 * ph - kh, sh, 'OH'); OW = h.out_extent(W + 2 * pw - kw, sw, 'OW')
    O = [B, C, OH, OW]
    B0 = h.dim('B0') if hist else None
    def run():
        L, info, out = h.layer('MaxPooling', [h.arr2(kh, kw), h.arr2(ph, pw), h.arr2(sh, sw)], [D])
        h.post_shape('MaxPooling output shape', out, O)
        if hist:
            x0, y0 = h.tensor([B0, C, Hh, W], 'x0'), h.tensor([B0, C, OH, OW], 'y0')
            h.method(L, 'forward', [h.tvec([x0]), h.tvec([y0])])
        x, y, gy, gx = h.tensor(D, 'x'), h.tensor(O, 'y'), h.tensor(O, 'gy'), h.tensor(D, 'gx')
        h.method(L, 'forward', [h.tvec([x]), h.tvec([y])])
        b, c, r, s = fresh('b', B), fresh('c', C), fresh('r', OH), fresh('s', OW)
        X = F('x', D)
        def win(op, r, s):
            k = fresh('k', kh * kw)
            i, j = idiv(k, kw), imod(k, kw)
            a, e = r * sh + i - ph, s * sw + j - pw
            body = ite(and_(ge0(a), lt(a, Hh)), ite(and_(ge0(e), lt(e, W)), X(b, c, a, e), neg(var('INF', 'Real'))), neg(var('INF', 'Real')))
            return mk_max(k, kh * kw, body, op)
        if part == 'forward':
            h.post_eq('max pooling forward = maximum over the in-range elements of the window', h.at(y, flat((b, c, r, s), O)), win('max', r, s))
            return
        h.method(L, 'backward', [h.tvec([x]), h.tvec([y]), h.tvec([gy]), h.tvec([gx])])
        u, v = fresh('u', Hh), fresh('v', W)
        i, j = u + ph - r * sh, v + pw - s * sw
        want = F('gx', D)(b, c, u, v) + S([(r, OH), (s, OW)], F('gy', O)(b, c, r, s),
                and_(ge0(i), lt(i, kh), ge0(j), lt(j, kw), eq(win('argmax', r, s), i * kw + j)))
        h.post_eq('max pooling backward routes each output gradient to the first maximum of its window, accumulated', h.at(gx, flat((b, c, u, v), D)), want)
        h.post_eq('max pooling leaves its input unchanged', h.at(x, flat((b, c, u, v), D)), X(b, c, u, v))
    h.run(run)
goal('C08', 'max pooling forward')(lambda h: maxpool(h, 'forward'))
goal('C08', 'max pooling backward')(lambda h: maxpool(h, 'backward'))
goal('C08', 'max pooling backward after another batch')(lambda h: maxpool(h, 'backward', True))
