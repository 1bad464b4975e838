"""C13 (every backward accumulates) and C14 (parallel loops are race-free), for every layer kind."""
from .layers import *
from . import goal

class Setup:
    """one layer with tensors around it"""
    def __init__(s, h, kind):
        s.h, s.kind = h, kind
        getattr(s, 'k_' + kind)()
    def dims(s, names, lo=1): return [s.h.dim(n, lo) for n in names]
    def win(s):
        h = s.h
        B, C, H, W = s.dims('BCHW'); kh, kw, sh, sw = s.dims(['kh', 'kw', 'sh', 'sw']); ph, pw = s.dims(['ph', 'pw'], 0)
        h.assume(ge(H + 2 * ph, kh), ge(W + 2 * pw, kw))
        OH, OW = h.out_extent(H + 2 * ph - kh, sh, 'OH'), h.out_extent(W + 2 * pw - kw, sw, 'OW')
        return B, C, H, W, kh, kw, sh, sw, ph, pw, OH, OW
    def k_ReLU(s, r=4): s.ins = [s.dims(['D%d' % i for i in range(r)])]; s.out = s.ins[0]; s.args = lambda: []; s.params = []
    def k_Sigmoid(s): s.k_ReLU()
    def k_LeakyReLU(s): s.k_ReLU(); s.args = lambda: [var('alpha', 'Real')]
    def k_ELU(s): s.k_LeakyReLU()
    def k_Softmax(s): s.k_ReLU(2)
    def k_Dropout(s):
        s.k_ReLU(2); p = var('p', 'Real'); s.h.assume(ge0(p), lt(p, ONE)); s.args = lambda: [p]
    def k_Add(s): s.k_ReLU(); s.ins = [s.ins[0], s.ins[0]]
    def k_Linear(s):
        N, I, O = s.dims(['N', 'I', 'O']); s.ins, s.out = [[N, I]], [N, O]; s.args = lambda: [O]; s.params = ['weight', 'bias']
    def k_GlobalAvgPooling(s):
        B, C, H, W = s.dims('BCHW'); s.ins, s.out = [[B, C, H, W]], [B, C, ONE, ONE]; s.args = lambda: []; s.params = []
    def k_BatchNorm1D(s, names='BC'):
        D = s.dims(names); e, a = var('eps', 'Real'), var('alpha', 'Real'); s.h.assume(gt(e, ZERO))
        s.ins, s.out, s.args, s.params = [D], D, lambda: [e, a], ['gamma', 'beta']
    def k_BatchNorm2D(s): s.k_BatchNorm1D('BCHW')
    def k_Convolution(s):
        B, C, H, W, kh, kw, sh, sw, ph, pw, OH, OW = s.win(); O = s.h.dim('O'); h = s.h
        s.ins, s.out, s.params = [[B, C, H, W]], [B, O, OH, OW], ['weight', 'bias']
        s.args = lambda: [O, h.arr2(kh, kw), h.arr2(ph, pw), h.arr2(sh, sw)]
    def k_MaxPooling(s):
        B, C, H, W, kh, kw, sh, sw, ph, pw, OH, OW = s.win(); h = s.h
        h.assume(lt(ph, kh), lt(pw, kw))
        s.ins, s.out, s.params = [[B, C, H, W]], [B, C, OH, OW], []
        s.args = lambda: [h.arr2(kh, kw), h.arr2(ph, pw), h.arr2(sh, sw)]
    def build(s):
        h = s.h
        s.L, s.info, out = h.layer(s.kind, s.args(), s.ins)
        s.x = [h.tensor(d, 'x%d' % i) for i, d in enumerate(s.ins)]
        s.gx = [h.tensor(d, 'gx%d' % i) for i, d in enumerate(s.ins)]
        s.y, s.gy = h.tensor(s.out, 'y'), h.tensor(s.out, 'gy')
        for n in s.params: h.havoc(h.pdata(s.info, n), n)
    def fwd(s): s.h.method(s.L, 'forward', [s.h.tvec(s.x), s.h.tvec([s.y])])
    def bwd(s): s.h.method(s.L, 'backward', [s.h.tvec(s.x), s.h.tvec([s.y]), s.h.tvec([s.gy]), s.h.tvec(s.gx)])
    def upd(s): s.h.method(s.L, 'updateGradients', [s.h.tvec(s.x), s.h.tvec([s.gy])])
KINDS = ['ReLU', 'LeakyReLU', 'ELU', 'Sigmoid', 'Softmax', 'Linear', 'Convolution', 'MaxPooling', 'Add', 'GlobalAvgPooling', 'Dropout', 'BatchNorm1D', 'BatchNorm2D']

def twice(h, kind):
    s = Setup(h, kind)
    def run():
        s.build()
        s.fwd()
        fr = h.frame([('input %d' % i, x) for i, x in enumerate(s.x)] + [('the output', s.y), ('the output gradient', s.gy)] +
                     [('parameter ' + n, h.pdata(s.info, n)) for n in s.params] + [('the gradient of parameter ' + n, h.pgrad(s.info, n)) for n in s.params])
        s.bwd()
        h.post_frame('%s backward' % kind, fr)
        ix = [fresh('i', prod(d)) for d in s.ins]
        one = [h.at(g, i) for g, i in zip(s.gx, ix)]
        s.bwd()
        for k, (g, i) in enumerate(zip(s.gx, ix)):
            h.post_eq('%s: a second backward adds the same contribution again (input %d)' % (kind, k), h.at(g, i), one[k] + one[k] - app('gx%d' % k, [i]))
    h.run(run)
for _k in KINDS: goal('C13', _k)(lambda h, k=_k: twice(h, k))

def races(h, kind):
    s = Setup(h, kind)
    def run():
        s.build()
        s.fwd(); s.bwd(); s.upd()
        n = sum(o.kind == 'race-free' and o.status != 'discharged' for o in h.ex.obligs)
        if n == 0: h.post('%s: every parallel loop of forward, backward and updateGradients is race-free' % kind, TRUE)
        else: h.post('%s: every parallel loop of forward, backward and updateGradients is race-free' % kind, FALSE) if any(o.refuted for o in h.ex.obligs) else None
    h.run(run)
for _k in KINDS: goal('C14', _k)(lambda h, k=_k: races(h, k))
