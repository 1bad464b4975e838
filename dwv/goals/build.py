"""C19 (shape inference, parameter shapes, refusals) and C20 (layers by name)."""
from .layers import *
from .tensor import T_, sym_shape, refused, total_of, any_geometry
from . import goal
from ..prove import APPFACTS

def ph(h, shape_loc):
    ctor = h.fn('deepworks::Placeholder::Placeholder', 1, lambda f: 'vector' in f['pt'][0])
    loc = h.ex.alloc_rec(h.ex.record_of('deepworks::Placeholder'))
    h.ex.call_fn(ctor, [shape_loc], loc)
    return loc
def info_of(h, op): return h.ex.obj(op).f['m_info']
def impl(h, o): return h.method(o, 'impl', [])
def fld(h, o, name):
    """location of a field"""
    x = h.ex.obj(o)
    if name not in x.f: raise X.Unsupported('field %s of %s' % (name, x.cls))
    v = x.f[name]
    return v if isinstance(v, tuple) and v and v[0] == 'o' else ('f', o[1], name)
def names(h, mp):
    return sorted(k.s for k, _ in h.ex.obj(mp).items)
def made(h, out):
    """(Call, LayerInfo) that produced a placeholder"""
    c = fld(h, impl(h, out), 'call')
    o = h.ex.obj(c)
    h.post('the output records the call that produced it', o.f['has'])
    call = o.f['v']
    return call, fld(h, impl(h, call), 'info')
def wiring(h, what, out, ins):
    call, info = made(h, out)
    args = h.ex.obj(fld(h, impl(h, call), 'args'))
    items = args.items if isinstance(args, X.Seq) else None
    ok = items is not None and len(items) == len(ins)
    h.post(what + ': consumes as many inputs as it was given', mk_bool(ok))
    if ok:
        for k, (a, b) in enumerate(zip(items, ins)):
            h.post(what + ': input %d is the placeholder given' % k, mk_bool(fkey(h, a, 'm_impl') == fkey(h, b, 'm_impl')))
    h.post_eq(what + ': output port 0', h.ex.rvalue(fld(h, impl(h, out), 'port')), ZERO)
    return info
def fkey(h, o, f):
    v = h.ex.rvalue(fld(h, o, f))
    return v.key() if hasattr(v, 'key') else v
def params_are(h, what, info, params, buffers):
    h.post(what + ': exactly the parameters %s' % ', '.join(params) if params else what + ': no parameters', mk_bool(names(h, h.method(info, 'params', [])) == sorted(params)))
    h.post(what + ': exactly the buffers %s' % ', '.join(buffers) if buffers else what + ': no buffers', mk_bool(names(h, h.method(info, 'buffers', [])) == sorted(buffers)))
def tens(h, what, t, dims, val=None):
    h.post_tshape(what + ' shape', t, dims)
    h.post_eq(what + ' element count', h.total(t), prod(dims))
    if val is not None:
        i = fresh('i', prod(dims))
        h.post_eq(what + ' initial value', h.at(t, i), val)
def par(h, what, info, name, dims, val=None):
    tens(h, '%s %s' % (what, name), h.pdata(info, name), dims, val)
    tens(h, '%s %s gradient' % (what, name), h.pgrad(info, name), dims)
    h.post('%s %s is trainable' % (what, name), h.ex.truth(h.ex.rvalue(h.method(h.param(info, name), 'is_trainable', []))))
def same_shape(h, what, o, n, name='dim'):
    """placeholder/tensor o has the any-rank shape name(0..n-1)"""
    k = fresh('k', n)
    sh = h.method(o, 'shape', [])
    h.post_eq(what + ': rank', h.ex.seq_len(h.ex.obj(sh)), n)
    h.post_eq(what + ': extents', h.ex.rvalue(h.ex.elem(sh, k)), app(name, [k], 'Int'))

# ------------------------------------------------------------------ C19
def keeps(h, cls, args):
    """layers that keep the shape of their input, whatever its rank"""
    n = h.dim('rank')
    def run():
        op = h.op(cls, [var('alpha', 'Real')] if args else [])
        p = ph(h, sym_shape(h, n, 'dim'))
        out = h.apply_op(op, [p])
        same_shape(h, '%s output' % cls, out, n)
        same_shape(h, '%s input' % cls, p, n)
        info = wiring(h, cls, out, [p])
        if cls == 'Dropout':
            params_are(h, cls, info, ['mask'], [])
            same_shape(h, 'Dropout mask', h.pdata(info, 'mask'), n)
            h.post_eq('Dropout mask has one element per input element', h.total(h.pdata(info, 'mask')), total_of(n, 'dim'))
        else: params_are(h, cls, info, [], [])
    h.run(run)
for _c, _a in (('ReLU', 0), ('LeakyReLU', 1), ('ELU', 1), ('Sigmoid', 0), ('Softmax', 0), ('Dropout', 1)):
    goal('C19', '%s, any rank' % _c)(lambda h, c=_c, a=_a: keeps(h, c, a))
@goal('C19', 'Linear, any rank')
def lin_any(h):
    n = h.dim('rank', 2); O = h.dim('O')
    def run():
        op = h.op('Linear', [O])
        p = ph(h, sym_shape(h, n, 'dim'))
        out = h.apply_op(op, [p])
        D0 = app('dim', [ZERO], 'Int'); s = fresh('s', sub(n, ONE))
        I = mk_prod(s, sub(n, ONE), app('dim', [add(s, ONE)], 'Int'))
        h.post_shape('Linear output shape', out, [D0, O])
        info = wiring(h, 'Linear', out, [p])
        params_are(h, 'Linear', info, ['weight', 'bias'], [])
        par(h, 'Linear', info, 'weight', [O, I]); par(h, 'Linear', info, 'bias', [O], ZERO)
    h.run(run)
@goal('C19', 'Linear refuses 1-d inputs')
def lin_1(h):
    N, O = h.dim('N'), h.dim('O')
    refused(h, 'Linear refuses 1-d inputs', lambda: h.apply_op(h.op('Linear', [O]), [h.placeholder([N])]))
def bnorm(h, cls, r):
    D = [h.dim('D%d' % i) for i in range(r)]
    def run():
        op = h.op(cls, [var('eps', 'Real'), var('alpha', 'Real')])
        p = h.placeholder(D)
        out = h.apply_op(op, [p])
        h.post_shape(cls + ' output shape', out, D)
        info = wiring(h, cls, out, [p])
        params_are(h, cls, info, ['gamma', 'beta'], ['running_mean', 'running_var'])
        par(h, cls, info, 'gamma', [D[1]], ONE); par(h, cls, info, 'beta', [D[1]], ZERO)
        for b in ('running_mean', 'running_var'): tens(h, '%s %s' % (cls, b), h.buffer(info, b), [D[1]], ZERO)
    h.run(run)
goal('C19', 'BatchNorm1D')(lambda h: bnorm(h, 'BatchNorm1D', 2))
goal('C19', 'BatchNorm2D')(lambda h: bnorm(h, 'BatchNorm2D', 4))
@goal('C19', 'GlobalAvgPooling')
def gap_(h):
    D = [h.dim('D%d' % i) for i in range(4)]
    def run():
        p = h.placeholder(D)
        out = h.apply_op(h.op('GlobalAvgPooling', []), [p])
        h.post_shape('GlobalAvgPooling output shape', out, [D[0], D[1], ONE, ONE])
        params_are(h, 'GlobalAvgPooling', wiring(h, 'GlobalAvgPooling', out, [p]), [], [])
    h.run(run)
class Win:
    def __init__(s, h):
        s.h = h
        s.D = [h.dim('D%d' % i) for i in range(4)]
        s.k, s.s = [h.dim('kh'), h.dim('kw')], [h.dim('sh'), h.dim('sw')]
        s.p = [h.dim('ph', 0), h.dim('pw', 0)]
        s.O = h.dim('O')
    def args(s, cls):
        a = [s.h.arr2(*s.k), s.h.arr2(*s.p), s.h.arr2(*s.s)]
        return ([s.O] if cls == 'Convolution' else []) + a
def window(h, cls):
    s = Win(h); E = []
    for i in (0, 1):
        h.assume(ge(s.D[2+i] + 2 * s.p[i], s.k[i]))
        E.append(h.out_extent(s.D[2+i] + 2 * s.p[i] - s.k[i], s.s[i], 'O' + 'HW'[i]))
    def run():
        p = h.placeholder(s.D)
        out = h.apply_op(h.op(cls, s.args(cls)), [p])
        C = s.O if cls == 'Convolution' else s.D[1]
        h.post_shape(cls + ' output shape', out, [s.D[0], C] + E)
        info = wiring(h, cls, out, [p])
        if cls == 'Convolution':
            params_are(h, cls, info, ['weight', 'bias'], [])
            par(h, cls, info, 'weight', [s.O, s.D[1]] + s.k); par(h, cls, info, 'bias', [s.O], ZERO)
        else: params_are(h, cls, info, [], [])
    h.run(run)
def too_big(h, cls, i):
    s = Win(h)
    h.assume(gt(s.k[i], s.D[2+i] + 2 * s.p[i]))
    refused(h, '%s refuses a window larger than the padded image' % cls, lambda: h.apply_op(h.op(cls, s.args(cls)), [h.placeholder(s.D)]))
for _c in ('Convolution', 'MaxPooling'):
    goal('C19', _c)(lambda h, c=_c: window(h, c))
    for _i in (0, 1): goal('C19', '%s refuses windows beyond the image, %s' % (_c, 'rows' if _i == 0 else 'columns'))(lambda h, c=_c, i=_i: too_big(h, c, i))
def bad_rank(h, cls, want, low):
    n = h.dim('rank')
    h.assume(lt(n, num(want)) if low else gt(n, num(want)))
    s = Win(h)
    def fn():
        a = s.args(cls) if cls in ('Convolution', 'MaxPooling') else [var('eps', 'Real'), var('alpha', 'Real')] if 'Norm' in cls else []
        h.apply_op(h.op(cls, a), [ph(h, sym_shape(h, n, 'dim'))])
    refused(h, '%s refuses inputs of another rank' % cls, fn)
for _c, _w in (('Convolution', 4), ('MaxPooling', 4), ('BatchNorm2D', 4), ('GlobalAvgPooling', 4), ('BatchNorm1D', 2)):
    for _l in (True, False): goal('C19', '%s refuses other ranks, %s' % (_c, 'lower' if _l else 'higher'))(lambda h, c=_c, w=_w, l=_l: bad_rank(h, c, w, l))
@goal('C19', 'Softmax refuses other ranks when run')
def softmax_rank(h, low=True):
    n = h.dim('rank', 1); h.assume(lt(n, num(2)) if low else gt(n, num(2)))
    def fn():
        op = h.op('Softmax', [])
        h.apply_op(op, [ph(h, sym_shape(h, n, 'dim'))])
        sp = h.ex.rvalue(h.call('deepworks::cpu::ICPULayer::create', [h.ex.copy_obj(info_of(h, op))]))
        x, y = T_(h, [sym_shape(h, n, 'dim')]), T_(h, [sym_shape(h, n, 'dim')])
        h.method(h.ex.deref(sp), 'forward', [h.tvec([x]), h.tvec([y])])
    refused(h, 'Softmax refuses inputs of another rank', fn)
goal('C19', 'Softmax refuses higher ranks when run')(lambda h: softmax_rank(h, False))
@goal('C19', 'Add, any rank')
def add_any(h):
    n = h.dim('rank')
    def run():
        a, b = ph(h, sym_shape(h, n, 'dim')), ph(h, sym_shape(h, n, 'dim'))
        out = h.apply_op(h.op('Add', []), [a, b])
        same_shape(h, 'Add output', out, n)
        params_are(h, 'Add', wiring(h, 'Add', out, [a, b]), [], [])
    h.run(run)
def add_bad(h, rank):
    n = h.dim('rank')
    if rank:
        m = h.dim('rank2'); h.assume(not_(eq(n, m)))
    else:
        m = n; k = var('k'); h.assume(ge0(k), gt(n, k)); h.ex.witness = [k]
    def fn():
        a, b = sym_shape(h, n, 'dim'), sym_shape(h, m, 'ext')
        if not rank: h.assume(not_(eq(app('dim', [k], 'Int'), app('ext', [k], 'Int'))))
        h.apply_op(h.op('Add', []), [ph(h, a), ph(h, b)])
    refused(h, 'Add refuses inputs of different shapes', fn)
goal('C19', 'Add refuses different ranks')(lambda h: add_bad(h, True))
goal('C19', 'Add refuses different extents')(lambda h: add_bad(h, False))
def share(h, cls):
    """two layers of one kind built independently do not share parameters"""

# ------------------------------------------------------------------ C20
def KINDS(h):
    D2, D4 = [h.dim('N'), h.dim('F')], [h.dim('D%d' % i) for i in range(4)]
    al, ep = var('alpha', 'Real'), var('eps', 'Real')
    k, p, s = [h.dim('kh'), h.dim('kw')], [h.dim('ph', 0), h.dim('pw', 0)], [h.dim('sh'), h.dim('sw')]
    for i in (0, 1): h.assume(ge(D4[2+i] + 2 * p[i], k[i]))
    win = lambda: [h.arr2(*k), h.arr2(*p), h.arr2(*s)]
    I, R = 'int', 'float'
    A = lambda v: ('arr', v)
    return {
     'Linear': (lambda: [h.dim('O')], [D4], {'units': h.dim('O')}),
     'ReLU': (lambda: [], [D2], {}), 'Softmax': (lambda: [], [D2], {}), 'Sigmoid': (lambda: [], [D2], {}),
     'ELU': (lambda: [al], [D2], {'alpha': al}), 'LeakyReLU': (lambda: [al], [D2], {'alpha': al}),
     'BatchNorm1D': (lambda: [ep, al], [D2], {'eps': ep, 'alpha': al}), 'BatchNorm2D': (lambda: [ep, al], [D4], {'eps': ep, 'alpha': al}),
     'MaxPooling': (win, [D4], {'kernel': k, 'padding': p, 'stride': s}),
     'Convolution': (lambda: [h.dim('O')] + win(), [D4], {'out_channels': h.dim('O'), 'kernel': k, 'padding': p, 'stride': s}),
     'Dropout': (lambda: [al], [D4], {'p': al}), 'GlobalAvgPooling': (lambda: [], [D4], {}), 'Add': (lambda: [], [D4, D4], {}),
    }
ALL = ['Linear', 'ReLU', 'Softmax', 'Sigmoid', 'ELU', 'LeakyReLU', 'BatchNorm1D', 'BatchNorm2D', 'MaxPooling', 'Convolution', 'Dropout', 'GlobalAvgPooling', 'Add']
def attr(h, attrs, name):
    """(stored type, value) of attribute name"""
    at = h.ex.natives.get('std::unordered_map::at')
    a = h.ex.obj(h.ex.obj(at(h.ex, {}, {}, [attrs, X.Str(name)])).f['m_value'])
    return a.f['t'].s, a.f['v']
def config_is(h, what, info, want):
    attrs = fld(h, impl(h, info), 'attrs')
    h.post(what + ': exactly the attributes of the kind', mk_bool(names(h, attrs) == sorted(want)))
    for n, w in want.items():
        t, v = attr(h, attrs, n)
        if isinstance(w, list):
            o = h.ex.obj(v)
            h.post('%s: %s is stored as a pair of int' % (what, n), mk_bool(t.replace(' ', '') .startswith('std::array<int,2')))
            for i in (0, 1): h.post_eq('%s: %s[%d]' % (what, n, i), h.ex.rvalue(h.ex.elem(v, num(i))), w[i])
        else:
            h.post('%s: %s is stored as the type it is read with' % (what, n), mk_bool(t == ('int' if n in ('units', 'out_channels') else 'float')))
            h.post_eq('%s: %s' % (what, n), h.ex.rvalue(v) if isinstance(v, tuple) else v, w)
def same_tensor_shapes(h, what, a, b, get):
    na, nb = names(h, a), names(h, b)
    h.post(what + ': the same names', mk_bool(na == nb))
    for k in na:
        if k in nb: h.post_tshape('%s: shape of %s' % (what, k), get(b, k), list(h.shape(get(a, k)).items))
def string_of(h, v):
    v = h.ex.rvalue(v)
    return v.s if isinstance(v, X.Str) else None
def bound(h, info):
    sp = h.ex.rvalue(h.call('deepworks::cpu::ICPULayer::create', [h.ex.copy_obj(info)]))
    return X.tname(h.ex.obj(h.ex.deref(sp)).cls)
def remake(h, cls):
    args, ins, cfg = KINDS(h)[cls]
    def run():
        op = h.op(cls, args())
        p = [h.placeholder(s) for s in ins]
        out = h.apply_op(op, p)
        info = wiring(h, cls, out, p)
        config_is(h, 'a ' + cls, info, cfg)
        h.post(cls + ' carries its type name', mk_bool(string_of(h, h.method(info, 'type', [])) == cls))
        h.post(cls + ' carries its own name', mk_bool(string_of(h, h.method(info, 'name', [])) == 'layer'))
        q = [h.placeholder(s) for s in ins]
        attrs = h.ex.copy_obj(fld(h, impl(h, info), 'attrs'))
        out2 = h.call('deepworks::make_layer', [X.Str(cls), X.Str('again'), attrs, h.ex.new_obj(X.Seq('deepworks::Placeholder', q))])
        what = 're-created ' + cls
        info2 = wiring(h, what, out2, q)
        config_is(h, what, info2, cfg)
        h.post(what + ' has the same kind', mk_bool(string_of(h, h.method(info2, 'type', [])) == cls))
        h.post(what + ' has the name given', mk_bool(string_of(h, h.method(info2, 'name', [])) == 'again'))
        h.post_shape(what + ': output shape', out2, list(h.ex.obj(h.method(out, 'shape', [])).items))
        at = h.ex.natives.get('std::unordered_map::at')
        same_tensor_shapes(h, what + ' parameters', h.method(info, 'params', []), h.method(info2, 'params', []), lambda m, k: h.method(at(h.ex, {}, {}, [m, X.Str(k)]), 'data', []))
        same_tensor_shapes(h, what + ' buffers', h.method(info, 'buffers', []), h.method(info2, 'buffers', []), lambda m, k: at(h.ex, {}, {}, [m, X.Str(k)]))
        b1, b2 = bound(h, info), bound(h, info2)
        h.post(what + ' is bound to the same computation', mk_bool(b1 == b2))
    h.run(run)
for _c in ALL: goal('C20', 're-created ' + _c)(lambda h, c=_c: remake(h, c))
@goal('C20', 'every kind has its own computation')
def distinct(h):
    def run():
        b = {}
        for cls in ALL:
            args, ins, cfg = KINDS(h)[cls]
            op = h.op(cls, args()); h.apply_op(op, [h.placeholder(s) for s in ins])
            b[cls] = bound(h, info_of(h, op))
        for i, x in enumerate(ALL):
            h.post('%s has a computation of its own' % x, mk_bool(all(b[x] != b[y] for y in ALL[:i])))
    h.run(run)
@goal('C20', 'unknown names are refused')
def unknown(h):
    D = [h.dim('D%d' % i) for i in range(4)]
    def fn():
        m = h.ex.new_obj(X.MapO(()))
        # a string equal to no literal of the program: every unknown name behaves like it
        h.call('deepworks::make_layer', [X.Str('\x00any other name'), X.Str('n'), m, h.ex.new_obj(X.Seq('deepworks::Placeholder', [h.placeholder(D)]))])
    refused(h, 'make_layer refuses unknown kinds', fn)
@goal('C20', 'unknown kinds have no computation')
def unknown2(h):
    def fn():
        info = h.ex.alloc_rec(h.ex.record_of('deepworks::LayerInfo'))
        h.ex.call_fn(h.fn('deepworks::LayerInfo::LayerInfo', 2), [X.Str('n'), X.Str('\x00any other name')], info)
        h.call('deepworks::cpu::ICPULayer::create', [info])
    refused(h, 'the layer factory refuses unknown kinds', fn)
