"""C25: image reading (contracts of the decoders in dwv/img.py)."""
from .layers import *
from .tensor import refused
from . import goal
from ..img import Decoder

PNG, JPG = ('pic.v2.png',), ('dir.x/a.jpg', 'a.jpeg')
def read(h, path, t=None):
    if t is None: return h.call('deepworks::io::ReadImage', [X.Str(path)], n=1)
    h.call('deepworks::io::ReadImage', [X.Str(path), t], n=2)
    return t
def samples(h, d, t, dims):
    y, k = fresh('y', d.H), fresh('k', d.W * d.C)
    if dims: h.post_tshape('the shape is height x width x channels', t, [d.H, d.W, d.C])
    h.post_eq('as many elements as the image has samples', h.total(t), d.H * d.W * d.C)
    h.post_eq('every element is the decoded sample', h.at(t, y * (d.W * d.C) + k), app('pix', [y, k], 'Int'))
def ok(h, path, how):
    d = Decoder(h, path)
    r = {'rank 1': 1, 'rank 2': 2, 'rank 4': 4}.get(how)
    E = [h.dim('E%d' % i) for i in range(r)] if r else None
    if r: h.assume(eq(prod(E), d.H * d.W * d.C))
    def fn():
        d.reset()
        if how == 'returned': t = read(h, path)
        elif how == 'empty': t = read(h, path, h.ex.default_value('deepworks::Tensor'))
        else:
            t = h.tensor(E, 'old'); p = h.data(t)
            read(h, path, t)
            q = h.data(t)
            h.post('an allocated tensor keeps its memory', mk_bool(p.rid == q.rid and p.off is q.off))
            h.post_tshape('an allocated tensor keeps its shape', t, E)
        h.post('an unreadable file is refused with an exception', mk_bool(not d.failed))
        if path.endswith('png'): h.post('only 8 bits per sample are accepted', eq(d.depth, num(8)))
        h.post('the file is closed', mk_bool(d.opened == d.closed))
        samples(h, d, t, not r)
    h.run(fn, expect_throw=True)
    normal(h, d, path, fn)
def normal(h, d, path, fn):
    """a readable file is not refused"""
    n = [r for r in h.results if r[0] == 'ok']
    h.post('a readable file is accepted', mk_bool(bool(n)))
def accept(h, path):
    """under a readable 8-bit file no exception is raised"""
    d = Decoder(h, path)
    h.assume(eq(d.depth, num(8)), not_(eq0(var('fopen_fails'))), eq0(var('fread_short')), eq0(var('sig_cmp')), eq0(var('setjmp_1')), eq0(var('setjmp_2')), eq0(var('setjmp_3')),
             *[eq0(var('jpeg_error_%d' % k)) for k in range(1, 9)])
    def fn():
        d.reset(); read(h, path)
        h.post('a readable file is accepted', TRUE)       # an exception on any path is a refuted obligation of run()
    h.run(fn)
def closed(h, path):
    """whatever happens, the file is closed and the exception is the only way out"""
    d = Decoder(h, path)
    def fn():
        d.reset()
        def post(): h.post('the file is closed on every way out', mk_bool(d.opened == d.closed))
        try: read(h, path, h.ex.default_value('deepworks::Tensor'))
        except X.CppThrow: post(); raise
        post()
    h.run(fn, expect_throw=True)
def wrong(h, path):
    d = Decoder(h, path)
    E = h.dim('E')
    h.assume(not_(eq(E, d.H * d.W * d.C)))
    def fn():
        d.reset(); t = h.tensor([E], 'old')
        try: read(h, path, t)
        except X.CppThrow:
            i = fresh('i', E)
            h.post_eq('a refused read leaves the tensor as it was', h.at(t, i), app('old', [i])); raise
        h.post('a tensor of another size is refused', FALSE)
    h.run(fn, expect_throw=True)
    h.post('a tensor of another size is refused', TRUE)
for _p in PNG + JPG:
    for _w in ('returned', 'empty', 'rank 1', 'rank 2', 'rank 4'):
        goal('C25', '%s, %s' % (_p, _w))(lambda h, p=_p, w=_w: ok(h, p, w))
    goal('C25', '%s, a readable file is accepted' % _p)(lambda h, p=_p: accept(h, p))
    goal('C25', '%s, file closed' % _p)(lambda h, p=_p: closed(h, p))
    goal('C25', '%s, wrong size' % _p)(lambda h, p=_p: wrong(h, p))
for _p in ('a.bmp', 'a', 'png.x', 'a.PNG', 'a.png.txt', 'a.jpe', 'a.jpg2', ''):
    goal('C25', 'unsupported name %r' % _p)(lambda h, p=_p: refused(h, 'a file of another type is refused', lambda: (Decoder(h, p), read(h, p))))
