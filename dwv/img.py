"""Assumed contracts of libpng, libjpeg and stdio as used by the image reader
(ghost decoder state; every sample of the file is an arbitrary value pix(row, k)).

A decoding error is a non-local return to the armed setjmp: it is explored there, with
the state of the caller at that point.  Calls that can fail carry the obligation that
the error cannot end the process (a jump buffer is armed, or a throwing handler is set)."""
from .terms import *
from .prove import PROV, APPFACTS
from .mem import *
from . import exec as X

APPFACTS['pix'] = lambda *a: [ge0(app('pix', a, 'Int')), ge0(sub(num(255), app('pix', a, 'Int')))]
class Decoder:
    def __init__(self, h, path):
        ex = h.ex
        self.h, self.ex, self.path = h, ex, path
        self.W, self.H, self.C = h.dim('W'), h.dim('H'), h.dim('C')
        self.depth = h.dim('bit_depth')
        h.assume(ge0(var('fread_n')), gt(num(8), var('fread_n')))
        self.reset()
        t = ex.natives
        for n in dir(self):
            if n.startswith('n_'): t[n[2:]] = (lambda f: lambda ex, e, fn, args: f(*[ex.rvalue(a) for a in args]))(getattr(self, n))
        ex.ext_records['jpeg_decompress_struct'] = self.cinfo
        ex.ext_records['jpeg_error_mgr'] = lambda ex: ex.new_obj(X.Rec('jpeg_error_mgr', {'error_exit': X.Opaque('default'), 'std': FALSE}))
    def reset(self):
        self.short = False        # the file ended within the signature
        self.failed = False       # the decoder reported an error on this path
        self.opened = self.closed = 0
        self.armed = {'png': False, 'jpeg': False}
        self.nsj = 0
        self.state = 'none'
        self.cur = None
    def row(self, k): return mul(self.W, self.C)
    def must(self, c, text): self.ex.oblige('decoder contract', (TRUE if c else FALSE) if isinstance(c, bool) else c, text)
    # -------------------------------------------------------------- stdio
    def n_fopen(self, name, mode):
        ok = isinstance(name, X.Str)
        self.must(ok, 'the name passed to fopen is a terminated string')
        if ok: self.must(name.s == self.path, 'fopen is given the path of the image')
        self.must(isinstance(mode, X.Str) and mode.s == 'rb', 'the image is opened for binary reading')
        if self.ex.branch(eq0(var('fopen_fails'))): self.failed = True; return X.NULL
        self.opened += 1
        return X.Handle('FILE')
    def n_fclose(self, f):
        self.must(f is not X.NULL, 'fclose is given an open file')
        self.must(self.closed < self.opened, 'the file is closed once')
        self.closed += 1
        return ZERO
    def n_fread(self, buf, size, n, f):
        self.must(f is not X.NULL, 'fread is given an open file')
        if self.ex.branch(eq0(var('fread_short'))): return n
        self.short = True         # fewer than n items were left: not a PNG file, png_sig_cmp rejects it
        return ZERO if n is ONE else var('fread_n')
    def n_free(self, p): self.ex.free(p); return None
    def n_malloc(self, n):
        return X.Opaque('malloc', n)
    # -------------------------------------------------------------- setjmp
    def n__setjmp(self, buf):
        self.nsj += 1
        r = var('setjmp_%d' % self.nsj)
        o = self.ex.obj(buf) if isinstance(buf, tuple) else None
        which = 'png' if o is not None and isinstance(o, X.Rec) and o.cls == 'png_jmpbuf' else 'jpeg'
        if which == 'png': self.armed['png'] = True
        else: self.armed['jpeg'] = True
        if not self.ex.branch(eq0(r)): self.failed = True
        return r
    # ----------------------------------------------------------------- png
    def n_png_sig_cmp(self, buf, a, n):
        self.must(and_(eq0(a), eq(n, num(8))), 'the whole PNG signature is compared')
        if self.short or not self.ex.branch(eq0(var('sig_cmp'))): self.failed = True; return ONE
        return ZERO
    def n_png_create_read_struct(self, *a):
        self.must(all(x is X.NULL or isinstance(x, X.Str) for x in a), 'default libpng error handling')
        return X.Handle('png')
    def n_png_create_info_struct(self, p): self.must(isinstance(p, X.Handle), 'info struct of a created reader'); return X.Handle('png_info')
    def n_png_set_longjmp_fn(self, p, f, n): return X.PObj(self.ex.new_obj(X.Rec('png_jmpbuf', {})))
    def png(self, p, *info):
        self.must(isinstance(p, X.Handle) and p.name == 'png', 'libpng is given the reader')
        self.must(self.armed['png'], 'a decoding error returns to this function instead of ending the process (libpng)')
    def n_png_init_io(self, p, f): self.png(p); self.must(f is not X.NULL, 'the reader gets an open file'); self.state = 'io'
    def n_png_set_sig_bytes(self, p, n): self.must(eq(n, num(8)), 'the reader is told that the 8 signature bytes were consumed'); self.sig = True
    def n_png_read_info(self, p, i):
        self.png(p); self.must(self.state == 'io', 'the header is read from an initialised reader'); self.state = 'info'
    def get(self, v):
        self.must(self.state in ('info', 'updated'), 'image properties are taken after the header was read')
        return v
    def n_png_get_image_width(self, p, i): return self.get(self.W)
    def n_png_get_image_height(self, p, i): return self.get(self.H)
    def n_png_get_channels(self, p, i): return self.get(self.C)
    def n_png_get_bit_depth(self, p, i): return self.get(self.depth)
    def n_png_get_rowbytes(self, p, i): return self.get(self.rowbytes())
    def rowbytes(self):
        if PROV.prove(eq(self.depth, num(8)), (), True): return mul(self.W, self.C)
        return idiv(add(mul(self.W, mul(self.C, self.depth)), num(7)), num(8))
    def n_png_read_update_info(self, p, i): self.png(p); self.must(self.state == 'info', 'update after the header'); self.state = 'updated'
    def n_png_read_image(self, p, rows):
        self.png(p); self.must(self.state in ('info', 'updated'), 'the image is read after the header')
        ex = self.ex
        if not isinstance(rows, X.Ptr): raise Unsupported('row pointers')
        y = fresh('y', self.H); rb = self.rowbytes(); k = fresh('k', rb)
        with PROV.under(ge0(y), gt(self.H, y)):
            ex.check_bounds(rows.rid, rows.pre + (add(rows.off, y),), 'row pointer read by png_read_image')
            d = ex.load_ptr(rows.rid, rows.pre + (add(rows.off, y),))
            with PROV.under(ge0(k), gt(rb, k)):
                ex.check_bounds(d.rid, d.pre + (add(d.off, k),), 'sample written by png_read_image')
        ex.write(d.rid, d.pre + (add(d.off, k),), app('pix', [y, k], 'Int'), vs=[(y, self.H), (k, rb)])
        self.state = 'read'
    def n_png_read_end(self, p, i): self.png(p)
    def n_png_destroy_read_struct(self, *a): return None
    # ---------------------------------------------------------------- jpeg
    def cinfo(self, ex):
        z = {k: ZERO for k in ('output_width', 'output_height', 'output_components', 'output_scanline', 'image_width', 'image_height', 'num_components')}
        z.update(err=X.NULL, mem=X.NULL)
        return ex.new_obj(X.Rec('jpeg_decompress_struct', z))
    def fields(self, p, **kw):
        loc = p.loc; o = self.ex.obj(loc)
        for k, v in kw.items(): self.ex.store(('f', loc[1], k), v)
    def field(self, p, k): return self.ex.obj(p.loc).f[k]
    def n_jpeg_std_error(self, p):
        self.ex.store(('f', p.loc[1], 'std'), TRUE)
        self.ex.store(('f', p.loc[1], 'error_exit'), X.Opaque('default'))
        return p
    def can_fail(self, p):
        """the error handler in place does not end the process"""
        err = self.field(p, 'err')
        ok = isinstance(err, X.PObj) and self.ex.obj(err.loc).f['std'] is TRUE
        self.must(ok, 'the decoder has an initialised error manager')
        f = self.ex.obj(err.loc).f['error_exit'] if ok else None
        how = None
        if isinstance(f, X.Opaque) and f.name.startswith('fn:'):
            g = [x for x in self.h.prog.by_q.get(f.name[3:], []) if x.get('body')]
            s = repr(g[0]['body']) if g else ''
            how = 'longjmp' if "'q': 'longjmp'" in s else 'throw' if "'k': 'throw'" in s else None
        if how == 'throw':
            self.nsj += 1
            if not self.ex.branch(eq0(var('jpeg_error_%d' % self.nsj))): self.failed = True; raise CppThrow('jpeg')
        self.must(how == 'throw' or (how == 'longjmp' and self.armed['jpeg']), 'a decoding error returns to this function instead of ending the process (libjpeg)')
    def n_jpeg_CreateDecompress(self, p, *a):
        self.can_fail(p)
        mem = self.ex.new_obj(X.Rec('jpeg_memory_mgr', {'alloc_sarray': X.Native('alloc_sarray', lambda ex, a: self.sarray(*a))}))
        self.fields(p, mem=X.PObj(mem)); self.state = 'created'
    def n_jpeg_stdio_src(self, p, f): self.can_fail(p); self.must(f is not X.NULL, 'the decoder gets an open file'); self.state = 'io'
    def n_jpeg_read_header(self, p, req): self.can_fail(p); self.must(self.state == 'io', 'the header is read from an initialised decoder'); self.state = 'info'; return ONE
    def n_jpeg_start_decompress(self, p):
        self.can_fail(p); self.must(self.state == 'info', 'decompression starts after the header')
        self.fields(p, output_width=self.W, output_height=self.H, output_components=self.C, output_scanline=ZERO)
        self.state = 'started'; return ONE
    def sarray(self, p, pool, n, rows):
        self.must(ge0(n), 'buffer size is not negative')
        rid = self.ex.new_region('sarray', lambda pre: n, 'Int', arity=2)
        ptrs = self.ex.new_region('sarray.rows', rows, 'Ptr')
        k = fresh('r', rows)
        self.ex.write(ptrs, (k,), app('addr:' + rid, [k, ZERO], 'Ptr'), vs=[(k, rows)])
        return X.Ptr(ptrs, (), ZERO)
    def n_jpeg_read_scanlines(self, p, rows, n):
        ex = self.ex
        self.can_fail(p); self.must(self.state == 'started', 'scanlines are read after decompression started')
        self.must(eq(n, ONE), 'one scanline at a time')
        y = self.field(p, 'output_scanline')
        self.must(gt(self.H, y), 'no more scanlines are read than the image has')
        ex.check_bounds(rows.rid, rows.pre + (rows.off,), 'row pointer read by jpeg_read_scanlines')
        d = ex.load_ptr(rows.rid, rows.pre + (rows.off,))
        rb = mul(self.W, self.C); k = fresh('k', rb)
        with PROV.under(ge0(k), gt(rb, k)):
            ex.check_bounds(d.rid, d.pre + (add(d.off, k),), 'sample written by jpeg_read_scanlines')
        ex.write(d.rid, d.pre + (add(d.off, k),), app('pix', [y, k], 'Int'), vs=[(k, rb)])
        self.fields(p, output_scanline=add(y, ONE))
        return ONE
    def n_jpeg_finish_decompress(self, p): self.can_fail(p); return ONE
    def n_jpeg_abort_decompress(self, p): return None
    def n_jpeg_destroy_decompress(self, p): return None
