"""Assumed contract of std::ofstream/ifstream: a file is the sequence of bytes written
to it, kept as typed segments (ghost state):

  ('v', size, value)            one scalar of `size` bytes
  ('a', size, n, x, value(x))   n elements of `size` bytes
  ('t', text)                   the characters of a string
  ('x', tag, key)               what a function under its own contract wrote
  ('for', v, n, segments(v))    the segments of n loop iterations, in order

A read takes the next segment and must ask for exactly its bytes (anything else is
outside the verifier's reach).  In a file that may be cut short each read may fail."""
from .terms import *
from .prove import PROV, APPFACTS
from .mem import *
from . import exec as X
from .natives import std, STD

class FileO:
    """ghost file object (immutable)"""
    __slots__ = ('mode', 'path', 'opened', 'segs', 'fail')
    move_only = True
    def __init__(self, mode, path, opened, segs, fail): self.mode, self.path, self.opened, self.segs, self.fail = mode, path, opened, tuple(segs), fail
    def with_(self, segs=None, fail=None): return FileO(self.mode, self.path, self.opened, self.segs if segs is None else segs, self.fail if fail is None else fail)
    def __repr__(self): return 'FileO(%s,%s,%s)' % (self.mode, self.path, self.segs)
class Bytes:
    """an object or array of `size`-byte elements viewed as characters"""
    __slots__ = ('p', 'size')
    def __init__(self, p, size): self.p, self.size = p, size
    def key(self): return ('Bytes', self.p.key(), self.size)
class StrN:
    """a string of n characters not known individually"""
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def key(self): return ('StrN', self.n)
class StrPtr:
    """pointer to the characters of the string at loc"""
    __slots__ = ('loc',)
    def __init__(self, loc): self.loc = loc
    def key(self): return ('StrPtr', self.loc)

SIZES = {'int': 4, 'unsigned int': 4, 'float': 4, 'double': 8, 'long': 8, 'unsigned long': 8, 'bool': 1, 'short': 2, 'unsigned short': 2}

def strterm(s):
    """a string as a term"""
    if isinstance(s, T): return s
    if isinstance(s, X.Str): return app('strlit', [num(X.strid(s.s))], 'Int')
    raise Unsupported('characters of %s' % (s,))
def unterm(t):
    if t.op == 'app' and t.args[0] == 'strlit': return X.Str(X.STRS[int(t.args[1].val)])
    return t
def str_len(v):
    if isinstance(v, X.Str):
        if v.s[:1] == chr(0): return app('slen', [num(X.strid(v.s))], 'Int')
        return num(len(v.s))
    if isinstance(v, StrN): return v.n
    if isinstance(v, T): return app('slen', [v], 'Int')
    raise Unsupported('length of %s' % (v,))
def facts():
    APPFACTS['slen'] = lambda *a: [ge0(app('slen', a, 'Int'))]
facts()

def seg_sub(s, m):
    if s[0] == 'v': return ('v', s[1], subst(s[2], m))
    if s[0] == 'a': return ('a', s[1], subst(s[2], m), s[3], subst(s[4], m))
    if s[0] == 't': return ('t', subst(s[1], m) if isinstance(s[1], T) else s[1])
    if s[0] == 'x': return ('x', s[1], tuple(subst(k, m) if isinstance(k, T) else k for k in s[2]))
    if s[0] == 'for': return ('for', s[1], subst(s[2], m), tuple(seg_sub(q, m) for q in s[3]))
def seg_terms(s):
    if s[0] == 'v': return [s[2]]
    if s[0] == 'a': return [s[2], s[4]]
    if s[0] == 't': return [s[1]] if isinstance(s[1], T) else []
    if s[0] == 'x': return [k for k in s[2] if isinstance(k, T)]
    return [s[2]] + [t for q in s[3] for t in seg_terms(q)]

# ------------------------------------------------------------------ the loops
def loop_begin(ex, o, tt):
    """the file as iteration tt finds it"""
    if o.mode == 'out': return o.with_(segs=())
    if o.segs and o.segs[0][0] == 'a':          # element by element
        _, size, n, x, val = o.segs[0]
        return o.with_(segs=(('v', size, subst(val, {x: tt})), ('stop',)))
    if not o.segs or o.segs[0][0] != 'for': return o.with_(segs=(('stop',),))
    _, v, n, segs = o.segs[0]
    return o.with_(segs=tuple(seg_sub(s, {v: tt}) for s in segs) + (('stop',),))
def loop_end(ex, o, o2, tt, n):
    """the file after all n iterations; o2: after iteration tt"""
    if o2.fail is not o.fail:
        if PROV.prove(not_(o.fail), (), True) and PROV.prove(not_(o2.fail), (), True): pass
        else: raise Unsupported('a failed file operation is carried to the next iteration')
    if o.mode == 'out':
        for s in o2.segs:
            for t in seg_terms(s):
                if X.has_rt(t) and not ex.quiet: raise Unsupported('loop-carried value written to a file: %s' % t)
        if not o2.segs: return o
        if len(o2.segs) == 1 and o2.segs[0][0] == 'v':      # n scalars in a row
            _, size, val = o2.segs[0]
            if size == 1 and val.op == 'app' and val.args[0] == 'chr' and val.args[2] is tt and tt not in val.args[1].fv:
                st = unterm(val.args[1])
                if same(ex, n, str_len(st)): return o.with_(segs=o.segs + (('t', st),))
            return o.with_(segs=o.segs + (('a', size, n, tt, val),))
        return o.with_(segs=o.segs + (('for', tt, n, o2.segs),))
    if o.segs and o.segs[0][0] == 'a' and len(o2.segs) == 2: return o      # nothing was read
    if o2.segs == (('stop',),) and (not o.segs or o.segs[0][0] not in ('for', 'a')): return o
    if not o.segs or o.segs[0][0] not in ('for', 'a') or o2.segs != (('stop',),): raise Unsupported('file layout differs from what the loop reads')
    m = o.segs[0][2]
    if not (m is n or PROV.prove(eq(m, n), (), True)): raise Unsupported('the loop reads %s entries of %s' % (n, m))
    return o.with_(segs=o.segs[1:])

# ------------------------------------------------------------------- objects
class FS:
    """ghost file system of one goal: path -> file object last written, options"""
    def __init__(self, h, cut=False, openable=True, hooks=None):
        self.h, self.cut, self.openable = h, cut, openable
        self.hooks = hooks or {}
        self.reset()
        h.ex.fs = self
    def reset(self):
        self.written = {}; self.cuts = []; self.nopen = 0; self.opened = []
    def put(self, path, segs): self.written[path] = tuple(segs)
def fs_of(ex):
    fs = getattr(ex, 'fs', None)
    if fs is None: raise Unsupported('file access')
    return fs
def path_of(v):
    if not isinstance(v, X.Str): raise Unsupported('path %s' % (v,))
    return v.s
def stream_ctor(mode):
    def g(ex, t, f, args):
        fs = fs_of(ex)
        if not args: raise Unsupported('stream without a path')
        v = ex.rvalue(args[0])
        if isinstance(v, tuple) and v[0] == 'o' and isinstance(ex.obj(v), FileO): return v       # moved
        p = path_of(v)
        fs.nopen += 1
        op = TRUE if fs.openable else gt(app('opens', [num(fs.nopen)], 'Int'), ZERO)
        fs.opened.append((p, mode, op))
        if mode == 'out':
            loc = ex.new_obj(FileO('out', p, op, (), not_(op)))
            fs.written[p] = loc
            return loc
        c = fs.written.get(p)
        if c is None: raise Unsupported('no such ghost file')
        if isinstance(c, tuple) and c and c[0] == 'o': c = ex.obj(c).segs
        return ex.new_obj(FileO('in', p, op, c, not_(op)))
    return g
STD['std::basic_ofstream::basic_ofstream'] = stream_ctor('out')
STD['std::basic_ifstream::basic_ifstream'] = stream_ctor('in')
def fobj(ex, a):
    v = ex.rvalue(a)
    o = ex.obj(v)
    if not isinstance(o, FileO): raise Unsupported('file stream')
    return v, o
@std('std::basic_ofstream::is_open', 'std::basic_ifstream::is_open')
def f_is_open(ex, e, f, args): return fobj(ex, args[0])[1].opened
@std('std::basic_ios::operator!', 'std::basic_ios::fail')
def f_not(ex, e, f, args): return fobj(ex, args[0])[1].fail
@std('std::basic_ios::operator bool')
def f_bool(ex, e, f, args): return not_(fobj(ex, args[0])[1].fail)
@std('std::basic_ofstream::close', 'std::basic_ifstream::close', 'std::basic_ostream::flush')
def f_close(ex, e, f, args): return args[0]
def count(n, size):
    k = idiv(n, num(size))
    if mul(k, num(size)) is n or PROV.prove(eq(mul(k, num(size)), n), (), True): return k
    raise Unsupported('%s bytes of elements of %d bytes' % (n, size))
def same(ex, a, b):
    if a is b or ex.quiet or PROV.prove(eq(a, b), (), True): return True
    return len_equal(ex, a, b)
def len_equal(ex, a, b):
    """equality of counts under the vector equalities known on this path"""
    fs = PROV.base + PROV.path
    for key, (o1, o2, st) in list(ex.seqeqs.items()):
        if key not in fs: continue
        for oa, ob in ((o1, o2), (o2, o1)):
            def f(t):
                if t.op == 'prod':
                    vs, g, b_ = t.args
                    if g is TRUE and len(vs) == 1 and PROV.prove(eq(vs[0][1], ob.n), (), True):
                        v = vs[0][0]
                        with PROV.under(gt(ob.n, v)): here = ex.read(ob.rid, ob.pre + (v,), st[ob.rid])
                        if here is b_ or PROV.prove(eq(here, b_), (), True):
                            with PROV.under(gt(oa.n, v)): return mk_prod(v, oa.n, ex.read(oa.rid, oa.pre + (v,), st[oa.rid]))
                return None
            for x, y in ((a, b), (b, a)):
                z = map_atoms(x, f)
                if z is not x and (z is y or PROV.prove(eq(z, y), (), True)): return True
    return False
@std('std::basic_ostream::write')
def f_write(ex, e, f, args):
    loc, o = fobj(ex, args[0])
    p, n = ex.rvalue(args[1]), ex.rvalue(args[2])
    if isinstance(p, X.PObj): p = Bytes(p, 1)
    if o.mode != 'out': raise Unsupported('write to an input stream')
    if isinstance(p, (X.Str, StrPtr)):
        s = p if isinstance(p, X.Str) else ex.load(p.loc)
        ex.oblige('bounds', ge(str_len(s), n), 'characters written are those of the string')
        if not same(ex, n, str_len(s)): raise Unsupported('part of a string written')
        seg = ('t', s)
    elif isinstance(p, Bytes) and isinstance(p.p, X.PObj):
        if not same(ex, n, num(p.size)): raise Unsupported('%s bytes of a scalar of %d' % (n, p.size))
        v = ex.load(p.p.loc)
        if not isinstance(v, T): raise Unsupported('object written as bytes')
        seg = ('v', p.size, v)
    elif isinstance(p, Bytes) and isinstance(p.p, X.Ptr):
        k = count(n, p.size)
        x = fresh('x', k); q = p.p
        ex.oblige('bounds', ge0(k), 'a file operation has a size that is not negative')
        with PROV.under(gt(k, x)):
            ex.check_bounds(q.rid, q.pre + (add(q.off, x),), 'element written to the file')
            v = ex.read(q.rid, q.pre + (add(q.off, x),))
        seg = ('a', p.size, k, x, v)
    else: raise Unsupported('bytes of %s' % (p,))
    ex.st.o[loc[1]] = o.with_(segs=o.segs + (seg,))
    return args[0]
def take(ex, loc, o):
    if not o.segs or o.segs[0] == ('stop',) or o.segs[0][0] == 'for': raise Unsupported('the file has no matching bytes here (%s)' % (o.segs[:1],))
    fail = FALSE if o.fail is not TRUE and PROV.prove(not_(o.fail), (), False) else o.fail
    fs = fs_of(ex)
    if fs.cut:
        c = gt(app('cut', [num(len(fs.cuts) + 1)] + list(ex.iter_vars), 'Int'), ZERO)
        if not ex.quiet: fs.cuts.append((c, tuple(ex.iter_vars)))
        fail = or_(fail, c)
    ex.st.o[loc[1]] = o.with_(segs=o.segs[1:], fail=fail)
    return o.segs[0]
def regroup(ex, o, p, n):
    """the same bytes seen as one array, or as a scalar and the rest of an array"""
    if not o.segs or not isinstance(p, Bytes): return o
    s = o.segs[0]
    if isinstance(p.p, X.Ptr) and s[0] == 'v' and s[1] == p.size and n.op == 'num':
        k = int(n.val) // p.size
        vs = o.segs[:k]
        if 1 <= k <= 32 and len(vs) == k and all(q[0] == 'v' and q[1] == p.size for q in vs):
            x = fresh('x', num(k)); v = vs[-1][2]
            for j in reversed(range(k - 1)): v = ite(eq(x, num(j)), vs[j][2], v)
            return o.with_(segs=(('a', p.size, num(k), x, v),) + o.segs[k:])
    if isinstance(p.p, X.PObj) and s[0] == 'a' and s[1] == p.size and (ex.quiet or PROV.prove(gt(s[2], ZERO), (), True)):
        _, size, m, x, v = s
        rest = (('a', size, sub(m, ONE), x, subst(v, {x: add(x, ONE)})),) if sub(m, ONE) is not ZERO else ()
        return o.with_(segs=(('v', size, subst(v, {x: ZERO})),) + rest + o.segs[1:])
    return o
@std('std::basic_istream::read')
def f_read(ex, e, f, args):
    loc, o = fobj(ex, args[0])
    p, n = ex.rvalue(args[1]), ex.rvalue(args[2])
    if isinstance(p, X.PObj): p = Bytes(p, 1)
    o = regroup(ex, o, p, n)
    s = take(ex, loc, o)
    bad = lambda: Unsupported('the file holds %s where %s bytes of %s are read' % (s, n, p))
    if isinstance(p, StrPtr):
        cur = ex.load(p.loc)
        ex.oblige('bounds', ge(str_len(cur), n), 'characters read fit the string')
        if s[0] != 't' or not same(ex, n, str_len(s[1])) or not same(ex, n, str_len(cur)): raise bad()
        ex.store(p.loc, s[1])
    elif isinstance(p, Bytes) and isinstance(p.p, X.PObj):
        if s[0] != 'v' or s[1] != p.size or not same(ex, n, num(p.size)): raise bad()
        ex.store(p.p.loc, s[2])
    elif isinstance(p, Bytes) and isinstance(p.p, X.Ptr):
        if s[0] != 'a' or s[1] != p.size: raise bad()
        k = count(n, p.size); q = p.p
        x = fresh('x', k)
        with PROV.under(gt(k, x)): ex.check_bounds(q.rid, q.pre + (add(q.off, x),), 'element read from the file')
        if not same(ex, k, s[2]): raise bad()
        ex.write(q.rid, q.pre + (add(q.off, x),), subst(s[4], {s[3]: x}), vs=[(x, k)])
    else: raise Unsupported('bytes of %s' % (p,))
    return args[0]

def taken(ex, loc):
    """a read by a function under contract refuses a file that ends early"""
    ex.throw_if(ex.obj(loc).fail, 'std::logic_error')
