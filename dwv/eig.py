"""Model of the Eigen expressions used by /repo (part of the trusted base).

An EX is a lazily evaluated rows x cols expression, as in Eigen: coefficients
read memory when the expression is assigned.  Products are evaluated into a
temporary, coefficient-wise assignments are checked for aliasing hazards."""
from .terms import *
from . import terms as tm
from .prove import PROV
from .mem import *

def X():
    from . import exec as ex
    return ex

class EX:
    __slots__ = ('rows', 'cols', 'coeff', 'ctr', 'ctc', 'lv', 'arr', 'ptr', 'owner', 'store_type', 'rowmajor', 'product')
    def __init__(self, rows, cols, coeff, ctr=False, ctc=False, lv=None, arr=False, ptr=None, owner=False, rowmajor=True):
        self.rows, self.cols, self.coeff = lift(rows), lift(cols), coeff
        self.ctr, self.ctc, self.lv, self.arr, self.ptr, self.owner, self.rowmajor = ctr, ctc, lv, arr, ptr, owner, rowmajor
        self.product = False
        self.store_type = None
    def key(self): return ('EX', id(self))
    def __repr__(self): return 'EX(%s x %s)' % (self.rows, self.cols)
    def like(self, coeff, **kw):
        d = dict(ctr=self.ctr, ctc=self.ctc, arr=self.arr, rowmajor=self.rowmajor)
        d.update(kw)
        return EX(kw.pop('rows', self.rows), kw.pop('cols', self.cols), coeff, **{k: v for k, v in d.items() if k not in ('rows', 'cols')})

class VW:
    """rowwise()/colwise() view"""
    __slots__ = ('e', 'row')
    def __init__(self, e, row): self.e, self.row = e, row
    def key(self): return ('VW', id(self))

class Diag:
    """v.asDiagonal()"""
    __slots__ = ('n', 'at')
    def __init__(self, n, at): self.n, self.at = n, at
    def key(self): return ('Diag', id(self))

# ------------------------------------------------------------------ helpers
def mat_type(t):
    """(rows, cols, rowmajor) of an Eigen::Matrix/Array type string"""
    E = X()
    s = E.strip(t)
    i = s.find('Eigen::Matrix<')
    arr = False
    if i < 0:
        i = s.find('Eigen::Array<'); arr = True
    if i < 0: raise Unsupported('Eigen type ' + s[:80])
    j, d = i, 0
    while j < len(s):
        if s[j] == '<': d += 1
        elif s[j] == '>':
            d -= 1
            if d == 0: break
        j += 1
    a = E.targs(s[i:j+1])
    if len(a) < 3: raise Unsupported('Eigen type ' + s[:80])
    opt = int(a[3]) if len(a) > 3 else 0
    return a[0], int(a[1]), int(a[2]), bool(opt & 1), arr

def same(ex, a, b, what):
    ex.oblige('eigen-dims', eq(a, b), 'dimensions agree in %s' % what)

def as_ex(ex, v):
    v = ex.rvalue(v)
    if isinstance(v, EX): return v
    raise Unsupported('Eigen expression expected, got %s' % (v,))

def is_ex(v): return isinstance(v, EX)

def region_ex(ex, ptr, rows, cols, ctr, ctc, rowmajor, arr=False, owner=False):
    E = X()
    if ptr is E.NULL:
        def nope(i, j): raise Unsupported('null Eigen map')
        return EX(rows, cols, nope, ctr, ctc, nope, arr, ptr)
    if not isinstance(ptr, E.Ptr): raise Unsupported('Eigen map of %s' % (ptr,))
    rows, cols = lift(rows), lift(cols)
    def lv(i, j):
        if ctr: k = j
        elif ctc: k = i
        elif rowmajor: k = add(mul(i, cols), j)
        else: k = add(mul(j, rows), i)
        return (ptr.rid, ptr.pre + (add(ptr.off, k),))
    def coeff(i, j):
        rid, idx = lv(i, j)
        if ex.alias_watch is not None: ex.alias_watch(rid, idx)
        return ex.read(rid, idx)
    return EX(rows, cols, coeff, ctr, ctc, lv, arr, ptr, owner, rowmajor)

def evaluate(ex, e, t=None, name='eigtmp'):
    """evaluate an expression into fresh storage"""
    rows, cols, ctr, ctc, rowmajor, arr = e.rows, e.cols, e.ctr, e.ctc, True, e.arr
    if t is not None:
        _, R, C, rowmajor, arr = mat_type(t)
        ctr, ctc = R == 1, C == 1
        if (ctr and e.ctc and not e.ctr) or (ctc and e.ctr and not e.ctc):
            e = transpose(e); rows, cols = e.rows, e.cols
        if ctr: same(ex, rows, ONE, 'conversion to a row vector')
        if ctc: same(ex, cols, ONE, 'conversion to a column vector')
        if R > 1: same(ex, rows, num(R), 'conversion to a fixed size matrix')
        if C > 1: same(ex, cols, num(C), 'conversion to a fixed size matrix')
    rid = ex.new_region(name, mul(rows, cols))
    E = X()
    out = region_ex(ex, E.Ptr(rid, (), ZERO), rows, cols, ctr, ctc, rowmajor, arr, True)
    saved = ex.alias_watch
    ex.alias_watch = None
    try: write_all(ex, out, e, 'set')
    finally: ex.alias_watch = saved
    return out

def ranges(e):
    vs = []
    if e.rows is ONE: i = ZERO
    else: i = fresh('r', e.rows); vs.append((i, e.rows))
    if e.cols is ONE: j = ZERO
    else: j = fresh('q', e.cols); vs.append((j, e.cols))
    return vs, i, j

def write_all(ex, dst, src, kind, f=None):
    vs, i, j = ranges(dst)
    with PROV.under(*([gt(n, ZERO) for v, n in vs])):
        rid, idx = dst.lv(i, j)
        val = src.coeff(i, j)
    if kind == 'mul':
        old = ex.read(rid, idx)
        val = mul(old, val); kind = 'set'
    elif kind == 'div':
        old = ex.read(rid, idx)
        val = div(old, val); kind = 'set'
    elif kind == 'sub': val = neg(val); kind = 'add'
    if not isinstance(val, T): raise Unsupported('Eigen coefficient')
    if val.sort == 'Bool': val = ite(val, ONE, ZERO)
    ex.write(rid, idx, val, kind, vs)

def transpose(e):
    return EX(e.cols, e.rows, lambda i, j: e.coeff(j, i), e.ctc, e.ctr,
              (lambda i, j: e.lv(j, i)) if e.lv else None, e.arr, e.ptr, False, not e.rowmajor)

def assign(ex, dst, src, kind, what):
    """dst (lvalue EX) op= src"""
    if not is_ex(src):
        v = src
        src = dst.like(lambda i, j: v)
    if dst.lv is None: raise Unsupported('assignment to an Eigen rvalue')
    if (dst.ctr and not dst.ctc and src.ctc and not src.ctr) or (dst.ctc and not dst.ctr and src.ctr and not src.ctc): src = transpose(src)
    same(ex, dst.rows, src.rows, what); same(ex, dst.cols, src.cols, what)
    if src.product:
        src = evaluate(ex, src)
    saved = ex.alias_watch
    vs, i, j = ranges(dst)
    drid, didx = dst.lv(i, j)
    def watch(rid, idx):
        if rid != drid: return
        d = [sub(a, b) for a, b in zip(idx, watch.idx)]
        if all(x is ZERO for x in d): return
        # same element for every (i,j), or an element this assignment never writes
        bvs = frozenset(v for v, n in vs)
        q = QU(vs, TRUE, didx, ZERO, 'set')
        if PROV.prove(and_(*[eq0(x) for x in d]), (), False): return
        if disjoint(q, ((), TRUE, tuple(idx))): return
        raise Unsupported('possible aliasing in a coefficient-wise Eigen assignment')
    # use fixed i/j so that the watcher compares like with like
    ex.alias_watch = watch
    watch.idx = didx
    try:
        with PROV.under(*([gt(n, ZERO) for v, n in vs])):
            val = src.coeff(i, j)
    finally: ex.alias_watch = saved
    if kind in ('mul', 'div'):
        old = ex.read(drid, didx)
        val = mul(old, val) if kind == 'mul' else div(old, val)
        kind = 'set'
    elif kind == 'sub': val, kind = neg(val), 'add'
    if val.sort == 'Bool': val = ite(val, ONE, ZERO)
    ex.write(drid, didx, val, kind, vs)

def binary(ex, a, b, f, what):
    """coefficient-wise a f b, either may be a scalar"""
    if is_ex(a) and is_ex(b):
        same(ex, a.rows, b.rows, what); same(ex, a.cols, b.cols, what)
        return a.like(lambda i, j: f(a.coeff(i, j), b.coeff(i, j)), ctr=a.ctr or b.ctr, ctc=a.ctc or b.ctc, arr=a.arr or b.arr)
    if is_ex(a):
        if not isinstance(b, T): raise Unsupported('Eigen operand %s' % (b,))
        return a.like(lambda i, j: f(a.coeff(i, j), b))
    if is_ex(b):
        if not isinstance(a, T): raise Unsupported('Eigen operand %s' % (a,))
        return b.like(lambda i, j: f(a, b.coeff(i, j)))
    raise Unsupported('Eigen operands')

def product(ex, a, b):
    same(ex, a.cols, b.rows, 'matrix product')
    # operands that are themselves expressions are evaluated once
    def coeff(i, j):
        k = fresh('k', a.cols)
        saved = ex.alias_watch; ex.alias_watch = None
        try:
            with PROV.under(gt(a.cols, ZERO)): body = mul(a.coeff(i, k), b.coeff(k, j))
        finally: ex.alias_watch = saved
        return mk_sum([(k, a.cols)], TRUE, body)
    r = EX(a.rows, b.cols, coeff, a.ctr, b.ctc, None, False)
    r.product = True
    return r

def bool_(v): return v if v.sort == 'Bool' else ne(v, ZERO)
def numc(v): return ite(v, ONE, ZERO) if v.sort == 'Bool' else v

def reduce_all(ex, e, kind):
    vs, i, j = ranges(e)
    with PROV.under(*([gt(n, ZERO) for v, n in vs])): c = numc(e.coeff(i, j))
    if kind == 'sum': return mk_sum(vs, TRUE, c) if vs else c
    if kind == 'mean': return div(mk_sum(vs, TRUE, c) if vs else c, mul(e.rows, e.cols))
    if not vs: return c
    if len(vs) == 1: return mk_max(vs[0][0], vs[0][1], c, kind)
    raise Unsupported('matrix-wide %s' % kind)

def reduce_part(ex, e, row, kind):
    """row: reduce along columns giving rows x 1"""
    def val(fixed):
        n = e.cols if row else e.rows
        k = fresh('k', n)
        with PROV.under(gt(n, ZERO)):
            c = numc(e.coeff(fixed, k) if row else e.coeff(k, fixed))
        if kind == 'sum': return mk_sum([(k, n)], TRUE, c)
        if kind == 'mean': return div(mk_sum([(k, n)], TRUE, c), n)
        return mk_max(k, n, c, kind)
    if row: return EX(e.rows, ONE, lambda i, j: val(i), False, True, None, e.arr)
    return EX(ONE, e.cols, lambda i, j: val(j), True, False, None, e.arr)

# -------------------------------------------------------------------- table
TAB = {}
def eig(*names):
    def deco(f):
        for n in names: TAB[n] = f
        return f
    return deco

def lookup(q):
    parts = q.split('::')
    name = parts[-1]
    cls = parts[-2] if len(parts) > 1 else ''
    f = TAB.get(cls + '::' + name)
    if f is None: f = TAB.get(name)
    return f

def cell_of(a):
    return a

@eig('Stride::Stride', 'InnerStride::InnerStride', 'OuterStride::OuterStride')
def stride(ex, t, f, args):
    if args: raise Unsupported('strided Eigen map')
    return X().Opaque('stride')

@eig('Map::Map')
def map_ctor(ex, t, f, args):
    E = X()
    a = [ex.rvalue(x) for x in args]
    if len(a) == 1 and is_ex(a[0]): return a[0]
    a = [x for x in a if not (isinstance(x, E.Opaque) and x.name == 'stride')]
    et, R, C, rm, arr = mat_type(t)
    ptr = a[0]
    ctr, ctc = R == 1, C == 1
    if len(a) == 2:
        if ctr: rows, cols = ONE, a[1]
        elif ctc: rows, cols = a[1], ONE
        else: raise Unsupported('Map of a matrix with one size')
    elif len(a) == 3: rows, cols = a[1], a[2]
    elif len(a) == 1 and R > 0 and C > 0: rows, cols = num(R), num(C)
    else: raise Unsupported('Map constructor')
    rows, cols = ex.numv(rows), ex.numv(cols)
    if isinstance(ptr, E.Ptr):
        reg = ex.regions[ptr.rid]
        size = reg.size(ptr.pre) if callable(reg.size) else reg.size
        if size is not None:
            ex.oblige('bounds', and_(ge0(rows), ge0(cols), or_(eq0(mul(rows, cols)), and_(ge0(ptr.off), ge0(sub(size, add(ptr.off, mul(rows, cols))))))),
                      'Eigen map lies within the allocated elements of %s' % reg.name)
    elif ptr is E.NULL:
        if PROV.prove(eq0(mul(rows, cols)), (), True) is False:
            ex.record('bounds', 'Eigen map of a null pointer is empty', 'failed', eq0(mul(rows, cols)))
    return region_ex(ex, ptr, rows, cols, ctr, ctc, rm, arr)

@eig('Matrix::Matrix', 'Array::Array')
def matrix_ctor(ex, t, f, args):
    E = X()
    a = [ex.rvalue(x) for x in args]
    et, R, C, rm, arr = mat_type(t)
    if len(a) == 1 and is_ex(a[0]): return evaluate(ex, a[0], t)
    if not a: rows, cols = lift(max(R, 0)), lift(max(C, 0))
    elif len(a) == 1 and isinstance(a[0], T):
        if R == 1: rows, cols = ONE, a[0]
        elif C == 1: rows, cols = a[0], ONE
        else: raise Unsupported('Matrix ctor')
    elif len(a) == 2: rows, cols = a
    else: raise Unsupported('Matrix ctor')
    ex.oblige('allocation', and_(ge0(rows), ge0(cols)), 'Eigen matrix size is not negative')
    rid = ex.new_region('eigmat', mul(rows, cols))
    return region_ex(ex, E.Ptr(rid, (), ZERO), rows, cols, R == 1, C == 1, rm, arr, True)

@eig('operator=')
def op_assign(ex, e, f, args):
    dst = as_ex(ex, args[0]); src = ex.rvalue(args[1])
    if dst.owner and isinstance(args[0], tuple) and is_ex(src):
        t = f.get('cls') or e.get('t')
        new = evaluate(ex, src, t)
        ex.store(args[0], new)
        return args[0]
    assign(ex, dst, src, 'set', 'assignment')
    return args[0]
def op_compound(kind):
    def g(ex, e, f, args):
        v = ex.rvalue(args[0])
        src = ex.rvalue(args[1])
        if isinstance(v, VW):
            b = src; assign(ex, v.e, vw_bin(ex, v, b, {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[kind]), 'set', 'compound assignment')
            return args[0]
        dst = as_ex(ex, args[0])
        if kind == 'mul' and is_ex(src) and not dst.arr: raise Unsupported('in-place matrix product')
        assign(ex, dst, src, kind, 'compound assignment')
        return args[0]
    return g
TAB['operator+='] = op_compound('add'); TAB['operator-='] = op_compound('sub')
TAB['operator*='] = op_compound('mul'); TAB['operator/='] = op_compound('div')

def vals(ex, args): return [ex.rvalue(a) for a in args]

def vw_bin(ex, v, b, op):
    e = v.e
    if not is_ex(b): raise Unsupported('vectorwise operand')
    fs = {'+': add, '-': sub, '*': mul, '/': div}
    fn = fs[op]
    if v.row:      # each row combined with a row vector
        if b.ctc and not b.ctr: raise Unsupported('vectorwise operand orientation')
        same(ex, e.cols, b.cols, 'rowwise operation'); same(ex, b.rows, ONE, 'rowwise operation')
        return e.like(lambda i, j: fn(e.coeff(i, j), b.coeff(ZERO, j)))
    if b.ctr and not b.ctc: raise Unsupported('vectorwise operand orientation')
    same(ex, e.rows, b.rows, 'colwise operation'); same(ex, b.cols, ONE, 'colwise operation')
    return e.like(lambda i, j: fn(e.coeff(i, j), b.coeff(i, ZERO)))

def op_arith(op):
    fs = {'+': add, '-': sub, '*': mul, '/': div}
    def g(ex, e, f, args):
        a = vals(ex, args)
        if len(a) == 1:
            if op == '-': return a[0].like(lambda i, j: neg(a[0].coeff(i, j)))
            raise Unsupported('unary ' + op)
        x, y = a
        if isinstance(x, VW): return vw_bin(ex, x, y, op)
        if op == '*' and isinstance(x, Diag) and is_ex(y):
            same(ex, x.n, y.rows, 'diagonal product'); return y.like(lambda i, j: mul(x.at(i), y.coeff(i, j)))
        if op == '*' and isinstance(y, Diag) and is_ex(x):
            same(ex, y.n, x.cols, 'diagonal product'); return x.like(lambda i, j: mul(x.coeff(i, j), y.at(j)))
        if op == '*' and is_ex(x) and is_ex(y) and not x.arr and not y.arr: return product(ex, x, y)
        return binary(ex, x, y, fs[op], 'operator' + op)
    return g
for _o in '+-*/': TAB['operator' + _o] = op_arith(_o)
def op_cmp(op):
    fs = {'<': lt, '>': gt, '<=': le, '>=': ge, '==': eq, '!=': ne}
    def g(ex, e, f, args):
        a = vals(ex, args)
        return binary(ex, a[0], a[1], fs[op], 'comparison')
    return g
for _o in ('<', '>', '<=', '>=', '==', '!='): TAB['operator' + _o] = op_cmp(_o)
TAB['operator&&'] = lambda ex, e, f, args: binary(ex, *vals(ex, args), lambda a, b: and_(bool_(a), bool_(b)), '&&')
TAB['operator||'] = lambda ex, e, f, args: binary(ex, *vals(ex, args), lambda a, b: or_(bool_(a), bool_(b)), '||')
TAB['operator!'] = lambda ex, e, f, args: unary(as_ex(ex, args[0]), lambda c: not_(bool_(c)))

def unary(e, fn): return e.like(lambda i, j: fn(e.coeff(i, j)))
def eig_unary(fn): return lambda ex, e, f, args: unary(as_ex(ex, args[0]), fn)
for _n in ('exp', 'log', 'tanh', 'sin', 'cos', 'floor', 'ceil', 'round'): TAB[_n] = eig_unary((lambda n: lambda c: app(n, [c]))(_n))
TAB['sqrt'] = TAB['cwiseSqrt'] = eig_unary(lambda c: app('sqrt', [c]))
TAB['rsqrt'] = eig_unary(lambda c: inv(app('sqrt', [c])))
TAB['cwiseAbs2'] = TAB['abs2'] = TAB['square'] = eig_unary(lambda c: mul(c, c))
TAB['cube'] = eig_unary(lambda c: mul(c, mul(c, c)))
TAB['cwiseInverse'] = eig_unary(inv)
TAB['cwiseAbs'] = TAB['abs'] = eig_unary(lambda c: ite(ge0(c), c, neg(c)))
TAB['expm1'] = eig_unary(lambda c: sub(app('exp', [c]), ONE))
TAB['log1p'] = eig_unary(lambda c: app('log', [add(ONE, c)]))
TAB['logistic'] = eig_unary(lambda c: inv(add(ONE, app('exp', [neg(c)]))))
TAB['sign'] = TAB['cwiseSign'] = eig_unary(lambda c: ite(gt(c, ZERO), ONE, ite(lt(c, ZERO), num(-1), ZERO)))
def inverse(ex, e, f, args):
    x = as_ex(ex, args[0])
    if not x.arr: raise Unsupported('matrix inverse')
    return unary(x, inv)
TAB['inverse'] = inverse
@eig('array')
def to_array(ex, e, f, args):
    x = as_ex(ex, args[0])
    r = EX(x.rows, x.cols, x.coeff, x.ctr, x.ctc, x.lv, True, x.ptr, False, x.rowmajor); r.product = x.product
    return evaluate(ex, x).like(None) if False else (array_of(evaluate(ex, x)) if x.product else r)
def array_of(x): return EX(x.rows, x.cols, x.coeff, x.ctr, x.ctc, x.lv, True, x.ptr, False, x.rowmajor)
@eig('matrix')
def to_matrix(ex, e, f, args):
    x = as_ex(ex, args[0])
    return EX(x.rows, x.cols, x.coeff, x.ctr, x.ctc, x.lv, False, x.ptr, False, x.rowmajor)
@eig('noalias', 'const_cast_derived', 'derived', 'cast', 'real')
def same_ex(ex, e, f, args):
    if lookup_name(f) == 'cast':
        if 'float' not in str(f.get('ta')) and 'double' not in str(f.get('ta')): raise Unsupported('Eigen cast')
        return unary(as_ex(ex, args[0]), numc)
    return args[0]
def lookup_name(f): return f['q'].split('::')[-1]
@eig('eval')
def eval_(ex, e, f, args): return evaluate(ex, as_ex(ex, args[0]))
@eig('transpose', 'adjoint')
def transpose_(ex, e, f, args): return transpose(as_ex(ex, args[0]))
@eig('rowwise')
def rowwise(ex, e, f, args): return VW(pinned(ex, as_ex(ex, args[0])), True)
@eig('colwise')
def colwise(ex, e, f, args): return VW(pinned(ex, as_ex(ex, args[0])), False)
def pinned(ex, x): return evaluate(ex, x) if x.product else x
def redux(kind):
    def g(ex, e, f, args):
        a = vals(ex, args)
        x = a[0]
        if isinstance(x, VW): return reduce_part(ex, x.e, x.row, kind)
        x = pinned(ex, x)
        if kind in ('max', 'min') and len(a) > 1:
            # first position of the extreme coefficient of a vector
            vs, i, j = ranges(x)
            outs = a[1:]
            with PROV.under(*([gt(n, ZERO) for v, n in vs])): c = numc(x.coeff(i, j))
            if len(vs) == 0:
                val, pos = c, ZERO
            elif len(vs) == 1:
                val = mk_max(vs[0][0], vs[0][1], c, kind); pos = mk_max(vs[0][0], vs[0][1], c, 'arg' + kind)
            else: raise Unsupported('argmax over a matrix')
            ex.oblige('nonempty', gt(mul(x.rows, x.cols), ZERO), '%sCoeff of a non-empty expression' % kind)
            if len(outs) == 1: ex.store(ex.deref(outs[0]), pos)
            else:
                ex.store(ex.deref(outs[0]), ZERO if x.rows is ONE else pos)
                ex.store(ex.deref(outs[1]), ZERO if x.cols is ONE else pos)
            return val
        if kind in ('max', 'min'): ex.oblige('nonempty', gt(mul(x.rows, x.cols), ZERO), '%sCoeff of a non-empty expression' % kind)
        return reduce_all(ex, x, kind)
    return g
TAB['sum'] = redux('sum'); TAB['mean'] = redux('mean'); TAB['maxCoeff'] = redux('max'); TAB['minCoeff'] = redux('min')
@eig('count')
def count(ex, e, f, args):
    x = as_ex(ex, args[0])
    return reduce_all(ex, unary(x, lambda c: ite(bool_(c), ONE, ZERO)), 'sum')
@eig('squaredNorm')
def sqn(ex, e, f, args): return reduce_all(ex, unary(pinned(ex, as_ex(ex, args[0])), lambda c: mul(c, c)), 'sum')
@eig('norm')
def norm(ex, e, f, args):
    x = ex.rvalue(args[0])
    return app('sqrt', [sqn(ex, e, f, args)])
@eig('dot')
def dot(ex, e, f, args):
    a, b = as_ex(ex, args[0]), as_ex(ex, args[1])
    if a.ctr != b.ctr: b = transpose(b)
    return reduce_all(ex, binary(ex, a, b, mul, 'dot product'), 'sum')
@eig('asDiagonal')
def as_diag(ex, e, f, args):
    x = as_ex(ex, args[0])
    if x.ctr: return Diag(x.cols, lambda i: x.coeff(ZERO, i))
    if x.ctc: return Diag(x.rows, lambda i: x.coeff(i, ZERO))
    raise Unsupported('asDiagonal')
@eig('cwiseProduct')
def cwp(ex, e, f, args): return binary(ex, as_ex(ex, args[0]), as_ex(ex, args[1]), mul, 'cwiseProduct')
@eig('cwiseQuotient')
def cwq(ex, e, f, args): return binary(ex, as_ex(ex, args[0]), as_ex(ex, args[1]), div, 'cwiseQuotient')
def mx(a, b): return ite(lt(a, b), b, a)
def mn(a, b): return ite(lt(b, a), b, a)
@eig('cwiseMax', 'max')
def cwmax(ex, e, f, args): return binary(ex, ex.rvalue(args[0]), ex.rvalue(args[1]), mx, 'max')
@eig('cwiseMin', 'min')
def cwmin(ex, e, f, args): return binary(ex, ex.rvalue(args[0]), ex.rvalue(args[1]), mn, 'min')
@eig('pow')
def epow(ex, e, f, args):
    a = as_ex(ex, args[0]); k = ex.rvalue(args[1])
    if isinstance(k, T) and k.op == 'num' and isinstance(k.val, int) and 0 <= k.val <= 4: return unary(a, lambda c: power(c, k.val))
    return unary(a, lambda c: app('pow', [c, k]))
@eig('select')
def select(ex, e, f, args):
    c, a, b = vals(ex, args)
    for x in (a, b):
        if is_ex(x): same(ex, c.rows, x.rows, 'select'); same(ex, c.cols, x.cols, 'select')
    g = lambda x, i, j: x.coeff(i, j) if is_ex(x) else x
    arr = any(is_ex(x) and x.arr for x in (a, b))
    def coeff(i, j):
        cc = bool_(c.coeff(i, j))
        return ite(cc, g(a, i, j), g(b, i, j))
    return c.like(coeff, arr=arr)
@eig('unaryExpr')
def uexpr(ex, e, f, args):
    from .natives import pure_call
    x = as_ex(ex, args[0]); fv = ex.rvalue(args[1])
    return unary(x, lambda c: pure_call(ex, fv, [c]))
@eig('binaryExpr')
def bexpr(ex, e, f, args):
    from .natives import pure_call
    x = as_ex(ex, args[0]); y = as_ex(ex, args[1]); fv = ex.rvalue(args[2])
    return binary(ex, x, y, lambda a, b: pure_call(ex, fv, [a, b]), 'binaryExpr')

@eig('rows')
def rows(ex, e, f, args): return as_ex(ex, args[0]).rows
@eig('cols')
def cols(ex, e, f, args): return as_ex(ex, args[0]).cols
@eig('size')
def size(ex, e, f, args):
    x = as_ex(ex, args[0]); return mul(x.rows, x.cols)
@eig('outerSize')
def outer(ex, e, f, args):
    x = as_ex(ex, args[0])
    if x.ctr or x.ctc: return ONE
    return x.rows if x.rowmajor else x.cols
@eig('innerSize')
def inner(ex, e, f, args):
    x = as_ex(ex, args[0])
    if x.ctr or x.ctc: return mul(x.rows, x.cols)
    return x.cols if x.rowmajor else x.rows
@eig('data')
def data(ex, e, f, args):
    x = as_ex(ex, args[0])
    if x.ptr is None: raise Unsupported('data() of an expression')
    return x.ptr

def sub_ex(ex, x, r0, c0, nr, nc, ctr, ctc, what):
    ex.oblige('bounds', and_(ge0(r0), ge0(c0), ge0(nr), ge0(nc), ge0(sub(x.rows, add(r0, nr))), ge0(sub(x.cols, add(c0, nc)))), 'Eigen %s in range' % what)
    return EX(nr, nc, lambda i, j: x.coeff(add(r0, i), add(c0, j)), ctr, ctc,
              (lambda i, j: x.lv(add(r0, i), add(c0, j))) if x.lv else None, x.arr, None, False, x.rowmajor)
@eig('row')
def row(ex, e, f, args):
    x, i = pinned(ex, as_ex(ex, args[0])), ex.rvalue(args[1])
    return sub_ex(ex, x, i, ZERO, ONE, x.cols, True, x.ctc, 'row')
@eig('col')
def col(ex, e, f, args):
    x, j = pinned(ex, as_ex(ex, args[0])), ex.rvalue(args[1])
    return sub_ex(ex, x, ZERO, j, x.rows, ONE, x.ctr, True, 'col')
@eig('block')
def block(ex, e, f, args):
    a = vals(ex, args)
    if len(a) != 5: raise Unsupported('fixed size block')
    x = pinned(ex, a[0])
    return sub_ex(ex, x, a[1], a[2], a[3], a[4], False, False, 'block')
@eig('middleRows')
def mrows(ex, e, f, args):
    a = vals(ex, args); x = pinned(ex, a[0])
    return sub_ex(ex, x, a[1], ZERO, a[2], x.cols, False, x.ctc, 'middleRows')
@eig('middleCols')
def mcols(ex, e, f, args):
    a = vals(ex, args); x = pinned(ex, a[0])
    return sub_ex(ex, x, ZERO, a[1], x.rows, a[2], x.ctr, False, 'middleCols')
@eig('topRows')
def trows(ex, e, f, args):
    a = vals(ex, args); x = pinned(ex, a[0])
    return sub_ex(ex, x, ZERO, ZERO, a[1], x.cols, False, x.ctc, 'topRows')
@eig('bottomRows')
def brows(ex, e, f, args):
    a = vals(ex, args); x = pinned(ex, a[0])
    return sub_ex(ex, x, sub(x.rows, a[1]), ZERO, a[1], x.cols, False, x.ctc, 'bottomRows')
@eig('leftCols')
def lcols(ex, e, f, args):
    a = vals(ex, args); x = pinned(ex, a[0])
    return sub_ex(ex, x, ZERO, ZERO, x.rows, a[1], x.ctr, False, 'leftCols')
@eig('rightCols')
def rcols(ex, e, f, args):
    a = vals(ex, args); x = pinned(ex, a[0])
    return sub_ex(ex, x, ZERO, sub(x.cols, a[1]), x.rows, a[1], x.ctr, False, 'rightCols')
def seg(x, ex, o, n):
    if x.ctr: return sub_ex(ex, x, ZERO, o, ONE, n, True, False, 'segment')
    if x.ctc: return sub_ex(ex, x, o, ZERO, n, ONE, False, True, 'segment')
    raise Unsupported('segment of a matrix')
@eig('segment')
def segment(ex, e, f, args):
    a = vals(ex, args); return seg(pinned(ex, a[0]), ex, a[1], a[2])
@eig('head')
def head(ex, e, f, args):
    a = vals(ex, args); return seg(pinned(ex, a[0]), ex, ZERO, a[1])
@eig('tail')
def tail(ex, e, f, args):
    a = vals(ex, args); x = pinned(ex, a[0]); n = x.cols if x.ctr else x.rows
    return seg(x, ex, sub(n, a[1]), a[1])
@eig('replicate')
def replicate(ex, e, f, args):
    a = vals(ex, args); x = pinned(ex, a[0])
    if len(a) != 3: raise Unsupported('replicate')
    return EX(mul(x.rows, a[1]), mul(x.cols, a[2]), lambda i, j: x.coeff(imod(i, x.rows), imod(j, x.cols)), False, False, None, x.arr)

def element(ex, x, i, j):
    ex.oblige('bounds', and_(ge0(i), gt(x.rows, i), ge0(j), gt(x.cols, j)), 'Eigen coefficient index in range')
    if x.lv is not None:
        rid, idx = x.lv(i, j)
        return ('m', rid, idx)
    return ('v', x.coeff(i, j))
@eig('operator()', 'coeff', 'coeffRef')
def paren(ex, e, f, args):
    E = X()
    a = vals(ex, args)
    x = a[0]
    if all(isinstance(v, T) for v in a[1:]):
        if len(a) == 3: return element(ex, x, a[1], a[2])
        return bracket(ex, e, f, args)
    # indexed views
    ax = a[1:]
    if len(ax) == 1:
        if x.ctr: ax = [ZERO, ax[0]]
        elif x.ctc: ax = [ax[0], ZERO]
        else: raise Unsupported('indexed view')
    def axis(v, n):
        if isinstance(v, T):
            ex.oblige('bounds', and_(ge0(v), gt(n, v)), 'Eigen index in range')
            return ONE, lambda k: v
        if isinstance(v, tuple) and v[0] == 'o':
            loc = ex.copy_obj(v)
            o = ex.obj(loc)
            m = ex.seq_len(o)
            def at(k): return ex.rvalue(ex.elem(loc, k)) if not isinstance(o, E.SymSeq) else ex.read(o.rid, o.pre + (k,), log)
            log = ex.st.r[o.rid] if isinstance(o, E.SymSeq) else None
            k = fresh('q', m)
            with PROV.under(gt(m, ZERO)):
                t = at(k)
                ex.oblige('bounds', and_(ge0(t), gt(n, t)), 'every index of the Eigen indexed view in range')
            return m, at
        raise Unsupported('indexed view argument')
    nr, fr = axis(ax[0], x.rows)
    nc, fc = axis(ax[1], x.cols)
    return EX(nr, nc, lambda i, j: x.coeff(fr(i), fc(j)), x.ctr, x.ctc, (lambda i, j: x.lv(fr(i), fc(j))) if x.lv else None, x.arr)
@eig('operator[]')
def bracket(ex, e, f, args):
    x = as_ex(ex, args[0]); i = ex.rvalue(args[1])
    if x.ctr: return element(ex, x, ZERO, i)
    if x.ctc: return element(ex, x, i, ZERO)
    if x.ptr is not None and len(args) == 2: raise Unsupported('linear index into a matrix')
    raise Unsupported('Eigen operator[]')
def setter(val):
    def g(ex, e, f, args):
        x = as_ex(ex, args[0])
        v = val if val is not None else ex.rvalue(args[1])
        assign(ex, x, v, 'set', 'fill')
        return args[0]
    return g
TAB['setZero'] = setter(ZERO); TAB['setOnes'] = setter(ONE); TAB['setConstant'] = TAB['fill'] = setter(None)
def nullary(val):
    def g(ex, e, f, args):
        a = vals(ex, args)
        _, R, C, rm, arr = mat_type(f.get('cls') or f['ret'])
        v = val
        if v is None: v = a.pop()
        if not a: r, c = num(R), num(C)
        elif len(a) == 1: r, c = (ONE, a[0]) if R == 1 else (a[0], ONE)
        else: r, c = a
        return EX(r, c, lambda i, j: v, R == 1, C == 1, None, arr)
    return g
TAB['Zero'] = nullary(ZERO); TAB['Ones'] = nullary(ONE); TAB['Constant'] = nullary(None)
