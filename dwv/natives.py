"""Models of the std:: operations used by /repo (part of the trusted base)."""
from fractions import Fraction
from .terms import *
from . import terms as tm
from .prove import PROV, APPFACTS
from .mem import *

class Table(dict):
    def get(self, q, d=None):
        f = dict.get(self, q)
        if f is not None: return f
        if q.startswith('!'): return d
        if q.startswith('op'): return dict.get(STD, q, d)
        f = STD.get(q)
        if f is not None: return f
        if q.startswith('Eigen::'):
            from . import eig
            return eig.lookup(q)
        return d

STD = {}
def std(*names):
    def deco(f):
        for n in names: STD[n] = f
        return f
    return deco

def X(): 
    from . import exec as ex
    return ex

# ---------------------------------------------------------------- helpers
class Rng:
    """a run of `n` scalar elements starting at an iterator/pointer"""
    def __init__(self, ex, it):
        E = X()
        self.ex = ex
        v = ex.rvalue(it)
        self.v = v
        if isinstance(v, E.Ptr):
            self.rid, self.pre, self.off, self.rev = v.rid, v.pre, v.off, False
            self.o = None
        elif isinstance(v, E.It):
            o = ex.st.o[v.oid]
            self.o = o; self.oid = v.oid; self.off = v.i; self.rev = v.rev
            self.rid = o.rid if isinstance(o, E.SymSeq) else None
            self.pre = o.pre if isinstance(o, E.SymSeq) else ()
        else: raise Unsupported('iterator %s' % (v,))
    def at(self, i):
        k = sub(self.off, i) if self.rev else add(self.off, i)
        if self.rid is not None: return ('m', self.rid, self.pre + (k,))
        return self.ex.elem(('o', self.oid), k)
    def get(self, i):
        loc = self.at(i)
        if loc[0] == 'm':
            if self.ex.alias_watch is not None: self.ex.alias_watch(loc[1], loc[2])
            return self.ex.read(loc[1], loc[2])
        return self.ex.load(loc)
    def check(self, n, what):
        if self.rid is None: return
        reg = self.ex.regions[self.rid]
        if reg.freed is not None: self.ex.check_freed(self.rid, self.pre)
        if reg.size is None and not reg.grow: return
        size = self.o.n if reg.grow else reg.size(self.pre) if callable(reg.size) else reg.size
        if self.rev: lo, hi = add(sub(self.off, n), ONE), add(self.off, ONE)
        else: lo, hi = self.off, add(self.off, n)
        self.ex.oblige('bounds', or_(le(n, ZERO), and_(ge0(lo), ge0(sub(size, hi)))), '%s range within the allocated elements of %s' % (what, reg.name))

def dist(ex, a, b):
    E = X()
    a, b = ex.rvalue(a), ex.rvalue(b)
    return ex.arith('-', b, a, 'long')

def for_each_write(ex, rng, n, f, what):
    """rng[i] = f(i) for i < n"""
    n = lift(n)
    if rng.rid is None or (n.op == 'num' and n.val <= 16):
        if n.op != 'num': raise Unsupported('symbolic count on a concrete sequence')
        for i in range(n.val):
            v = f(num(i))
            loc = rng.at(num(i))
            if loc[0] == 'm': ex.check_bounds(loc[1], loc[2], what); ex.write(loc[1], loc[2], v)
            else: ex.store(loc, v)
        return
    rng.check(n, what)
    i = fresh('x', n)
    ex.iter_vars.append(i)
    try:
        with PROV.under(gt(n, ZERO)): v = f(i)
    finally: ex.iter_vars.pop()
    if not isinstance(v, T): raise Unsupported('non scalar fill')
    k = sub(rng.off, i) if rng.rev else add(rng.off, i)
    ex.write(rng.rid, rng.pre + (k,), v, vs=[(i, n)])

def native_default(ex, t):
    E = X()
    n = E.tname(t)
    if n in ('std::vector', 'std::initializer_list', 'std::list', 'std::deque'): return ex.new_obj(E.Seq(E.targs(t)[0], ()))
    if n == 'std::array':
        et, cnt = E.targs(t)[0], int(E.targs(t)[1].rstrip('UuLl'))
        return ex.new_obj(E.Seq(et, [E.UNINIT if E.is_scalar_type(et) else ex.default_value(et) for _ in range(cnt)], True))
    if n in ('std::unordered_map', 'std::map'): return ex.new_obj(E.MapO(()))
    if n == 'std::any': return ex.new_obj(E.Rec('std::any', {'t': E.Str(''), 'v': E.NULL}))
    if n == 'std::optional': return ex.new_obj(E.Rec('std::optional', {'has': FALSE, 'v': E.NULL}))
    if n == 'std::pair':
        a, b = E.targs(t)
        return ex.new_obj(E.Rec('std::pair', {'first': ex.default_value(a), 'second': ex.default_value(b)}))
    if n in ('std::unordered_set', 'std::set'): return new_set(ex, t)
    if n == 'std::stack': return ex.new_obj(E.Seq(E.targs(t)[0], ()))
    if n in ('std::basic_stringstream', 'std::basic_ostringstream', 'std::exception', 'std::random_device', 'std::allocator'): return E.Opaque(n)
    raise Unsupported('default of ' + t)

def to_type(ex, t, arg):
    """initialise a value of type t from an evaluated argument"""
    E = X()
    v = ex.rvalue(arg)
    s = E.strip(t)
    if E.is_scalar_type(s): return ex.coerce(v, s) if isinstance(v, T) else v
    if not (isinstance(v, tuple) and v[0] == 'o'):
        if E.is_valtype(s): return v
        rec = ex.record_of(s)
        if rec is None:
            if E.tname(s).startswith('std::'): return v
            raise Unsupported('conversion to ' + s)
    else:
        o = ex.obj(v)
        if isinstance(o, E.Rec):
            rec = ex.record_of(s)
            if rec is not None and E.strip(o.cls) != E.strip(rec['t']):
                return construct_by_args(ex, s, [arg])
        elif isinstance(o, (E.Seq, E.SymSeq)) and not E.tname(s).startswith('std::') and ex.record_of(s) is not None: return construct_by_args(ex, s, [arg])
        return ex.copy_obj(v)
    return construct_by_args(ex, s, [arg])

def construct_by_args(ex, t, args):
    E = X()
    rec = ex.record_of(t)
    if rec is None: raise Unsupported('construct ' + t)
    short = rec['q'].split('::')[-1]
    def compat(g):
        np = len(g['params'])
        if np < len(args): return False
        if any(p.get('def') is None for p in g['params'][len(args):]): return False
        for p, a in zip(g['params'], args):
            v = ex.rvalue(a)
            pt = E.strip(p['t'])
            if isinstance(v, tuple) and v[0] == 'o':
                o = ex.obj(v)
                if isinstance(o, E.Rec):
                    if E.tname(pt) != E.tname(o.cls): return False
                elif isinstance(o, (E.Seq, E.SymSeq)):
                    if E.tname(pt) not in ('std::vector', 'std::array', 'std::initializer_list'): return False
            elif isinstance(v, T):
                if not E.is_scalar_type(pt): return False
            elif isinstance(v, E.Str):
                if E.tname(pt) != 'std::basic_string': return False
        return True
    c = rec
    chain = [rec]
    while chain:
        r = chain.pop(0)
        sh = r['q'].split('::')[-1]
        for g in ex.prog.by_q.get(r['q'] + '::' + sh, []):
            if g.get('ctor') and g.get('body') is not None and compat(g) and g.get('cls') in (None, r['t']):
                loc = ex.alloc_rec(rec)
                ex.call_fn(g, args, loc)
                return loc
        for b in r.get('bases', []):
            br = ex.record_of(b if isinstance(b, str) else b.get('t', ''))
            if br: chain.append(br)
    if len(args) == 1:
        v = ex.rvalue(args[0])
        if isinstance(v, tuple): return ex.copy_obj(v)
    if not args: return ex.default_value(t)
    raise Unsupported('no constructor of %s for %d args' % (t, len(args)))

# ------------------------------------------------------------------ vector
@std('std::vector::vector')
def vec_ctor(ex, t, f, args):
    E = X()
    et = E.targs(t)[0]
    pt = f['pt']
    args = [a for a, p in zip(args, pt) if 'allocator' not in p.split('<')[0]]
    if not args: return ex.new_obj(E.Seq(et, ()))
    if E.tname(pt[0]) == 'std::initializer_list' or E.tname(pt[0]) == 'std::vector':
        v = ex.rvalue(args[0])
        o = ex.obj(v)
        if isinstance(o, E.Seq): return ex.new_obj(E.Seq(et, [ex.copy_obj(x) if isinstance(x, tuple) else x for x in o.items]))
        return ex.copy_obj(v)
    if len(args) == 2 and (pt[0] == pt[1] or E.is_ref(pt[0])) and isinstance(ex.rvalue(args[0]), (E.Ptr, E.It)):
        r = Rng(ex, args[0])
        if isinstance(r.o, E.SetO): return set_to_vector(ex, r, et)
        n = dist(ex, args[0], args[1])
        if n.op == 'num' and n.val <= 16 and r.rid is None:
            return ex.new_obj(E.Seq(et, [ex.copy_obj(ex.rvalue(r.at(num(i)))) for i in range(n.val)]))
        rid = ex.new_region('vector', n, 'Real' if E.is_float(et) else 'Int')
        r.check(n, 'read')
        d = E.Ptr(rid, (), ZERO)
        for_each_write(ex, Rng(ex, d), n, lambda i: r.get(i), 'write')
        return ex.new_obj(E.SymSeq(et, rid, n))
    n = ex.rvalue(args[0])
    if isinstance(n, T):
        fill = ex.rvalue(args[1]) if len(args) > 1 else None
        if n.op == 'num' and n.val <= 64:
            items = []
            for _ in range(n.val):
                if fill is None: items.append(ZERO if E.is_scalar_type(et) else ex.default_value(et))
                else: items.append(ex.copy_obj(fill) if isinstance(fill, tuple) else fill)
            return ex.new_obj(E.Seq(et, items))
        if not E.is_scalar_type(et): raise Unsupported('symbolic vector of objects')
        ex.oblige('allocation', ge0(n), 'vector size is not negative')
        rid = ex.new_region('vector', n, 'Real' if E.is_float(et) else 'Int')
        for_each_write(ex, Rng(ex, E.Ptr(rid, (), ZERO)), n, lambda i: fill if fill is not None else ZERO, 'write')
        return ex.new_obj(E.SymSeq(et, rid, n))
    raise Unsupported('vector constructor %s' % pt)

@std('std::array::array')
def arr_ctor(ex, t, f, args):
    if not args: return native_default(ex, t)
    return ex.copy_obj(ex.rvalue(args[0]))

def this_obj(ex, a):
    v = ex.rvalue(a)
    if not (isinstance(v, tuple) and v[0] == 'o'): raise Unsupported('object expected: %s' % (v,))
    return v, ex.obj(v)

@std('std::vector::size', 'std::array::size', 'std::unordered_map::size', 'std::initializer_list::size', 'std::map::size')
def size(ex, e, f, args):
    v, o = this_obj(ex, args[0])
    return ex.seq_len(o)
@std('std::vector::empty', 'std::unordered_map::empty', 'std::array::empty')
def empty(ex, e, f, args):
    v, o = this_obj(ex, args[0])
    return eq(ex.seq_len(o), ZERO)
@std('std::vector::operator[]', 'std::array::operator[]')
def vindex(ex, e, f, args):
    v, o = this_obj(ex, args[0])
    i = ex.rvalue(args[1])
    n = ex.seq_len(o)
    if not isinstance(o, E_().SymSeq): ex.oblige('bounds', and_(ge0(i), gt(n, i)), 'container index in range')
    return ex.elem(v, i)
def E_(): return X()
@std('std::vector::at', 'std::array::at')
def vat(ex, e, f, args):
    v, o = this_obj(ex, args[0])
    i = ex.rvalue(args[1])
    c = and_(ge0(i), gt(ex.seq_len(o), i))
    if ex.loop_depth == 0:
        if not ex.branch(c): raise CppThrow('std::out_of_range')
    elif not ex.oblige('bounds', c, 'container index in range'): raise Unsupported('at() in loop')
    return ex.elem(v, i)
@std('std::vector::front', 'std::array::front')
def vfront(ex, e, f, args):
    v, o = this_obj(ex, args[0])
    ex.oblige('bounds', gt(ex.seq_len(o), ZERO), 'front() of a non-empty container')
    return ex.elem(v, ZERO)
@std('std::vector::back', 'std::array::back')
def vback(ex, e, f, args):
    v, o = this_obj(ex, args[0])
    n = ex.seq_len(o)
    ex.oblige('bounds', gt(n, ZERO), 'back() of a non-empty container')
    return ex.elem(v, sub(n, ONE))
@std('std::vector::data', 'std::array::data')
def vdata(ex, e, f, args):
    E = X()
    v, o = this_obj(ex, args[0])
    if isinstance(o, E.SymSeq) and ex.regions[o.rid].grow: raise Unsupported('data() of a growing vector')
    if isinstance(o, E.SymSeq): return E.Ptr(o.rid, o.pre, ZERO)
    # concrete sequence of scalars viewed through a pointer: move it to a region
    if isinstance(o, E.Seq) and all(isinstance(x, T) or x is E.UNINIT for x in o.items):
        rid = ex.new_region('vector', num(len(o.items)), 'Real' if E.is_float(o.et) else 'Int')
        for i, x in enumerate(o.items):
            if x is not E.UNINIT: ex.write(rid, (num(i),), x)
        ex.st.o[v[1]] = E.SymSeq(o.et, rid, num(len(o.items)))
        return E.Ptr(rid, (), ZERO)
    raise Unsupported('data()')
def mk_it(rev, end):
    def g(ex, e, f, args):
        E = X()
        v = ex.rvalue(args[0])
        if not (isinstance(v, tuple) and v[0] == 'o'): raise Unsupported('iterator of %s' % (v,))
        o = ex.obj(v)
        if isinstance(o, E.SetO): return E.It(v[1], ONE if end else ZERO)
        if isinstance(o, E.PSet): return E.It(v[1], num(len(o.items)) if end else ZERO)
        n = ex.seq_len(o)
        if rev: return E.It(v[1], num(-1) if end else sub(n, ONE), True)
        return E.It(v[1], n if end else ZERO)
    return g
for _c in ('std::vector', 'std::array', 'std::unordered_map', 'std::initializer_list', 'std::unordered_set', 'std::set', 'std::map', 'std'):
    for _n, (_r, _e) in {'begin': (0, 0), 'end': (0, 1), 'cbegin': (0, 0), 'cend': (0, 1), 'rbegin': (1, 0), 'rend': (1, 1), 'crbegin': (1, 0), 'crend': (1, 1)}.items():
        STD['%s::%s' % (_c, _n)] = mk_it(bool(_r), bool(_e))
@std('std::vector::push_back', 'std::vector::emplace_back')
def push_back(ex, e, f, args):
    E = X()
    v, o = this_obj(ex, args[0])
    if isinstance(o, E.SymSeq) and not o.pre and E.is_scalar_type(o.et):
        x = ex.coerce(ex.rvalue(args[1]), o.et) if len(args) > 1 else ZERO
        if not ex.regions[o.rid].grow:
            vresize(ex, e, {'q': 'std::vector::resize'}, [args[0], ('v', add(o.n, ONE)), ('v', x)])
            return ex.elem(v, o.n)
        ex.write(o.rid, (o.n,), x)
        ex.st.o[v[1]] = E.SymSeq(o.et, o.rid, add(o.n, ONE))
        return ex.elem(v, o.n)
    if not isinstance(o, E.Seq): raise Unsupported('push_back on symbolic vector')
    if E.is_scalar_type(o.et): x = ex.coerce(ex.rvalue(args[1]), o.et) if len(args) > 1 else ZERO
    elif len(args) == 2: x = to_type(ex, o.et, args[1])
    else: x = construct_by_args(ex, o.et, args[1:])
    o = ex.obj(v)
    ex.st.o[v[1]] = E.Seq(o.et, o.items + (x,), o.fixed)
    return ex.elem(v, num(len(o.items)))
@std('std::stack::stack')
def stack_ctor(ex, t, f, args):
    if args: return ex.copy_obj(ex.rvalue(args[0]))
    return native_default(ex, t)
@std('std::stack::top')
def stack_top(ex, e, f, args): return STD['std::vector::back'](ex, e, f, args)
@std('std::stack::push', 'std::stack::emplace')
def stack_push(ex, e, f, args): return push_back(ex, e, f, args)
@std('std::stack::pop')
def stack_pop(ex, e, f, args): return STD['std::vector::pop_back'](ex, e, f, args)
@std('std::stack::empty')
def stack_empty(ex, e, f, args): return STD['std::vector::empty'](ex, e, f, args)
@std('std::stack::size')
def stack_size(ex, e, f, args): return STD['std::vector::size'](ex, e, f, args)
class BackIns:
    """std::back_inserter of a container or string"""
    def __init__(self, loc): self.loc = loc
    def key(self): return ('BackIns', self.loc)
    def put(self, ex, x):
        E = X()
        v = ex.load(self.loc) if self.loc[0] != 'o' else self.loc
        if isinstance(v, E.Str):
            c = ex.rvalue(x)
            if not (isinstance(c, T) and c.op == 'num'): raise Unsupported('unknown character')
            ex.store(self.loc, E.Str(v.s + chr(int(c.val)))); return
        push_back(ex, {}, {}, [self.loc, x])
def append_run(ex, loc, n, g):
    """appends g(0) .. g(n - 1) to a vector of scalars"""
    E = X()
    o = ex.obj(loc)
    if not (isinstance(o, (E.Seq, E.SymSeq)) and E.is_scalar_type(o.et)) or getattr(o, 'fixed', False) or getattr(o, 'pre', ()): raise Unsupported('symbolic number of elements appended')
    if isinstance(o, E.SymSeq) and ex.regions[o.rid].grow:
        n0, rid = o.n, o.rid
        def wr(k, count, h):
            x = fresh('x', count); ex.iter_vars.append(x)
            try:
                with PROV.under(gt(count, ZERO)): v = h(x)
            finally: ex.iter_vars.pop()
            ex.write(rid, (add(k, x),), v, vs=[(x, count)])
        wr(n0, n, g)
    else:
        n0 = ex.seq_len(o)
        rid = ex.new_region('vector', add(n0, n), 'Real' if E.is_float(o.et) else 'Int')
        if isinstance(o, E.Seq):
            for i, x in enumerate(o.items): ex.write(rid, (num(i),), x)
        else: for_each_write(ex, Rng(ex, E.Ptr(rid, (), ZERO)), n0, lambda i: ex.read(o.rid, o.pre + (i,)), 'write')
        for_each_write(ex, Rng(ex, E.Ptr(rid, (), n0)), n, g, 'write')
    ex.st.o[loc[1]] = E.SymSeq(o.et, rid, add(n0, n))
@std('std::back_inserter')
def back_inserter(ex, e, f, args): return BackIns(args[0])
class StrIt:
    def __init__(self, loc, end): self.loc, self.end = loc, end
    def key(self): return ('StrIt', self.loc, self.end)
@std('std::basic_string::begin', 'std::basic_string::cbegin')
def str_begin(ex, e, f, args): return StrIt(args[0], False)
@std('std::basic_string::end', 'std::basic_string::cend')
def str_end(ex, e, f, args): return StrIt(args[0], True)
@std('tolower', 'std::tolower')
def tolower(ex, e, f, args):
    c = ex.rvalue(args[0])
    if c.op != 'num': raise Unsupported('tolower of an unknown character')
    return num(ord(chr(int(c.val)).lower()))
@std('toupper', 'std::toupper')
def toupper(ex, e, f, args):
    c = ex.rvalue(args[0])
    if c.op != 'num': raise Unsupported('toupper of an unknown character')
    return num(ord(chr(int(c.val)).upper()))
def run_items(ex, a, b):
    """locations/values of a concrete range"""
    E = X()
    v, w = ex.rvalue(a), ex.rvalue(b)
    if isinstance(v, StrIt):
        if not isinstance(w, StrIt) or v.end or not w.end: raise Unsupported('part of a string')
        return [('v', num(ord(c))) for c in scon(ex, v.loc)]
    n = dist(ex, a, b)
    if n.op != 'num': return None
    r = Rng(ex, a)
    return [r.at(num(i)) for i in range(int(n.val))]
@std('std::for_each')
def for_each(ex, e, f, args):
    its = run_items(ex, args[0], args[1]); op = ex.rvalue(args[2])
    if its is None:
        sym_for(ex, dist(ex, args[0], args[1]), lambda i: ex.call_value(op, [locate(ex, args[0], i)]))
        return op
    for x in its: ex.call_value(op, [x])
    return op
@std('std::bind')
def bind(ex, e, f, args):
    E = X()
    fn = ex.rvalue(args[0])
    rest = []
    for a in args[1:]:
        v = ex.rvalue(a)
        if isinstance(v, E.Opaque) and v.name.startswith('std::placeholders::_'): rest.append(int(v.name.split('_')[-1]) - 1)
        else: rest.append(('v', v))
    return E.Native('bind', lambda ex, a: ex.call_value(fn, [(a[r] if isinstance(a[r], tuple) and a[r][:1] and a[r][0] in ('o',) else ('v', a[r])) if isinstance(r, int) else r for r in rest]))
@std('std::vector::pop_back')
def pop_back(ex, e, f, args):
    E = X()
    v, o = this_obj(ex, args[0])
    if not isinstance(o, E.Seq): raise Unsupported('pop_back')
    ex.st.o[v[1]] = E.Seq(o.et, o.items[:-1], o.fixed)
@std('std::vector::clear', 'std::unordered_map::clear')
def vclear(ex, e, f, args):
    E = X()
    v, o = this_obj(ex, args[0])
    ex.st.o[v[1]] = E.Seq(o.et, ()) if isinstance(o, (E.Seq, E.SymSeq)) else E.MapO(())
@std('std::vector::reserve', 'std::vector::shrink_to_fit', 'std::unordered_map::reserve')
def vreserve(ex, e, f, args): return None
@std('std::vector::resize', 'std::vector::assign')
def vresize(ex, e, f, args):
    E = X()
    v, o = this_obj(ex, args[0])
    n = ex.rvalue(args[1])
    if f['q'].endswith('assign') and isinstance(n, (E.Ptr, E.It, tuple)):
        if isinstance(n, tuple): ex.assign_obj(v, n); return
        loc = vec_ctor(ex, 'std::vector<%s>' % o.et, {'pt': ['it', 'it']}, args[1:3])
        ex.st.o[v[1]] = ex.obj(loc); return
    if not E.is_scalar_type(o.et):
        if not (isinstance(o, E.Seq) and isinstance(n, T) and n.op == 'num' and f['q'].endswith('resize')): raise Unsupported('resize of object vector')
        k = int(n.val)
        its = o.items[:k]
        while len(its) < k: its = its + (ex.copy_obj(ex.rvalue(args[2])) if len(args) > 2 else ex.default_value(o.et),)
        ex.st.o[v[1]] = E.Seq(o.et, its); return
    fill = ex.rvalue(args[2]) if len(args) > 2 else ZERO
    if isinstance(o, E.Seq) and n.op == 'num' and n.val <= 64:
        items = list(o.items[:n.val]) if f['q'].endswith('resize') else []
        while len(items) < n.val: items.append(fill)
        ex.st.o[v[1]] = E.Seq(o.et, items); return
    if isinstance(o, E.Seq) and (len(o.items) == 0 or f['q'].endswith('assign')):
        rid = ex.new_region('vector', n, 'Real' if E.is_float(o.et) else 'Int')
        for_each_write(ex, Rng(ex, E.Ptr(rid, (), ZERO)), n, lambda i: fill, 'write')
        ex.st.o[v[1]] = E.SymSeq(o.et, rid, n); return
    if isinstance(o, E.SymSeq):
        old = o
        rid = ex.new_region('vector', n, 'Real' if E.is_float(o.et) else 'Int')
        if f['q'].endswith('assign'):
            for_each_write(ex, Rng(ex, E.Ptr(rid, (), ZERO)), n, lambda i: fill, 'write')
        else:
            def g(i):
                return ite(lt(i, old.n), ex.read(old.rid, old.pre + (i,)), fill)
            for_each_write(ex, Rng(ex, E.Ptr(rid, (), ZERO)), n, g, 'write')
        ex.st.o[v[1]] = E.SymSeq(o.et, rid, n); return
    raise Unsupported('resize')
@std('std::vector::insert')
def vinsert(ex, e, f, args):
    E = X()
    v, o = this_obj(ex, args[0])
    it = ex.rvalue(args[1])
    if isinstance(o, E.Seq) and isinstance(it, E.It) and it.i.op == 'num':
        k = it.i.val
        x = ex.rvalue(args[2])
        if len(args) == 4:
            n = dist(ex, args[2], args[3])
            r = Rng(ex, args[2])
            if n.op != 'num': raise Unsupported('insert range')
            new = [ex.copy_obj(ex.rvalue(r.at(num(i)))) for i in range(n.val)]
        else: new = [ex.copy_obj(x) if isinstance(x, tuple) else x]
        ex.st.o[v[1]] = E.Seq(o.et, o.items[:k] + tuple(new) + o.items[k:], o.fixed)
        return E.It(v[1], it.i)
    if len(args) == 4 and isinstance(it, E.It) and PROV.prove(eq0(sub(it.i, ex.seq_len(o))), (), True):
        n = dist(ex, args[2], args[3]); r = Rng(ex, args[2])
        r.check(n, 'read')
        append_run(ex, v, n, r.get)
        return E.It(v[1], it.i)
    raise Unsupported('vector insert')
@std('std::array::fill')
def afill(ex, e, f, args):
    E = X()
    v, o = this_obj(ex, args[0])
    x = ex.rvalue(args[1])
    ex.st.o[v[1]] = E.Seq(o.et, [x] * len(o.items), o.fixed)
@std('std::vector::swap')
def vswap(ex, e, f, args):
    v, o = this_obj(ex, args[0]); w, p = this_obj(ex, args[1])
    ex.st.o[v[1]], ex.st.o[w[1]] = p, o
@std('std::swap')
def sswap(ex, e, f, args):
    a, b = args
    if a[0] == 'o': return vswap(ex, e, f, args)
    x, y = ex.load(a), ex.load(b)
    ex.store(a, y); ex.store(b, x)

# --------------------------------------------------------------- iterators
@std('std::__detail::_Node_iterator::operator*', 'std::reverse_iterator::operator*', '__gnu_cxx::__normal_iterator::operator*',
     'std::__detail::_Node_const_iterator::operator*')
def it_deref(ex, e, f, args): return ex.deref(ex.rvalue(args[0]))
@std('std::__detail::_Node_iterator::operator->', '__gnu_cxx::__normal_iterator::operator->', 'std::__detail::_Node_const_iterator::operator->')
def it_arrow(ex, e, f, args):
    E = X()
    return E.PObj(ex.deref(ex.rvalue(args[0])))
def it_inc(k):
    def g(ex, e, f, args):
        old = ex.load(args[0])
        ex.store(args[0], ex.advance(old, num(k)))
        return old if len(args) > 1 else args[0]
    return g
for _c in ('std::__detail::_Node_iterator', 'std::reverse_iterator', '__gnu_cxx::__normal_iterator', 'std::__detail::_Node_const_iterator'):
    STD[_c + '::operator++'] = it_inc(1); STD[_c + '::operator--'] = it_inc(-1)
def it_arith(op):
    def g(ex, e, f, args): return ex.arith(op, ex.rvalue(args[0]), ex.rvalue(args[1]), 'long')
    return g
for _c in ('std::reverse_iterator', '__gnu_cxx::__normal_iterator', '__gnu_cxx', 'std'):
    for _o in '+-':
        if _c != 'std': STD['%s::operator%s' % (_c, _o)] = it_arith(_o)
def it_carith(op):
    def g(ex, e, f, args):
        ex.store(args[0], ex.arith(op, ex.load(args[0]), ex.rvalue(args[1]), 'long')); return args[0]
    return g
for _c in ('std::reverse_iterator', '__gnu_cxx::__normal_iterator'):
    STD[_c + '::operator+='] = it_carith('+'); STD[_c + '::operator-='] = it_carith('-')
@std('__gnu_cxx::__normal_iterator::operator[]', 'std::reverse_iterator::operator[]')
def it_index(ex, e, f, args): return ex.deref(ex.advance(ex.rvalue(args[0]), ex.rvalue(args[1])))
@std('std::advance')
def sadvance(ex, e, f, args): ex.store(args[0], ex.advance(ex.load(args[0]), ex.rvalue(args[1])))
@std('std::next')
def snext(ex, e, f, args): return ex.advance(ex.rvalue(args[0]), ex.rvalue(args[1]) if len(args) > 1 else ONE)
@std('std::prev')
def sprev(ex, e, f, args): return ex.advance(ex.rvalue(args[0]), neg(ex.rvalue(args[1])) if len(args) > 1 else num(-1))
@std('std::distance')
def sdistance(ex, e, f, args): return dist(ex, args[0], args[1])
def cmpop(op):
    def g(ex, e, f, args): return ex.compare(op, ex.rvalue(args[0]), ex.rvalue(args[1]))
    return g
for _o in ('==', '!=', '<', '>', '<=', '>='):
    for _c in ('std', '__gnu_cxx', 'std::__detail'): STD['%s::operator%s' % (_c, _o)] = cmpop(_o)

# ------------------------------------------------------------------ strings
@std('std::basic_string::basic_string')
def str_ctor(ex, t, f, args):
    E = X()
    if not args: return E.Str('')
    v = ex.rvalue(args[0])
    if isinstance(v, E.Str): return v
    if len(args) >= 2 and isinstance(v, T) and f is not None and len(f['pt']) >= 2 and f['pt'][1] == 'char':
        from . import files
        if v is ZERO: return E.Str('')
        return files.StrN(v)
    raise Unsupported('string constructor %s' % (f and f['pt'],))
NPOS = 2**64 - 1
@std('std::basic_string_view::basic_string_view')
def sv_ctor(ex, t, f, args): return str_ctor(ex, t, f, args)
@std('std::basic_string_view::data')
def sv_data(ex, e, f, args):
    v = ex.rvalue(args[0])
    return X().Opaque('unterminated', v)
def sint(ex, v):
    v = ex.rvalue(v)
    if not isinstance(v, T) or v.op != 'num': raise Unsupported('symbolic position in a string')
    return int(v.val) % 2**64
def scon(ex, v):
    v = ex.rvalue(v)
    if not isinstance(v, X().Str) or v.s[:1] == chr(0): raise Unsupported('characters of an unknown string')
    return v.s
@std('std::basic_string_view::substr', 'std::basic_string::substr')
def str_substr(ex, e, f, args):
    s = scon(ex, args[0]); p = sint(ex, args[1]) if len(args) > 1 else 0; n = sint(ex, args[2]) if len(args) > 2 else NPOS
    if p > len(s): raise CppThrow('std::out_of_range')
    return X().Str(s[p:p+n])
def str_find(ex, e, f, args, g):
    s = scon(ex, args[0]); c = ex.rvalue(args[1])
    c = chr(int(c.val)) if isinstance(c, T) and c.op == 'num' else scon(ex, args[1])
    r = g(s, c)
    return num(NPOS if r < 0 else r)
@std('std::basic_string_view::find_last_of', 'std::basic_string::find_last_of')
def str_flo(ex, e, f, args): return str_find(ex, e, f, args[:2], lambda s, c: max([i for i, x in enumerate(s) if x in c] or [-1]))
@std('std::basic_string_view::find_first_of', 'std::basic_string::find_first_of')
def str_ffo(ex, e, f, args): return str_find(ex, e, f, args[:2], lambda s, c: min([i for i, x in enumerate(s) if x in c] or [-1]))
@std('std::basic_string_view::rfind', 'std::basic_string::rfind')
def str_rfind(ex, e, f, args): return str_find(ex, e, f, args[:2], lambda s, c: s.rfind(c))
@std('std::basic_string_view::find', 'std::basic_string::find')
def str_find_(ex, e, f, args): return str_find(ex, e, f, args[:2], lambda s, c: s.find(c))
@std('std::basic_string_view::size', 'std::basic_string_view::length')
def sv_size(ex, e, f, args): return num(len(scon(ex, args[0])))
@std('std::basic_string::operator=')
def str_assign(ex, e, f, args): ex.store(args[0], ex.rvalue(args[1])); return args[0]
@std('std::vector::operator=', 'std::unordered_map::operator=', 'std::map::operator=', 'std::array::operator=', 'std::pair::operator=')
def cont_assign(ex, e, f, args):
    v = ex.rvalue(args[1])
    if not (isinstance(v, tuple) and v and v[0] == 'o'): raise Unsupported('assignment from %s' % (v,))
    ex.assign_obj(args[0], v); return args[0]
@std('std::basic_string::c_str', 'std::basic_string::data')
def c_str(ex, e, f, args):
    v = ex.rvalue(args[0])
    if isinstance(v, X().Str) and v.s[:1] != chr(0): return v
    from . import files
    return files.StrPtr(args[0])
@std('std::basic_string::resize')
def str_resize(ex, e, f, args):
    from . import files
    v = ex.rvalue(args[0])
    if not (isinstance(v, X().Str) and v.s == ''): raise Unsupported('resize of a string that is not empty')
    if len(args) > 2 and ex.rvalue(args[2]) is not ZERO: raise Unsupported('resize with a fill character')
    ex.store(args[0], files.StrN(ex.rvalue(args[1])))
@std('std::basic_string::size', 'std::basic_string::length')
def str_size(ex, e, f, args):
    from . import files
    return files.str_len(ex.rvalue(args[0]))
@std('std::basic_string::empty')
def str_empty(ex, e, f, args): return TRUE if ex.rvalue(args[0]).s == '' else FALSE
@std('std::basic_string::operator+=', 'std::basic_string::append')
def str_append(ex, e, f, args):
    E = X()
    if len(args) != 2: raise Unsupported('append')
    a, b = scon(ex, args[0]), ex.rvalue(args[1])
    if isinstance(b, T): 
        if b.op != 'num': raise Unsupported('unknown character')
        b = chr(int(b.val))
    else: b = scon(ex, args[1])
    ex.store(args[0], E.Str(a + b)); return args[0]
@std('std::basic_string::push_back')
def str_push(ex, e, f, args): str_append(ex, e, f, args)
@std('std::operator+')
def str_plus(ex, e, f, args):
    E = X()
    a, b = ex.rvalue(args[0]), ex.rvalue(args[1])
    if isinstance(a, E.Str) and isinstance(b, E.Str): return E.Str(a.s + b.s)
    return ex.arith('+', a, b, 'long')
@std('std::operator-')
def it_minus(ex, e, f, args): return ex.arith('-', ex.rvalue(args[0]), ex.rvalue(args[1]), 'long')
@std('std::to_string')
def to_string(ex, e, f, args):
    E = X()
    v = ex.rvalue(args[0])
    return E.Str(str(v))
@std('std::allocator::allocator', 'std::basic_stringstream::basic_stringstream', 'std::exception::exception', 'std::hash::hash', 'std::equal_to::equal_to',
     'std::integer_sequence::integer_sequence', 'std::random_device::random_device', 'std::logic_error::logic_error', 'std::runtime_error::runtime_error')
def opaque_ctor(ex, t, f, args): return X().Opaque(f['q'])
@std('std::operator<<', 'std::basic_ostream::operator<<')
def shl(ex, e, f, args): return args[0]

# ---------------------------------------------------------------------- map
def find_key(ex, o, key):
    E = X()
    k = ex.rvalue(key)
    if isinstance(o, E.FamMap):
        i = o.extra.index(k)
        if i is None: raise Unsupported('lookup in a symbolic map under an unknown key')
        if not ex.quiet and not PROV.prove(and_(ge0(i), gt(o.n, i)), (), True): raise Unsupported('lookup in a symbolic map under a key that may be absent')
        return i, o.extra.at(i)
    for i, (kk, loc) in enumerate(o.items):
        if E.vkey(kk) == E.vkey(k): return i, loc
        if isinstance(k, T) and isinstance(kk, T) and k.op == 'num' and kk.op == 'num': continue
        if isinstance(k, T) or isinstance(kk, T): raise Unsupported('comparison of symbolic map keys %s and %s' % (k, kk))
    if isinstance(k, T) or ex.loop_depth:
        for oid, oo in ex.st.o.items():
            if oo is o: E.fam.note(ex, oid, k)
    return None
@std('std::unordered_map::unordered_map', 'std::map::map')
def map_ctor(ex, t, f, args):
    E = X()
    if not args: return ex.new_obj(E.MapO(()))
    v = ex.rvalue(args[0])
    if isinstance(v, tuple) and isinstance(ex.obj(v), E.Seq):
        items = []
        vt = E.targs(t)[1]
        for it in ex.obj(v).items:
            r = ex.obj(it).f
            k = ex.rvalue(r['first'])
            if any(E.vkey(k) == E.vkey(kk) for kk, _ in items): continue
            val = r['second']
            items.append((k, val if isinstance(val, tuple) and val[0] == 'o' else ex.new_cell(val)))
        return ex.new_obj(E.MapO(items))
    if isinstance(v, tuple): return ex.copy_obj(v)
    return ex.new_obj(E.MapO(()))
@std('std::unordered_map::at', 'std::map::at')
def map_at(ex, e, f, args):
    E = X()
    v, o = this_obj(ex, args[0])
    r = fam_lookup(ex, o, args[1])
    if r is not None:
        ex.throw_if(not_(r[0]), 'std::out_of_range')
        return o.extra.at(r[1])
    r = find_key(ex, o, args[1])
    if r is None: raise CppThrow('std::out_of_range')
    return r[1]
@std('std::unordered_map::operator[]', 'std::map::operator[]')
def map_index(ex, e, f, args):
    E = X()
    v, o = this_obj(ex, args[0])
    r = find_key(ex, o, args[1])
    if r is not None: return r[1]
    vt = E.targs(f['cls'])[1]
    d = ZERO if E.is_scalar_type(vt) else ex.default_value(vt)
    loc = d if isinstance(d, tuple) else ex.new_cell(d)
    o = ex.obj(v)
    ex.st.o[v[1]] = E.MapO(o.items + ((ex.rvalue(args[1]), loc),))
    return loc
@std('std::unordered_map::emplace', 'std::map::emplace', 'std::unordered_map::try_emplace', 'std::unordered_map::insert', 'std::map::insert', 'std::unordered_map::insert_or_assign')
def map_emplace(ex, e, f, args):
    E = X()
    v, o = this_obj(ex, args[0])
    vt = E.targs(f['cls'])[1]
    if len(args) == 2:
        pv = ex.obj(ex.rvalue(args[1]))
        if not isinstance(pv, E.Rec): raise Unsupported('map insert')
        key, rest = ex.rvalue(pv.f['first']), [pv.f['second'] if isinstance(pv.f['second'], tuple) else ('v', pv.f['second'])]
    else: key, rest = ex.rvalue(args[1]), args[2:]
    if not isinstance(key, (E.Str, T, E.PObj)): raise Unsupported('map key')
    r = find_key(ex, o, ('v', key))
    if r is not None:
        if f['q'].endswith('insert_or_assign'): ex.store(r[1], ex.rvalue(rest[0]))
        return ex.new_obj(E.Rec('std::pair', {'first': E.It(v[1], lift(r[0])), 'second': FALSE}))
    x = to_type(ex, vt, rest[0]) if len(rest) == 1 else construct_by_args(ex, vt, rest)
    loc = x if isinstance(x, tuple) and x[0] == 'o' else ex.new_cell(x)
    o = ex.obj(v)
    ex.st.o[v[1]] = E.MapO(o.items + ((key, loc),))
    return ex.new_obj(E.Rec('std::pair', {'first': E.It(v[1], num(len(o.items))), 'second': TRUE}))
def fam_lookup(ex, o, key):
    """(condition, entry number) of a key that a goal leaves possibly absent, or None"""
    E = X()
    if not isinstance(o, E.FamMap) or getattr(o.extra, 'lookup', None) is None: return None
    k = ex.rvalue(key)
    if o.extra.index(k) is not None: return None
    return o.extra.lookup(k)
@std('std::unordered_map::find', 'std::map::find')
def map_find(ex, e, f, args):
    E = X()
    v, o = this_obj(ex, args[0])
    r = fam_lookup(ex, o, args[1])
    if r is not None:
        c = ex.decide(r[0])
        if c not in (TRUE, FALSE) and not ex.loop_depth: c = TRUE if ex.branch(c) else FALSE
        return E.It(v[1], ite(c, r[1], o.n))
    r = find_key(ex, o, args[1])
    return E.It(v[1], lift(r[0]) if r is not None else ex.seq_len(o))
@std('std::unordered_map::count', 'std::map::count')
def map_count(ex, e, f, args):
    v, o = this_obj(ex, args[0])
    r = fam_lookup(ex, o, args[1])
    if r is not None: return ite(r[0], ONE, ZERO)
    return ONE if find_key(ex, o, args[1]) is not None else ZERO
@std('std::pair::pair')
def pair_ctor(ex, t, f, args):
    E = X()
    a, b = E.targs(t)
    if len(args) == 1: return ex.copy_obj(ex.rvalue(args[0]))
    if not args: return native_default(ex, t)
    return ex.new_obj(E.Rec('std::pair', {'first': to_type(ex, a, args[0]), 'second': to_type(ex, b, args[1])}))
@std('std::make_pair')
def make_pair(ex, e, f, args):
    E = X()
    g = lambda a: (lambda v: ex.copy_obj(v) if isinstance(v, tuple) else v)(ex.rvalue(a))
    return ex.new_obj(E.Rec('std::pair', {'first': g(args[0]), 'second': g(args[1])}))

# ------------------------------------------------------------- smart pointers
@std('std::shared_ptr::shared_ptr', 'std::unique_ptr::unique_ptr')
def sp_ctor(ex, t, f, args):
    E = X()
    if not args: return E.NULL
    if len(args) == 2 and f.get('pt') and E.tname(f['pt'][0]) == 'std::shared_ptr': return ex.rvalue(args[1])      # shares ownership, points elsewhere
    return ex.rvalue(args[0])
@std('std::default_delete::default_delete')
def default_delete(ex, t, f, args): return E_().Opaque('std::default_delete')
@std('__gnu_cxx::__normal_iterator::__normal_iterator')
def it_ctor(ex, t, f, args): return ex.rvalue(args[0])
@std('std::__shared_ptr::get', 'std::unique_ptr::get', 'std::shared_ptr::get')
def sp_get(ex, e, f, args): return ex.rvalue(args[0])
@std('std::__shared_ptr::reset', 'std::unique_ptr::reset', 'std::shared_ptr::reset')
def sp_reset(ex, e, f, args):
    E = X()
    ex.store(args[0], ex.rvalue(args[1]) if len(args) > 1 else E.NULL)
@std('std::shared_ptr::operator=', 'std::unique_ptr::operator=')
def sp_assign(ex, e, f, args):
    ex.store(args[0], ex.rvalue(args[1])); return args[0]
@std('std::__shared_ptr_access::operator->', 'std::unique_ptr::operator->')
def sp_arrow(ex, e, f, args): return ex.rvalue(args[0])
@std('std::__shared_ptr_access::operator*', 'std::unique_ptr::operator*')
def sp_star(ex, e, f, args): return ex.deref(ex.rvalue(args[0]))
@std('std::__shared_ptr::operator bool', 'std::unique_ptr::operator bool')
def sp_bool(ex, e, f, args): return ex.truth(ex.rvalue(args[0]))
@std('std::make_shared', 'std::make_unique')
def make_shared(ex, e, f, args):
    E = X()
    t = f['ta'][0]
    if E.tname(t).startswith('std::'): raise Unsupported('make_shared<%s>' % t)
    loc = construct_by_args(ex, t, args)
    return E.PObj(loc)
@std('std::function::function')
def fn_ctor(ex, t, f, args): return ex.rvalue(args[0]) if args else X().NULL
@std('std::function::operator()')
def fn_call(ex, e, f, args): return ex.call_value(ex.rvalue(args[0]), args[1:])
@std('std::function::operator=')
def fn_assign(ex, e, f, args): ex.store(args[0], ex.rvalue(args[1])); return args[0]
@std('std::any::any')
def any_ctor(ex, t, f, args):
    E = X()
    if not args: return native_default(ex, 'std::any')
    v = ex.rvalue(args[0])
    if E.tname(f['pt'][0]) == 'std::any' : return ex.copy_obj(v)
    ty = E.strip(f['ta'][0]) if f.get('ta') else E.strip(f['pt'][0])
    return ex.new_obj(E.Rec('std::any', {'t': E.Str(ty), 'v': ex.copy_obj(v) if isinstance(v, tuple) else v}))
@std('std::any::operator=')
def any_assign(ex, e, f, args):
    E = X()
    v = ex.rvalue(args[1])
    if isinstance(v, tuple) and isinstance(ex.obj(v), E.Rec) and ex.obj(v).cls == 'std::any':
        o = ex.obj(v)
        ex.st.o[args[0][1]] = ex._copy(o)
    else:
        ty = E.strip(f['ta'][0]) if f.get('ta') else ''
        ex.st.o[args[0][1]] = E.Rec('std::any', {'t': E.Str(ty), 'v': ex.copy_obj(v) if isinstance(v, tuple) else v})
    return args[0]
@std('std::any_cast')
def any_cast(ex, e, f, args):
    E = X()
    v = ex.rvalue(args[0])
    ptr = isinstance(v, E.PObj)
    loc = v.loc if ptr else v
    o = ex.obj(loc)
    want = E.strip(f['ta'][0])
    if o.f['t'].s != want:
        if ptr: return E.NULL
        raise CppThrow('std::bad_any_cast')
    x = o.f['v']
    pl = x if isinstance(x, tuple) and x[0] == 'o' else ('f', loc[1], 'v')
    return E.PObj(pl) if ptr else pl
@std('std::optional::optional')
def opt_ctor(ex, t, f, args):
    E = X()
    if not args or E.tname(f['pt'][0]) == 'std::nullopt_t': return native_default(ex, 'std::optional')
    v = ex.rvalue(args[0])
    if E.tname(f['pt'][0]) == 'std::optional': return ex.copy_obj(v)
    return ex.new_obj(E.Rec('std::optional', {'has': TRUE, 'v': ex.copy_obj(v) if isinstance(v, tuple) else v}))
@std('std::optional::has_value', 'std::optional::operator bool')
def opt_has(ex, e, f, args): return ex.obj(ex.rvalue(args[0])).f['has']
@std('std::optional::value', 'std::optional::operator*')
def opt_val(ex, e, f, args):
    v = ex.rvalue(args[0]); x = ex.obj(v).f['v']
    return x if isinstance(x, tuple) else ('f', v[1], 'v')
@std('std::optional::operator->')
def opt_arrow(ex, e, f, args): return X().PObj(opt_val(ex, e, f, args))
@std('std::move', 'std::forward', 'std::as_const', 'std::addressof')
def fmove(ex, e, f, args): 
    if len(args) == 1: return args[0]
    return algo_copy(ex, e, f, args)     # std::move(first, last, out)
@std('std::ref', 'std::cref')
def fref(ex, e, f, args): return args[0]

# --------------------------------------------------------------- algorithms
@std('std::multiplies::multiplies')
def mult(ex, t, f, args): return X().Native('multiplies', lambda ex, a: mul(a[0], a[1]))
@std('std::plus::plus')
def plus(ex, t, f, args): return X().Native('plus', lambda ex, a: add(a[0], a[1]))
def check_acc(ex, f, k, r):
    """a sum of floating-point elements kept in an integer is rounded at every step"""
    E = X()
    t = E.strip(f['pt'][k]) if f.get('pt') else ''
    if t and not E.is_float(t) and r.rid is not None and ex.regions[r.rid].sort == 'Real': raise Unsupported('floating-point elements accumulated in %s' % t)
@std('std::accumulate')
def accumulate(ex, e, f, args):
    E = X()
    n = dist(ex, args[0], args[1])
    acc = ex.rvalue(args[2])
    op = ex.rvalue(args[3]) if len(args) > 3 else E.Native('plus', lambda ex, a: add(a[0], a[1]))
    r = Rng(ex, args[0])
    check_acc(ex, f, -1 if len(args) < 4 else -2, r)
    if n.op == 'num' and n.val <= 16:
        for i in range(n.val): acc = ex.rvalue(ex.call_value(op, [('v', acc), ('v', ex.rvalue(r.at(num(i))))]))
        return acc
    r.check(n, 'read')
    p = fresh('acc', None, 'Int'); i = fresh('x', n)
    x = r.get(i)
    y = ex.rvalue(ex.call_value(op, [('v', p), ('v', x)]))
    if y is add(p, x): return add(acc, mk_sum([(i, n)], TRUE, x))
    if y is mul(p, x): return mul(acc, mk_prod(i, n, x))
    d = E.distribute_ite(y, p)
    if d is not None and p not in d.fv: return add(acc, mk_sum([(i, n)], TRUE, d))
    raise Unsupported('accumulate with this operation')
@std('std::copy')
def algo_copy(ex, e, f, args):
    E = X()
    n = dist(ex, args[0], args[1])
    copy_run(ex, args[0], n, args[2])
    return ex.advance(ex.rvalue(args[2]), n)
@std('std::copy_n')
def algo_copy_n(ex, e, f, args):
    n = ex.rvalue(args[1])
    copy_run(ex, args[0], n, args[2])
    return ex.advance(ex.rvalue(args[2]), n)
def copy_run(ex, src, n, dst):
    E = X()
    s, d = Rng(ex, src), Rng(ex, dst)
    if s.rid is None or d.rid is None:
        if n.op != 'num':
            if s.rid is None and d.rid is not None: raise Unsupported('copy')
            raise Unsupported('copy of symbolic count')
    else: s.check(n, 'read')
    if s.rid is not None and s.rid == d.rid and not (s.off is d.off and s.pre == d.pre):
        raise Unsupported('overlapping copy')
    for_each_write(ex, d, n, lambda i: s.get(i), 'write')
@std('memcpy', 'std::memcpy')
def memcpy(ex, e, f, args):
    n = ex.rvalue(args[2])
    k = idiv(n, num(4))
    if not PROV.prove(eq0(sub(mul(k, num(4)), n)), (), True): raise Unsupported('memcpy size')
    copy_run(ex, args[1], k, args[0]); return args[0]
@std('memset', 'std::memset')
def memset(ex, e, f, args):
    n = ex.rvalue(args[2])
    k = idiv(n, num(4))
    if ex.rvalue(args[1]) is not ZERO or not PROV.prove(eq0(sub(mul(k, num(4)), n)), (), True): raise Unsupported('memset')
    for_each_write(ex, Rng(ex, args[0]), k, lambda i: ZERO, 'write'); return args[0]
@std('std::fill_n')
def fill_n(ex, e, f, args):
    E = X()
    n = ex.rvalue(args[1]); v = ex.rvalue(args[2])
    for_each_write(ex, Rng(ex, args[0]), n, lambda i: v, 'write')
    return ex.advance(ex.rvalue(args[0]), n)
@std('std::fill')
def fill(ex, e, f, args):
    v = ex.rvalue(args[2])
    for_each_write(ex, Rng(ex, args[0]), dist(ex, args[0], args[1]), lambda i: v, 'write')
@std('std::generate_n')
def generate_n(ex, e, f, args):
    n = ex.rvalue(args[1]); g = ex.rvalue(args[2])
    for_each_write(ex, Rng(ex, args[0]), n, lambda i: pure_call(ex, g, []), 'write')
@std('std::generate')
def generate(ex, e, f, args):
    g = ex.rvalue(args[2])
    for_each_write(ex, Rng(ex, args[0]), dist(ex, args[0], args[1]), lambda i: pure_call(ex, g, []), 'write')
@std('std::iota')
def iota(ex, e, f, args):
    v = ex.rvalue(args[2])
    for_each_write(ex, Rng(ex, args[0]), dist(ex, args[0], args[1]), lambda i: add(v, i), 'write')
@std('std::transform')
def transform(ex, e, f, args):
    out = ex.rvalue(args[-2])
    if isinstance(out, BackIns):
        its = run_items(ex, args[0], args[1]); op = ex.rvalue(args[-1])
        if its is None:
            n = dist(ex, args[0], args[1]); s = Rng(ex, args[0]); s2 = Rng(ex, args[2]) if len(args) == 5 else None
            for q in (s, s2):
                if q is not None: q.check(n, 'read')
            append_run(ex, out.loc, n, lambda i: pure_call(ex, op, [('v', s.get(i))] + ([('v', s2.get(i))] if s2 is not None else [])))
            return out
        its2 = None
        if len(args) == 5:
            r2 = Rng(ex, args[2]); its2 = [r2.at(num(i)) for i in range(len(its))]
        for i, x in enumerate(its): out.put(ex, wrap(ex.call_value(op, [x] + ([its2[i]] if its2 else []))))
        return out
    n = dist(ex, args[0], args[1])
    s = Rng(ex, args[0])
    if len(args) == 4: d, op, s2 = Rng(ex, args[2]), ex.rvalue(args[3]), None
    else: s2, d, op = Rng(ex, args[2]), Rng(ex, args[3]), ex.rvalue(args[4])
    for q in (s, s2):
        if q is not None:
            q.check(n, 'read')
            if q.rid is not None and q.rid == d.rid and not (q.off is d.off and q.pre == d.pre): raise Unsupported('overlapping transform')
    def g(i):
        a = [('v', s.get(i))] + ([('v', s2.get(i))] if s2 is not None else [])
        return pure_call(ex, op, a)
    before = ex.st.clone()
    try: for_each_write(ex, d, n, g, 'write')
    except SideEffects:
        ex.st = before
        by_iter(ex, n, lambda i: ex.store(locate(ex, args[-2], i), ex.rvalue(ex.call_value(op, [locate(ex, args[0], i)] + ([locate(ex, args[2], i)] if s2 is not None else [])))))
    return ex.advance(out, n)
class SideEffects(Unsupported): pass
def wrap(v): return v if isinstance(v, tuple) else ('v', v)
def pure_call(ex, fv, args):
    """call a functor for an arbitrary element; it may not change pre-existing state"""
    E = X()
    before = ex.st.clone()
    ex.loop_depth += 1
    try: v = ex.rvalue(ex.call_value(fv, args))
    finally: ex.loop_depth -= 1
    for c in before.c:
        if not E.same_val(before.c[c], ex.st.c.get(c)): raise SideEffects('functor with side effects')
    for o in before.o:
        if before.o[o] is not ex.st.o.get(o): raise SideEffects('functor with side effects')
    for r in before.r:
        if before.r[r] is not ex.st.r.get(r): raise SideEffects('functor with side effects')
    return v
def quant(kind):
    def g(ex, e, f, args):
        n = dist(ex, args[0], args[1])
        r = Rng(ex, args[0]); op = ex.rvalue(args[2])
        if n.op == 'num' and n.val <= 16:
            cs = [ex.truth(ex.rvalue(ex.call_value(op, [r.at(num(i))]))) for i in range(n.val)]
            return {'any': or_(*cs), 'all': and_(*cs), 'none': not_(or_(*cs))}[kind]
        r.check(n, 'read')
        i = fresh('x', n)
        c = ex.truth(pure_call(ex, op, [('v', r.get(i))]))
        cnt = mk_sum([(i, n)], TRUE, ite(c if kind != 'all' else not_(c), ONE, ZERO))
        if kind == 'any':
            if PROV.prove(not_(c), (), True): return FALSE
            return gt(cnt, ZERO)
        if PROV.prove(c if kind == 'all' else not_(c), (), True): return TRUE
        return eq(cnt, ZERO)
    return g
STD['std::any_of'] = quant('any'); STD['std::all_of'] = quant('all'); STD['std::none_of'] = quant('none')
@std('std::equal')
def sequal(ex, e, f, args):
    n = dist(ex, args[0], args[1])
    if n.op != 'num' or n.val > 16: raise Unsupported('std::equal on symbolic range')
    a, b = Rng(ex, args[0]), Rng(ex, args[2])
    return and_(*[eq(ex.rvalue(a.at(num(i))), ex.rvalue(b.at(num(i)))) for i in range(n.val)])
@std('std::max_element')
def max_element(ex, e, f, args):
    n = dist(ex, args[0], args[1])
    r = Rng(ex, args[0]); r.check(n, 'read')
    i = fresh('x', n)
    return ex.advance(ex.rvalue(args[0]), mk_max(i, n, r.get(i), 'argmax'))
@std('std::inner_product')
def inner_product(ex, e, f, args):
    n = dist(ex, args[0], args[1])
    a, b = Rng(ex, args[0]), Rng(ex, args[2])
    if len(args) > 4: raise Unsupported('inner_product ops')
    check_acc(ex, f, -1, a)
    a.check(n, 'read'); b.check(n, 'read')
    i = fresh('x', n)
    return add(ex.rvalue(args[3]), mk_sum([(i, n)], TRUE, mul(a.get(i), b.get(i))))

def sym_for(ex, n, step):
    """step(i) for i = 0 .. n - 1, effects and all"""
    E = X()
    cell = ex.new_cell(ZERO)
    def body(env):
        i = ex.st.c[cell[1]]
        step(i)
        ex.st.c[cell[1]] = add(i, ONE)
        return ex.one()
    ex.sym_loop({'l': ex.line}, E.dict_env({}), lambda env: gt(n, ex.st.c[cell[1]]), body, False, {cell[1]})
def by_iter(ex, n, step):
    if n.op == 'num' and n.val <= 16:
        for i in range(int(n.val)): step(num(i))
    else: sym_for(ex, n, step)
def locate(ex, a, k):
    v = ex.advance(ex.rvalue(a), k)
    return ex.deref(v)
@std('std::for_each_n')
def for_each_n(ex, e, f, args):
    n = ex.rvalue(args[1]); op = ex.rvalue(args[2])
    by_iter(ex, n, lambda i: ex.call_value(op, [locate(ex, args[0], i)]))
    return ex.advance(ex.rvalue(args[0]), n)
@std('std::min_element')
def min_element(ex, e, f, args):
    n = dist(ex, args[0], args[1])
    if len(args) > 2: raise Unsupported('min_element with an order')
    r = Rng(ex, args[0]); r.check(n, 'read')
    i = fresh('x', n)
    return ex.advance(ex.rvalue(args[0]), mk_max(i, n, r.get(i), 'argmin'))
def counted(ex, f, args, test):
    n = dist(ex, args[0], args[1]); r = Rng(ex, args[0])
    if n.op == 'num' and n.val <= 16: 
        s = ZERO
        for i in range(int(n.val)): s = add(s, ite(test(ex.rvalue(r.at(num(i)))), ONE, ZERO))
        return s
    r.check(n, 'read')
    i = fresh('x', n)
    return mk_sum([(i, n)], TRUE, ite(test(r.get(i)), ONE, ZERO))
@std('std::count')
def scount(ex, e, f, args):
    v = ex.rvalue(args[2])
    return counted(ex, f, args, lambda x: eq(x, v))
@std('std::count_if')
def scount_if(ex, e, f, args):
    op = ex.rvalue(args[2])
    return counted(ex, f, args, lambda x: ex.truth(pure_call(ex, op, [('v', x)])))
@std('std::replace', 'std::replace_if')
def sreplace(ex, e, f, args):
    n = dist(ex, args[0], args[1]); v = ex.rvalue(args[3])
    r = Rng(ex, args[0]); r.check(n, 'write')
    w = ex.rvalue(args[2])
    if f['q'].endswith('_if'): test = lambda x: ex.truth(pure_call(ex, w, [('v', x)]))
    else: test = lambda x: eq(x, w)
    for_each_write(ex, r, n, lambda i: ite(test(r.get(i)), v, r.get(i)), 'write')
@std('std::reverse_copy')
def reverse_copy(ex, e, f, args):
    n = dist(ex, args[0], args[1]); s, d = Rng(ex, args[0]), Rng(ex, args[2])
    s.check(n, 'read')
    if s.rid is not None and s.rid == d.rid: raise Unsupported('overlapping reverse_copy')
    for_each_write(ex, d, n, lambda i: s.get(sub(sub(n, ONE), i)), 'write')
    return ex.advance(ex.rvalue(args[2]), n)
@std('std::reverse')
def sreverse(ex, e, f, args):
    n = dist(ex, args[0], args[1])
    if n.op != 'num' or n.val > 16: raise Unsupported('reverse of a symbolic range')
    r = Rng(ex, args[0])
    locs = [r.at(num(i)) for i in range(int(n.val))]
    vals = [ex.rvalue(l) for l in locs]
    for l, v in zip(locs, reversed(vals)): ex.store(l, v)
@std('std::partial_sum', 'std::inclusive_scan')
def partial_sum(ex, e, f, args):
    E = X()
    n = dist(ex, args[0], args[1]); s, d = Rng(ex, args[0]), Rng(ex, args[2])
    op = ex.rvalue(args[3]) if len(args) > 3 else E.Native('plus', lambda ex, a: add(a[0], a[1]))
    if len(args) > 4 or isinstance(ex.rvalue(args[2]), BackIns): raise Unsupported('partial_sum')
    acc = None
    if n.op == 'num' and n.val <= 16:
        for i in range(int(n.val)):
            x = ex.rvalue(s.at(num(i)))
            acc = x if acc is None else ex.rvalue(ex.call_value(op, [('v', acc), ('v', x)]))
            ex.store(d.at(num(i)), acc)
        return ex.advance(ex.rvalue(args[2]), n)
    s.check(n, 'read')
    if s.rid is not None and s.rid == d.rid: raise Unsupported('overlapping partial_sum')
    p = fresh('acc', None, 'Int'); j = fresh('x', n)
    y = ex.rvalue(ex.call_value(op, [('v', p), ('v', s.get(j))]))
    if y is add(p, s.get(j)): g = lambda i: (lambda k: mk_sum([(k, add(i, ONE))], TRUE, s.get(k)))(fresh('x', add(i, ONE)))
    elif y is mul(p, s.get(j)): g = lambda i: (lambda k: mk_prod(k, add(i, ONE), s.get(k)))(fresh('x', add(i, ONE)))
    else: raise Unsupported('partial_sum with this operation')
    for_each_write(ex, d, n, g, 'write')
    return ex.advance(ex.rvalue(args[2]), n)
@std('std::exclusive_scan')
def exclusive_scan(ex, e, f, args):
    E = X()
    n = dist(ex, args[0], args[1]); s, d = Rng(ex, args[0]), Rng(ex, args[2])
    init = ex.rvalue(args[3]); check_acc(ex, f, 3, s)
    op = ex.rvalue(args[4]) if len(args) > 4 else E.Native('plus', lambda ex, a: add(a[0], a[1]))
    if isinstance(ex.rvalue(args[2]), BackIns): raise Unsupported('exclusive_scan')
    if n.op == 'num' and n.val <= 16:
        acc = init
        for i in range(int(n.val)):
            x = ex.rvalue(s.at(num(i)))
            ex.store(d.at(num(i)), acc)
            acc = ex.rvalue(ex.call_value(op, [('v', acc), ('v', x)]))
        return ex.advance(ex.rvalue(args[2]), n)
    s.check(n, 'read')
    if s.rid is not None and s.rid == d.rid: raise Unsupported('overlapping exclusive_scan')
    p = fresh('acc', None, 'Int'); j = fresh('x', n)
    y = ex.rvalue(ex.call_value(op, [('v', p), ('v', s.get(j))]))
    if y is add(p, s.get(j)): g = lambda i: add(init, (lambda k: mk_sum([(k, i)], TRUE, s.get(k)))(fresh('x', i)))
    elif y is mul(p, s.get(j)): g = lambda i: mul(init, (lambda k: mk_prod(k, i, s.get(k)))(fresh('x', i)))
    else: raise Unsupported('exclusive_scan with this operation')
    for_each_write(ex, d, n, g, 'write')
    return ex.advance(ex.rvalue(args[2]), n)
def first_where(ex, args, test):
    """iterator to the first element with the property, or the end"""
    n = dist(ex, args[0], args[1]); r = Rng(ex, args[0])
    if n.op == 'num' and n.val <= 16 and ex.loop_depth == 0:
        for i in range(int(n.val)):
            if ex.branch(test(ex.rvalue(r.at(num(i))))): return ex.advance(ex.rvalue(args[0]), num(i))
        return ex.rvalue(args[1])
    r.check(n, 'read')
    i = fresh('x', n)
    b = ite(test(r.get(i)), ONE, ZERO)
    found = gt(mk_sum([(i, n)], TRUE, b), ZERO)
    return ex.advance(ex.rvalue(args[0]), ite(found, mk_max(i, n, b, 'argmax'), n))
@std('std::find_if', 'std::find_if_not')
def find_if(ex, e, f, args):
    op = ex.rvalue(args[2])
    if isinstance(ex.rvalue(args[0]), E_().It) and not isinstance(ex.st.o[ex.rvalue(args[0]).oid], (E_().SymSeq,)): 
        its = run_items(ex, args[0], args[1])
        if its is None or ex.loop_depth: raise Unsupported('find_if')
        for i, x in enumerate(its):
            c = ex.truth(ex.rvalue(ex.call_value(op, [x])))
            if ex.branch(c if f['q'].endswith('find_if') else not_(c)): return ex.advance(ex.rvalue(args[0]), num(i))
        return ex.rvalue(args[1])
    def test(x):
        c = ex.truth(pure_call(ex, op, [('v', x)]))
        return c if f['q'].endswith('find_if') else not_(c)
    return first_where(ex, args, test)
@std('std::clamp')
def sclamp(ex, e, f, args):
    a, lo, hi = (ex.numv(ex.rvalue(x)) for x in args[:3])
    return ite(lt(a, lo), lo, ite(lt(hi, a), hi, a))
@std('std::exchange')
def exchange(ex, e, f, args):
    old = ex.load(args[0])
    if not isinstance(old, (T, X().Ptr)): raise Unsupported('exchange')
    ex.store(args[0], ex.coerce(ex.rvalue(args[1]), X().strip(f['pt'][0])) if isinstance(old, T) else ex.rvalue(args[1]))
    return old
for _n, _g in (('minus', lambda ex, a: sub(a[0], a[1])), ('negate', lambda ex, a: neg(a[0])), ('less', lambda ex, a: lt(a[0], a[1])), ('greater', lambda ex, a: gt(a[0], a[1])),
               ('less_equal', lambda ex, a: le(a[0], a[1])), ('greater_equal', lambda ex, a: ge(a[0], a[1])), ('not_equal_to', lambda ex, a: not_(eq(a[0], a[1]))),
               ('divides', lambda ex, a: ex.arith('/', a[0], a[1], 'float' if any(x.sort == 'Real' for x in a) else 'int'))):
    STD['std::%s::%s' % (_n, _n)] = (lambda g, n: lambda ex, t, f, args: X().Native(n, g))(_g, _n)

# --------------------------------------------------------------------- math
def fun1(name):
    def g(ex, e, f, args): return app(name, [ex.numv(ex.rvalue(args[0]))])
    return g
for _n in ('exp', 'log', 'sqrt', 'tanh'):
    for _p in ('', 'std::', ):
        STD[_p + _n] = fun1(_n); STD[_p + _n + 'f'] = fun1(_n)
@std('pow', 'std::pow', 'powf')
def fpow(ex, e, f, args):
    a, b = ex.numv(ex.rvalue(args[0])), ex.numv(ex.rvalue(args[1]))
    if b.op == 'num' and isinstance(b.val, int) and 0 <= b.val <= 4: return power(a, b.val)
    return app('pow', [a, b])
@std('std::abs', 'abs', 'fabs', 'std::fabs', 'fabsf')
def fabs(ex, e, f, args):
    a = ex.numv(ex.rvalue(args[0]))
    return ite(ge0(a), a, neg(a))
@std('std::max', 'fmaxf', 'std::fmax')
def fmax(ex, e, f, args):
    a, b = ex.numv(ex.rvalue(args[0])), ex.numv(ex.rvalue(args[1]))
    return ite(lt(a, b), b, a)
@std('std::min', 'fminf', 'std::fmin')
def fmin(ex, e, f, args):
    a, b = ex.numv(ex.rvalue(args[0])), ex.numv(ex.rvalue(args[1]))
    return ite(lt(b, a), b, a)

# ------------------------------------------------------------------- random
@std('std::mersenne_twister_engine::mersenne_twister_engine')
def mt(ex, t, f, args): return X().Opaque('mt19937')
@std('std::random_device::operator()')
def rd(ex, e, f, args):
    v = fresh('seed')
    PROV.path = PROV.path + [ge0(v)]
    return v
@std('std::uniform_real_distribution::uniform_real_distribution')
def urd(ex, t, f, args):
    a = [ex.rvalue(x) for x in args]
    return X().Opaque('unif', (a[0] if a else ZERO, a[1] if len(a) > 1 else ONE, 'Real'))
@std('std::uniform_int_distribution::uniform_int_distribution')
def uid(ex, t, f, args):
    a = [ex.rvalue(x) for x in args]
    if len(a) < 2: raise Unsupported('uniform_int_distribution without upper bound')
    return X().Opaque('unif', (a[0], a[1], 'Int'))
@std('std::uniform_real_distribution::operator()', 'std::uniform_int_distribution::operator()')
def udraw(ex, e, f, args):
    d = ex.rvalue(args[0])
    lo, hi, sort = d.data
    ex.oblige('random', le(lo, hi), 'distribution bounds are ordered')
    name = 'rand%d' % next(ex.nid)
    vs = tuple(ex.iter_vars)
    def facts(*a):
        s = dict(zip(vs, a))
        r = app(name, a, sort)
        return [ge(r, subst(lo, s)), le(r, subst(hi, s))]
    APPFACTS[name] = facts
    RAND[name] = (vs, lo, hi, sort)
    return app(name, vs, sort)
RAND = {}


# ---------------------------------------------------------------------- sets
# A set of ints is modelled by its size and bounds of its elements: SetO((size, lo, hi)).
# Its elements are pairwise distinct; that and the bounds are all that is known of them.
def set_obj(ex, a):
    E = X()
    v = ex.rvalue(a)
    if isinstance(v, E.PObj): v = v.loc
    o = ex.obj(v)
    if not isinstance(o, E.SetO): raise Unsupported('set operation on %s' % (o,))
    return v, o.info or (ZERO, None, None)
def bounds_of(v):
    if v.op == 'app' and v.args[0] in RAND:
        vs, lo, hi, sort = RAND[v.args[0]]
        s = dict(zip(vs, v.args[1:]))
        return subst(lo, s), subst(hi, s)
    return v, v
@std('std::unordered_set::unordered_set', 'std::set::set')
def set_ctor(ex, t, f, args):
    if args: raise Unsupported('set constructor')
    return new_set(ex, t)
def new_set(ex, t):
    E = X()
    k = E.targs(t)[0].strip()
    if k.endswith('*') or E.tname(k) == 'std::basic_string': return ex.new_obj(E.PSet(()))
    return ex.new_obj(E.SetO((ZERO, None, None)))
def pset(ex, a):
    v = ex.rvalue(a)
    if isinstance(v, X().PObj): v = v.loc
    o = ex.obj(v)
    return (v, o) if isinstance(o, X().PSet) else (v, None)
def pset_find(o, k):
    E = X()
    if not isinstance(k, (E.Str, E.PObj)) or (isinstance(k, E.Str) and k.s[:1] == chr(0)): raise Unsupported('set element %s' % (k,))
    for i, x in enumerate(o.items):
        if E.vkey(x) == E.vkey(k): return i
    return None
@std('std::unordered_set::find', 'std::set::find')
def set_find(ex, e, f, args):
    v, o = pset(ex, args[0])
    if o is None: raise Unsupported('find in a set of numbers')
    i = pset_find(o, ex.rvalue(args[1]))
    return X().It(v[1], num(len(o.items) if i is None else i))
@std('std::unordered_set::count', 'std::set::count', 'std::unordered_set::contains', 'std::set::contains')
def set_count(ex, e, f, args):
    v, o = pset(ex, args[0])
    if o is None: raise Unsupported('count in a set of numbers')
    r = pset_find(o, ex.rvalue(args[1])) is not None
    return boolt(r) if f['q'].endswith('contains') else num(int(r))
@std('std::unordered_set::size', 'std::set::size')
def set_size(ex, e, f, args):
    o = pset(ex, args[0])[1]
    return num(len(o.items)) if o is not None else set_obj(ex, args[0])[1][0]
@std('std::unordered_set::empty', 'std::set::empty')
def set_empty(ex, e, f, args):
    o = pset(ex, args[0])[1]
    return boolt(not o.items) if o is not None else eq(set_obj(ex, args[0])[1][0], ZERO)
@std('std::unordered_set::reserve')
def set_reserve(ex, e, f, args): return None
@std('std::unordered_set::insert', 'std::set::insert', 'std::unordered_set::emplace', 'std::set::emplace')
def set_insert(ex, e, f, args):
    E = X()
    v, o = pset(ex, args[0])
    if o is not None:
        k = ex.rvalue(args[1]); i = pset_find(o, k)
        if i is None: ex.st.o[v[1]] = E.PSet(o.items + (k,))
        return ex.new_obj(E.Rec('std::pair', {'first': E.It(v[1], num(len(o.items) if i is None else i)), 'second': boolt(i is None)}))
    v, (n, lo, hi) = set_obj(ex, args[0])
    x = ex.rvalue(args[1])
    if len(args) != 2 or not isinstance(x, T): raise Unsupported('set insert')
    a, b = bounds_of(x)
    if n is ZERO: m = ONE
    else:
        if not (lo is a and hi is b): raise Unsupported('set elements of different ranges')
        m = fresh('sz')
        PROV.assume(and_(ge0(sub(m, n)), ge0(sub(add(n, ONE), m))))
    ex.st.o[v[1]] = E.SetO((m, a, b))
    return ex.new_obj(E.Rec('std::pair', {'first': ZERO, 'second': eq(m, add(n, ONE))}))
def set_to_vector(ex, r, et):
    E = X()
    n, lo, hi = r.o.info or (ZERO, None, None)
    if n is ZERO: return ex.new_obj(E.Seq(et, ()))
    if ex.loop_depth: raise Unsupported('vector from a set inside a loop')
    name = 'setel%d' % next(ex.nid)
    APPFACTS[name] = lambda *a: [ge0(sub(app(name, a, 'Int'), lo)), ge0(sub(hi, app(name, a, 'Int')))]
    RAND[name] = ((), lo, hi, 'Int')
    ex.distinct.add(name)
    rid = ex.new_region('vector', n, 'Int')
    i = fresh('x', n)
    ex.write(rid, (i,), app(name, [i], 'Int'), vs=[(i, n)])
    return ex.new_obj(E.SymSeq(et, rid, n))
def set_loop(ex, s, env):
    """while (cond on the size of a set) insert: the size is the only loop-carried state"""
    E = X()
    pre = ex.st
    sets = [o for o in pre.o if isinstance(pre.o[o], E.SetO)]
    if not sets: return None
    def once(st, quiet):
        ex.st = st
        if quiet: ex.quiet += 1
        ex.loop_depth += 1
        base = list(PROV.base)
        try:
            c = ex.cond(s['c'], env)
            with PROV.under(c): outs = ex.stmt(s['body'], E.dict_env(env))
        finally:
            if quiet: ex.quiet -= 1
            ex.loop_depth -= 1
        if len(outs) != 1 or outs[0][2][0] not in (E.NORMAL, E.CONT): raise Unsupported('branching in a loop over a set')
        return c, outs[0][1]
    base = list(PROV.base)
    c, post = once(pre.clone(), True)
    PROV.base = base
    ch = [o for o in sets if post.o[o] is not pre.o[o]]
    if not ch:
        ex.st = pre
        return None
    if len(ch) > 1: raise Unsupported('loop over several sets')
    oid = ch[0]
    size0, lo0, hi0 = pre.o[oid].info or (ZERO, None, None)
    m, lo, hi = post.o[oid].info
    if lo0 is not None and (lo0 is not lo or hi0 is not hi): raise Unsupported('set elements of different ranges')
    def havoc():
        st = pre.clone()
        z = fresh('size')
        PROV.assume(and_(ge0(sub(z, size0)), ge0(sub(add(sub(hi, lo), ONE), z))))
        st.o[oid] = E.SetO((z, lo, hi))
        return z, st
    base = list(PROV.base)
    z, st = havoc()
    mid = st.clone()
    c, post = once(st, False)
    PROV.base = base
    for x in pre.c:
        if post.c.get(x) is not mid.c[x]: raise Unsupported('loop over a set changes other variables')
    for x in pre.o:
        if x != oid and post.o.get(x) is not mid.o[x]: raise Unsupported('loop over a set changes other objects')
    for x in pre.r:
        if post.r[x] is not mid.r[x] and post.r[x] != mid.r[x]: raise Unsupported('loop over a set writes memory')
    _, l2, h2 = post.o[oid].info
    z, st = havoc()
    ex.st = st
    ex.quiet += 1
    try: c = ex.cond(s['c'], env)
    finally: ex.quiet -= 1
    end = None
    from .spec import solve_var
    d = c.args[0] if c.op == 'ge0' else None
    if c.op == 'not' and c.args[0].op == 'eq0':
        x = c.args[0].args[0]
        k = poly_of(x).get(((z, 1),))
        if k in (1, -1): end = scale(sub(scale(z, k), x), k) if k == 1 else add(x, z)
    elif d is not None and poly_of(d).get(((z, 1),)) == -1: end = add(add(d, z), ONE)
    if end is None or z in end.fv: raise Unsupported('exit condition of a loop over a set: %s' % (c,))
    PROV.base = base
    ex.oblige('termination', and_(ge0(sub(end, size0)), ge0(sub(add(sub(hi, lo), ONE), end))), 'the loop can reach the number of distinct values it waits for')
    st.o[oid] = E.SetO((end, lo, hi))
    ex.st = st
    return ex.one()
