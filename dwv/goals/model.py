"""C22 (state files), C23 (configuration files)."""
from .layers import *
from .tensor import T_, refused
from .train import sym_map, fill_family
from .build import names, fkey
from . import goal
from ..prove import APPFACTS
from .. import files as FM
from ..files import FS, str_len

class StateMap:
    """n tensors of any rank and extents under distinct names; contents w(k, i)"""
    def __init__(self, h, n, w, name='pname', rank='rank', dim='dim'):
        self.h, self.n, self.w, self.rk, self.dm = h, n, w, rank, dim
        ex = h.ex
        for f in (dim, rank): APPFACTS[f] = (lambda f: lambda *a: [ge0(sub(app(f, a, 'Int'), ONE))])(f)
        h.gens[dim] = lambda rng, *a: rng.choice([1, 1, 2, 2, 3])
        h.gens[rank] = lambda rng, *a: rng.choice([1, 1, 2])
        self.shapes = ex.new_region('shapes', None, 'Int', arity=2)
        k = fresh('k', n); d = fresh('d', self.rank(k))
        ex.write(self.shapes, (k, d), app(dim, [k, d], 'Int'), vs=[(k, n), (d, self.rank(k))])
        self.map = sym_map(h, n, self.entry, name)
    def rank(self, k): return app(self.rk, [k], 'Int')
    def dim(self, k, s): return app(self.dm, [k, s], 'Int')
    def total(self, k):
        s = fresh('s', self.rank(k))
        return mk_prod(s, self.rank(k), self.dim(k, s))
    def entry(self, k):
        h, ex = self.h, self.h.ex
        t = T_(h, [ex.new_obj(X.SymSeq('int', self.shapes, self.rank(k), (k,)))])
        fill_family(h, t, self.w, k, None)
        return t
    def at(self, k): return self.h.ex.obj(self.h.ex.elem(self.map, k)).f['second']
    def read(self, k, i): return self.h.at(self.at(k), i)
def save_state(h, m, path): return h.call('deepworks::save_state', [m, X.Str(path)], pred=lambda f: 'string' in f['pt'][1])
def load_state(h, m, path): return h.call('deepworks::load_state', [m, X.Str(path)], pred=lambda f: 'string' in f['pt'][1])

def roundtrip(h):
    n = h.dim('n', 0)
    fs = FS(h)
    def run():
        fs.reset()
        A, B = StateMap(h, n, 'w'), StateMap(h, n, 'old')
        save_state(h, A.map, 'f')
        load_state(h, B.map, 'f')
        k = fresh('k', n); i = fresh('i', A.total(k))
        h.post_eq('every element is restored', B.read(k, i), app('w', [k, i]))
        h.post_eq('saving leaves the state as it was', A.read(k, i), app('w', [k, i]))
    h.run(run)
goal('C22', 'round trip')(roundtrip)

def foreign(h):
    """any state file, possibly cut short, loaded into any state: accepted only when names and shapes agree and nothing is missing"""
    n1, n2 = h.dim('n1', 0), h.dim('n2', 0)
    fs = FS(h, cut=True, openable=False)
    ex = h.ex
    kind = var('kind')
    h.gens['found'] = lambda rng, *a: rng.choice([0, 1])
    found = lambda k: gt(app('found', [k], 'Int'), ZERO)
    APPFACTS['found'] = lambda *a: [or_(not_(gt(app('found', a, 'Int'), ZERO)), gt(n2, a[0]))]
    APPFACTS['frank'] = lambda *a: [ge0(app('frank', a, 'Int'))]
    def run():
        fs.reset()
        B = StateMap(h, n2, 'old')
        m = ex.obj(B.map)
        m.extra.lookup = lambda k: (found(k.args[1]), k.args[1]) if isinstance(k, T) and k.op == 'app' and k.args[0] == 'fname' else None
        k = fresh('k', n1); x = fresh('x'); r = app('frank', [k], 'Int')
        nm = app('fname', [k], 'Int'); s = fresh('s', r)
        cnt = mk_prod(s, r, app('fdim', [k, s], 'Int'))
        fs.put('f', [('v', 4, kind), ('v', 8, n1), ('for', k, n1, (
            ('v', 8, str_len(nm)), ('t', nm), ('v', 8, r), ('a', 4, r, x, app('fdim', [k, x], 'Int')), ('a', 4, cnt, x, app('fw', [k, x]))))])
        load_state(h, B.map, 'f')
        h.post('a file that cannot be opened is refused', and_(*[o for _, _, o in fs.opened]))
        h.post('a file of another kind is refused', eq0(kind))
        h.post('a file with another number of entries is refused', eq(n1, n2))
        j = fresh('j', n1)
        with PROV.under(*ex.survived_at(j)):
            h.post('a file with an unknown name is refused', found(j))
            h.post('a file with a shape of another rank is refused', eq(app('frank', [j], 'Int'), B.rank(j)))
            d = fresh('d', B.rank(j))
            h.post('a file with another shape is refused', shape_fact(ex, B, j, d))
            for c, its in fs.cuts:
                h.post('a file that ends early is refused', not_(subst(c, {its[0]: j}) if its else c))
            i = fresh('i', B.total(j))
            h.post_eq('every element is restored', B.read(j, i), app('fw', [j, i]))
    ex.may_throw = True
    h.run(run, expect_throw=True)
    h.post('some file is accepted', mk_bool(any(r[0] == 'ok' for r in h.results)))
def shape_fact(ex, B, j, d):
    """extents of entry j agree, by a vector equality known of every completed iteration"""
    fs = PROV.base + PROV.path
    for key, (oa, ob, st) in ex.seqeqs.items():
        for tt in key.fv:
            kk = subst(key, {tt: j})
            if kk not in fs: continue
            e = fresh('d', B.rank(tt))
            with PROV.under(eq(app('frank', [tt], 'Int'), B.rank(tt))): sb = lambda o: subst(ex.read(o.rid, o.pre + (e,), st[o.rid]), {tt: j, e: d})
            a, b = sb(oa), sb(ob)
            want = {B.dim(j, d), app('fdim', [j, d], 'Int')}
            if {a, b} == want: return TRUE
    return FALSE
goal('C22', 'any file into any state')(foreign)

def unopenable(h):
    n = h.dim('n', 0)
    fs = FS(h, openable=False)
    def run():
        fs.reset()
        A = StateMap(h, n, 'w')
        save_state(h, A.map, 'f')
        h.post('a path that cannot be written is reported', and_(*[o for _, _, o in fs.opened]))
        h.post('the file is opened', mk_bool(len(fs.opened) == 1))
    h.run(run, expect_throw=True)
goal('C22', 'unwritable path')(unopenable)

# ------------------------------------------------------------------ C23: attributes
KINDS = {'an int': ('int', False), 'a float': ('float', False), 'a pair of ints': ('int', True), 'a pair of floats': ('float', True)}
def attribute(h, et, pair, vals):
    """Attribute(value) built by its constructor"""
    ex = h.ex
    want = ('std::array<%s, 2>' % et) if pair else et
    def is_(f):
        p = f['pt'][0].replace('&', '').replace('const', '').strip()
        return p == want or p == want.replace(', 2', ', 2UL')
    c = [f for f in h.prog.by_q.get('deepworks::Attribute::Attribute', []) if f.get('body') is not None and len(f['params']) == 1 and is_(f)]
    if not c: raise Unsupported('Attribute constructor of ' + want)
    loc = ex.alloc_rec(ex.record_of('deepworks::Attribute'))
    v = ex.new_obj(X.Seq(et, list(vals), True)) if pair else ('v', vals[0])
    ex.call_fn(c[0], [v], loc)
    return loc
def stream(h, mode, path='f'):
    from .. import files as FM
    return FM.stream_ctor(mode)(h.ex, None, None, [('v', X.Str(path))])
def same_attr(h, what, a, et, pair, vals):
    ex = h.ex
    ref = ex.obj(attribute(h, et, pair, vals))
    o = ex.obj(a)
    for f in ('m_type', 'm_shape'): h.post_eq('%s: kind of the value' % what, o.f[f], ref.f[f])
    got = ex.obj(o.f['m_value']); exp = ex.obj(ref.f['m_value'])
    h.post('%s: type of the value' % what, mk_bool(got.f['t'].s == exp.f['t'].s))
    if pair:
        l = ex.rvalue(got.f['v'])
        h.post_eq('%s: two values' % what, ex.seq_len(ex.obj(l)), num(2))
        for i, v in enumerate(vals): h.post_eq('%s: value' % what, ex.load(ex.elem(l, num(i))), v)
    else: h.post_eq('%s: value' % what, ex.rvalue(got.f['v']), vals[0])
def attr_round(h, et, pair):
    fs = FS(h)
    sort = 'Int' if et == 'int' else 'Real'
    vals = [var('u', sort), var('v', sort)][:2 if pair else 1]
    def run():
        fs.reset()
        h.call('write_attribute', [attribute(h, et, pair, vals), stream(h, 'out')])
        a = h.call('read_attribute', [stream(h, 'in')])
        same_attr(h, 'read back', a, et, pair, vals)
    h.run(run)
for _w, (_et, _p) in KINDS.items(): goal('C23', 'attribute holding %s' % _w)(lambda h, et=_et, p=_p: attr_round(h, et, p))
def attr_any(h):
    """any attribute record, possibly cut short"""
    fs = FS(h, cut=True)
    ex = h.ex
    s, t, cnt = var('shape'), var('type'), h.dim('count', 0)
    def run():
        fs.reset()
        known = None
        for sv, pair in ((0, False), (1, True)):
            for tv, et in ((1, 'int'), (2, 'float')):
                if known is None and ex.branch(and_(eq(s, num(sv)), eq(t, num(tv)))): known = (et, pair)
        segs = [('v', 4, s), ('v', 4, t)]
        if known:
            et, pair = known
            sort = 'Int' if et == 'int' else 'Real'
            vals = [var('u' + et[0], sort), var('v' + et[0], sort)][:2 if pair else 1]
            x = fresh('x')
            segs += [('v', 8, cnt), ('a', 4, cnt, x, ite(eq0(x), vals[0], vals[1]))] if pair else [('v', 4, vals[0])]
        fs.put('f', segs)
        a = h.call('read_attribute', [stream(h, 'in')])
        h.post('an attribute of an unknown kind is refused', mk_bool(known is not None))
        for c, _ in fs.cuts: h.post('a file that ends early is refused', not_(c))
        if known:
            if pair: h.post('a pair of another length is refused', eq(cnt, num(2)))
            same_attr(h, 'read', a, et, pair, vals)
    h.run(run, expect_throw=True)
    h.post('some attribute is accepted', mk_bool(any(r[0] == 'ok' for r in h.results)))
goal('C23', 'any attribute record')(attr_any)

# contracts of the attribute functions, for their callers (what the goals above discharge)
def attr_contracts(h, name='attr'):
    """write_attribute appends the record of the attribute, read_attribute returns what the record holds;
    the attribute itself is opaque: Attribute{id}"""
    ex = h.ex
    rec = 'deepworks::Attribute'
    def w(ex, f, a, this):
        o = ex.obj(ex.rvalue(a[0]))
        loc, fo = FM.fobj(ex, a[1])
        ex.st.o[loc[1]] = fo.with_(segs=fo.segs + (('x', 'attribute', (o.f['m_value'],)),))
    def r(ex, f, a, this):
        loc, fo = FM.fobj(ex, a[0])
        s = FM.take(ex, loc, fo)
        if s[0] != 'x' or s[1] != 'attribute': raise Unsupported('the file holds %s where an attribute is read' % (s,))
        FM.taken(ex, loc)
        return opaque_attr(ex, s[2][0])
    ex.contracts['write_attribute'] = w
    ex.contracts['read_attribute'] = r
def opaque_attr(ex, v): return ex.new_obj(X.Rec('deepworks::Attribute', {'m_type': ZERO, 'm_shape': ZERO, 'm_value': v}))
def attr_map(h, n, key='aname', val='attr'):
    return sym_map(h, n, lambda k: opaque_attr(h.ex, app(val, [k], 'Int')), key)
def attrs_round(h):
    n = h.dim('n', 0)
    fs = FS(h)
    def run():
        fs.reset()
        ex = h.ex
        attr_contracts(h)
        h.call('write_attributes', [attr_map(h, n), stream(h, 'out')])
        m = h.call('read_attributes', [stream(h, 'in')])
        h.post_eq('as many attributes', ex.seq_len(ex.obj(m)), n)
        k = fresh('k', n)
        h.post_eq('each under its name, with its value', named(ex, m, app('aname', [k], 'Int'), 'm_value'), app('attr', [k], 'Int'))
    h.run(run)
def named(ex, m, key, field):
    o = ex.obj(m)
    i = o.extra.index(key)
    if i is None: return app('missing', [ZERO], 'Int')
    return ex.obj(o.extra.at(i)).f[field]
goal('C23', 'attributes of a layer, any number')(attrs_round)

# ------------------------------------------------------------------ C23: configurations
MAPREC = 'opaque attributes'
def attrs_contracts(h):
    """write_attributes appends the records of a map, read_attributes returns the map they describe"""
    ex = h.ex
    def w(ex, f, a, this):
        o = ex.obj(ex.rvalue(a[0]))
        if not (isinstance(o, X.Rec) and o.cls == MAPREC): raise Unsupported('attributes written are not those of the configuration')
        loc, fo = FM.fobj(ex, a[1])
        ex.st.o[loc[1]] = fo.with_(segs=fo.segs + (('x', 'attributes', (o.f['v'],)),))
    def r(ex, f, a, this):
        loc, fo = FM.fobj(ex, a[0])
        s = FM.take(ex, loc, fo)
        if s[0] != 'x' or s[1] != 'attributes': raise Unsupported('the file holds %s where attributes are read' % (s,))
        FM.taken(ex, loc)
        return opaque_attrs(ex, s[2][0])
    ex.contracts['write_attributes'] = w
    ex.contracts['read_attributes'] = r
def opaque_attrs(ex, v): return ex.new_obj(X.Rec(MAPREC, {'v': v}))
class Cfg:
    """a model configuration: any number of ids, placeholders (any rank and extents) and operations"""
    def __init__(self, h):
        self.h = h
        self.nin, self.nout, self.nph, self.nop = (h.dim(x, 0) for x in ('nin', 'nout', 'nph', 'nop'))
        for f in ('prank', 'pdim', 'oin', 'oout'): APPFACTS[f] = (lambda f: lambda *a: [ge0(app(f, a, 'Int'))])(f)
    def ints(self, name, n, *pre):
        """a vector of n ints name(pre.., i)"""
        ex = self.h.ex
        rid = ex.new_region(name, None, 'Int', arity=1)
        x = fresh('x', n)
        ex.write(rid, (x,), app(name, list(pre) + [x], 'Int'), vs=[(x, n)])
        return ex.new_obj(X.SymSeq('int', rid, n))
    def ph(self, k):
        return self.h.ex.new_obj(X.Rec('deepworks::Model::Config::PlaceholderInfo', {'shape': self.ints('pdim', app('prank', [k], 'Int'), k), 'id': app('phid', [k], 'Int')}))
    def op(self, k):
        return self.h.ex.new_obj(X.Rec('deepworks::Model::Config::OperationInfo', {'name': app('oname', [k], 'Int'), 'type': app('otype', [k], 'Int'),
            'attrs': opaque_attrs(self.h.ex, app('attrs', [k], 'Int')), 'in_ids': self.ints('inid', app('oin', [k], 'Int'), k), 'out_ids': self.ints('outid', app('oout', [k], 'Int'), k)}))
    def create(self):
        h, ex = self.h, self.h.ex
        ops = X.FamSeq('ops', self.nop, lambda ex, k: self.op(k))
        return ex.new_obj(X.Rec('deepworks::Model::Config', {'input_ids': self.ints('inp', self.nin), 'output_ids': self.ints('outp', self.nout),
            'ph_map': sym_map(h, self.nph, self.ph, 'phid'), 'sorted_ops': ex.new_obj(ops)}))
    def post_ints(self, what, v, name, n, *pre):
        h, ex = self.h, self.h.ex
        v = ex.rvalue(v); o = ex.obj(v)
        h.post_eq('%s: count' % what, ex.seq_len(o), n)
        x = fresh('x', n)
        with PROV.under(eq(ex.seq_len(o), n)): h.post_eq(what, ex.load(ex.elem(v, x)), app(name, list(pre) + [x], 'Int'))
    def post(self, what, c):
        h, ex = self.h, self.h.ex
        o = ex.obj(c)
        self.post_ints('%s: input ids' % what, o.f['input_ids'], 'inp', self.nin)
        self.post_ints('%s: output ids' % what, o.f['output_ids'], 'outp', self.nout)
        m = ex.obj(o.f['ph_map'])
        h.post_eq('%s: number of placeholders' % what, ex.seq_len(m), self.nph)
        k = fresh('k', self.nph)
        i = m.extra.index(app('phid', [k], 'Int')) if isinstance(m, X.FamMap) else None
        h.post('%s: every placeholder id is there' % what, mk_bool(i is not None))
        if i is not None:
            p = ex.obj(m.extra.at(i))
            h.post_eq('%s: placeholder id' % what, p.f['id'], app('phid', [k], 'Int'))
            self.post_ints('%s: placeholder shape' % what, p.f['shape'], 'pdim', app('prank', [k], 'Int'), k)
        so = ex.rvalue(o.f['sorted_ops'])
        h.post_eq('%s: number of operations' % what, ex.seq_len(ex.obj(so)), self.nop)
        k = fresh('k', self.nop)
        p = ex.obj(ex.elem(so, k))
        for f, n in (('name', 'oname'), ('type', 'otype')): h.post_eq('%s: operation %s' % (what, f), p.f[f], app(n, [k], 'Int'))
        for f, n, c_ in (('in_ids', 'inid', 'oin'), ('out_ids', 'outid', 'oout')): self.post_ints('%s: operation %s' % (what, f), p.f[f], n, app(c_, [k], 'Int'), k)
        h.post_eq('%s: attributes of the operation' % what, ex.obj(p.f['attrs']).f.get('v', ZERO), app('attrs', [k], 'Int'))
def save_cfg(h, c, path): return h.call('deepworks::save_cfg', [c, X.Str(path)], pred=lambda f: 'string' in f['pt'][1])
def load_cfg(h, path): return h.call('deepworks::load_cfg', [X.Str(path)], pred=lambda f: 'string' in f['pt'][0])
def cfg_round(h):
    C = Cfg(h)
    fs = FS(h)
    def run():
        fs.reset()
        attrs_contracts(h)
        save_cfg(h, C.create(), 'f')
        C.post('read back', load_cfg(h, 'f'))
    h.run(run)
goal('C23', 'configuration, any number of placeholders and operations')(cfg_round)
def cut_posts(h, fs):
    ex = h.ex
    for c, its in fs.cuts:
        m = {}
        facts = []
        for tt in its:
            n = next((n for t2, n, _ in ex.survived if t2 is tt), None)
            if n is None: continue
            j = fresh('j', n); m[tt] = j
            facts += [subst(f, {tt: j}) for t2, _, fs_ in ex.survived if t2 is tt for f in fs_]
        with PROV.under(*facts): h.post('a file that ends early is refused', not_(subst(c, m)))
def any_file(h, write, read, post, kind=True):
    """the file `write` makes, of any kind, possibly cut short anywhere or impossible to open"""
    fs = FS(h)
    ex = h.ex
    k = var('kind')
    def run():
        fs.reset(); fs.cut, fs.openable = False, True
        write()
        p = next(iter(fs.written))
        segs = ex.obj(fs.written[p]).segs
        good = segs[0][2]
        fs.reset(); fs.cut, fs.openable = True, False
        fs.put(p, ((('v', segs[0][1], k),) if kind else (segs[0],)) + tuple(segs[1:]))
        ex.may_throw = True
        try: r = read()
        finally: ex.may_throw = False
        h.post('a file that cannot be opened is refused', and_(*[o for _, _, o in fs.opened]))
        if kind: h.post('a file of another kind is refused', eq(k, good))
        cut_posts(h, fs)
        post(r)
    h.run(run, expect_throw=True)
    h.post('some file is accepted', mk_bool(any(r[0] == 'ok' for r in h.results)))
def cfg_any(h):
    C = Cfg(h)
    attrs_contracts(h)
    any_file(h, lambda: save_cfg(h, C.create(), 'f'), lambda: load_cfg(h, 'f'), lambda c: C.post('read', c))
goal('C23', 'configuration file of any kind, cut short or missing')(cfg_any)
def attrs_any(h):
    n = h.dim('n', 0)
    ex = h.ex
    attr_contracts(h)
    def post(m):
        h.post_eq('as many attributes', ex.seq_len(ex.obj(m)), n)
        k = fresh('k', n)
        h.post_eq('each under its name, with its value', named(ex, m, app('aname', [k], 'Int'), 'm_value'), app('attr', [k], 'Int'))
    any_file(h, lambda: h.call('write_attributes', [attr_map(h, n), stream(h, 'out')]), lambda: h.call('read_attributes', [stream(h, 'in')]), post, False)
goal('C23', 'attributes cut short or missing')(attrs_any)
def cfg_unopenable(h):
    C = Cfg(h)
    fs = FS(h, openable=False)
    attrs_contracts(h)
    def run():
        fs.reset()
        save_cfg(h, C.create(), 'f')
        h.post('a path that cannot be written is reported', and_(*[o for _, _, o in fs.opened]))
        h.post('the file is opened', mk_bool(len(fs.opened) == 1))
    h.run(run, expect_throw=True)
goal('C23', 'unwritable path')(cfg_unopenable)

# ------------------------------------------------------------------ C24: running a model
LAYER = 'harness::Layer'
class Net:
    """a model over a concrete wiring; extents [B, F] are symbolic, layers are abstract.
    spec: list of (name, op class, arg count kind, [inputs]); tensors are named; 'x','y',.. are inputs"""
    def __init__(self, h, ins, spec, outs, order=0, B=None, F=None):
        self.h, self.ins, self.spec, self.outs = h, ins, spec, outs
        self.order = order
        self.on_backward = None
        self.B, self.F = B, F
    def make_op(self, cls, name):
        h, ex = self.h, self.h.ex
        rec = ex.record_of('deepworks::' + cls)
        loc = ex.alloc_rec(rec)
        a = lambda x: var('%s of %s' % (x, name), 'Real')
        args = {'Linear': [self.F], 'LeakyReLU': [a('alpha')], 'ELU': [a('alpha')], 'BatchNorm1D': [a('eps'), a('alpha')], 'Dropout': [a('p')]}.get(cls, [])
        ex.call_fn(h.fn('deepworks::%s::%s' % (cls, cls), len(args) + 1), args + [X.Str(name)], loc)
        return loc
    def build(self):
        h, ex = self.h, self.h.ex
        rnd = [self.order]
        def pick(ready):
            if not rnd[0]: return 0
            rnd[0] = (rnd[0] * 1103515245 + 12345) & 0xffffffff
            return (rnd[0] >> 8) % len(ready)
        ex.ade_order = pick
        self.ph = {x: h.placeholder([self.B, self.F]) for x in self.ins}
        for name, cls, out, srcs in self.spec:
            self.ph[out] = h.apply_op(self.make_op(cls, name), [self.ph[s] for s in srcs])
        v = lambda ns: ex.new_obj(X.Seq('deepworks::Placeholder', [ex.copy_obj(self.ph[n]) for n in ns]))
        self.model = ex.alloc_rec(ex.record_of('deepworks::Model'))
        ctor = h.fn('deepworks::Model::Model', 2, lambda f: 'vector' in f['pt'][0])
        ex.call_fn(ctor, [v(self.ins), v(self.outs)], self.model)
        return self.model
    # ---- execution with abstract layers
    def contracts(self):
        h, ex = self.h, self.h.ex
        self.trace = []
        c = ex.contracts
        def create(ex, f, a, this):
            l = ex.new_obj(X.Rec(LAYER, {'info': ex.rvalue(a[0])}))
            return X.PObj(l)
        def rec(kind, outs):
            def g(ex, f, a, this):
                ts = [[x for x in ex.obj(ex.rvalue(v)).items] for v in a]
                info = ex.obj(this).f['info']
                name = ex.rvalue(h.fld_impl(info, 'name')) if False else ex.rvalue(h.method(info, 'name', []))
                self.trace.append((kind, name.s, [[self.storage(t) for t in v] for v in ts], [[h.shape(t) for t in v] for v in ts]))
                if kind == 'backward' and self.on_backward: self.on_backward(ts[2] + ts[3])
                for k in outs:
                    for j, t in enumerate(ts[k]): h.havoc(t, '%s_%s_%d_%d' % (kind, name.s, len(self.trace), j))
            return g
        c['deepworks::cpu::ICPULayer::create'] = create
        c['deepworks::cpu::ICPULayer::forward'] = rec('forward', [1])
        c['deepworks::cpu::ICPULayer::updateGradients'] = rec('updateGradients', [])
        c['deepworks::cpu::ICPULayer::backward'] = rec('backward', [3])
    def storage(self, t):
        p = self.h.data(t)
        return (p.rid, p.off) if isinstance(p, X.Ptr) else None
    def tensors(self, names, pre):
        h = self.h
        return {n: h.tensor([self.B, self.F], pre + n) for n in names}
def vec_of(h, d, names): return h.ex.new_obj(X.Seq('deepworks::Tensor', [h.ex.copy_obj(d[n]) for n in names]))


# name: inputs, layers (name, op, output, inputs), outputs; every tensor is [B, F]
NETS = {
    'one layer': (['x'], [('l1', 'ReLU', 'a', ['x'])], ['a']),
    'a chain': (['x'], [('l1', 'Linear', 'a', ['x']), ('r1', 'ReLU', 'b', ['a']), ('n1', 'BatchNorm1D', 'c', ['b']), ('d1', 'Dropout', 'd', ['c']), ('l2', 'Linear', 'e', ['d'])], ['e']),
    'a tensor consumed twice': (['x'], [('l1', 'Linear', 'a', ['x']), ('r1', 'ReLU', 'b', ['a']), ('l2', 'Linear', 'c', ['b']), ('s1', 'Add', 'd', ['c', 'b'])], ['d']),
    'the second operand computed from the first': (['x'], [('r1', 'ReLU', 'a', ['x']), ('s1', 'Add', 'b', ['x', 'a'])], ['b']),
    'the first operand computed from the second': (['x'], [('r1', 'ReLU', 'a', ['x']), ('s1', 'Add', 'b', ['a', 'x']), ('r2', 'ReLU', 'c', ['b'])], ['c']),
    'one tensor given twice': (['x'], [('l1', 'Linear', 'a', ['x']), ('s1', 'Add', 'b', ['a', 'a'])], ['b']),
    'two inputs and two outputs': (['x', 'y'], [('l1', 'Linear', 'a', ['x']), ('l2', 'Linear', 'b', ['y']), ('s1', 'Add', 'c', ['a', 'b']), ('r1', 'ELU', 'o1', ['c']), ('g1', 'Sigmoid', 'o2', ['c'])], ['o1', 'o2']),
    'outputs and inputs listed in another order': (['y', 'x'], [('l1', 'Linear', 'a', ['x']), ('l2', 'Linear', 'b', ['y']), ('s1', 'Add', 'c', ['b', 'a']), ('r1', 'LeakyReLU', 'o1', ['c']), ('g1', 'Sigmoid', 'o2', ['a'])], ['o2', 'o1']),
    'an output used by another layer': (['x'], [('l1', 'Linear', 'a', ['x']), ('r1', 'ReLU', 'b', ['a'])], ['a', 'b']),
    'a diamond': (['x'], [('r0', 'ReLU', 'a', ['x']), ('l1', 'Linear', 'b', ['a']), ('l2', 'Linear', 'c', ['a']), ('s1', 'Add', 'd', ['b', 'c']), ('s2', 'Add', 'e', ['d', 'a'])], ['e']),
}
ORDERS = (0, 1, 5, 77)
def wiring_goal(f):
    for name in NETS:
        goal('C24', '%s: %s' % (f.__doc__, name))(lambda h, name=name: each_order(h, name, f))
def each_order(h, name, f):
    h.bounded.append('wiring: %s; topological orders: seeds %s of the sort' % (name, ', '.join(map(str, ORDERS))))
    B, F = h.dim('B'), h.dim('F')
    ins, spec, outs = NETS[name]
    for o in ORDERS:
        N = Net(h, ins, spec, outs, o, B, F)
        def run():
            N.contracts()
            N.build()
            f(h, N)
        h.run(run)
def dims(N): return [N.B, N.F]
def run_forward(h, N, ins, outs):
    del N.trace[:]
    h.call('deepworks::Model::forward', [vec_of(h, ins, N.ins), vec_of(h, outs, N.outs)], N.model, pred=lambda f: 'vector' in f['pt'][0])
    return list(N.trace)
def run_backward(h, N, ins, outs, grads):
    del N.trace[:]
    h.call('deepworks::Model::backward', [vec_of(h, ins, N.ins), vec_of(h, outs, N.outs), vec_of(h, grads, N.outs)], N.model, pred=lambda f: 'vector' in f['pt'][0])
    return list(N.trace)
def compile_(h, N): h.call('deepworks::Model::compile', [], N.model)
def check_forward(h, N, tr, ins, outs):
    """each layer once, after its producers, reading what they wrote (or the input given), writing the output given or a tensor of its own; returns name -> storage"""
    order = [t[1] for t in tr]
    h.post('forward runs every layer exactly once', mk_bool(sorted(order) == sorted(s[0] for s in N.spec) and all(t[0] == 'forward' for t in tr)))
    where = {n: N.storage(ins[n]) for n in N.ins}
    given = {n: N.storage(outs[n]) for n in N.outs}
    spec = {s[0]: s for s in N.spec}
    for kind, name, st, sh in tr:
        _, _, out, srcs = spec[name]
        h.post('%s runs after the layers it depends on' % name, mk_bool(all(s in where for s in srcs)))
        h.post('%s reads exactly its inputs, in order' % name, mk_bool(st[0] == [where.get(s) for s in srcs]))
        h.post('%s has one output' % name, mk_bool(len(st[1]) == 1 and st[1][0] is not None))
        h.post('%s writes no tensor another layer or the caller uses' % name, mk_bool(st[1][0] not in where.values() and all(st[1][0] != g for n, g in given.items() if n != out)))
        if out in given: h.post('%s writes the output the caller gave' % name, mk_bool(st[1][0] == given[out]))
        h.post_shape_items('%s writes a tensor of the shape of its output' % name, sh[1][0], dims(N))
        where[out] = st[1][0]
    return where
def forward_goal(h, N):
    """forward"""
    compile_(h, N)
    ins, outs = N.tensors(N.ins, 'in_'), N.tensors(N.outs, 'out_')
    check_forward(h, N, run_forward(h, N, ins, outs), ins, outs)
    ins, outs = N.tensors(N.ins, 'in2_'), N.tensors(N.outs, 'out2_')
    check_forward(h, N, run_forward(h, N, ins, outs), ins, outs)
wiring_goal(forward_goal)
def backward_goal(h, N):
    """backward"""
    compile_(h, N)
    old = []
    for rnd in ('', '2'):
        ins, outs, grads = N.tensors(N.ins, 'in%s_' % rnd), N.tensors(N.outs, 'out%s_' % rnd), N.tensors(N.outs, 'grad%s_' % rnd)
        fw = run_forward(h, N, ins, outs)
        where = check_forward(h, N, fw, ins, outs)
        ins, outs = N.tensors(N.ins, 'bin%s_' % rnd), N.tensors(N.outs, 'bout%s_' % rnd)
        where.update({n: N.storage(t) for n, t in list(ins.items()) + list(outs.items())})
        snap = h.frame([('the output gradient', grads[n]) for n in N.outs if not any(n in x[3] for x in N.spec)] + [('the output', outs[n]) for n in N.outs] + [('the input', ins[n]) for n in N.ins])
        seen = {}
        def first(t):
            """contents of a gradient before any layer touched it"""
            k = N.storage(t)
            if k in seen: return
            seen[k] = True
            if k in [N.storage(grads[n]) for n in N.outs]: return
            i = fresh('i', h.total(t))
            h.post_eq('a gradient starts from zero%s' % (' on the second backward' if rnd else ''), h.at(t, i), ZERO)
        N.on_backward = lambda ts: [first(t) for t in ts]
        tr = run_backward(h, N, ins, outs, grads)
        N.on_backward = None
        order = [t[1] for t in tr if t[0] == 'backward']
        h.post('backward runs every layer exactly once', mk_bool(sorted(order) == sorted(s[0] for s in N.spec)))
        up = [t[1] for t in tr if t[0] == 'updateGradients']
        h.post('the parameter gradients of every layer are computed exactly once', mk_bool(sorted(up) == sorted(s[0] for s in N.spec)))
        spec = {s[0]: s for s in N.spec}
        users = {}
        for n, _, out, srcs in N.spec:
            for s in srcs: users.setdefault(s, set()).add(n)
        gr = {n: N.storage(grads[n]) for n in N.outs}
        done = set()
        for kind, name, st, sh in tr:
            _, _, out, srcs = spec[name]
            what = '%s of %s' % (kind, name)
            h.post('%s comes after the layers that use its output' % what, mk_bool(users.get(out, set()) <= done))
            g = st[1] if kind == 'updateGradients' else st[2]
            h.post('%s reads its inputs as forward did' % what, mk_bool(st[0] == [where[s] for s in srcs]))
            if kind == 'backward': h.post('%s reads its output as forward wrote it' % what, mk_bool(st[1] == [where[out]]))
            h.post('%s reads one output gradient' % what, mk_bool(len(g) == 1))
            want = gr.get(out)
            h.post('%s takes the gradient its users produced, or the one given' % what, mk_bool(want is not None and g == [want]))
            if kind != 'backward': continue
            h.post('%s writes one gradient per input' % what, mk_bool(len(st[3]) == len(srcs)))
            for s, k, o in zip(srcs, st[3], sh[3]):
                if s in gr: h.post('%s adds to the gradient of an input that has other users' % what, mk_bool(gr[s] == k))
                else:
                    h.post('%s writes no tensor that holds something else' % what, mk_bool(k is not None and k not in where.values() and k not in gr.values()))
                    gr[s] = k
                h.post_shape_items('%s: the gradient has the shape of the input' % what, o, dims(N))
            done.add(name)
        h.post_frame('backward', snap + old)
        old = h.frame([('the gradient given before', grads[n]) for n in N.outs] + [('the output given before', outs[n]) for n in N.outs] + [('the input given before', ins[n]) for n in N.ins])
wiring_goal(backward_goal)

def all_wirings(n):
    """every wiring of n layers over one input, each with one or two operands among the tensors before it"""
    import itertools
    out = [[]]
    for k in range(n):
        ts = ['x'] + ['t%d' % j for j in range(k)]
        ops = [('u%d' % k, 'ReLU', 't%d' % k, [a]) for a in ts] + [('s%d' % k, 'Add', 't%d' % k, [a, b]) for a in ts for b in ts]
        out = [w + [o] for w in out for o in ops]
    return out
CHUNKS = 8
def reached(spec):
    """a wiring as the model sees it: outputs are the tensors nobody uses"""
    used = {s for x in spec for s in x[3]}
    return (['x'], spec, [x[2] for x in spec if x[2] not in used])
def every_wiring(h, f, chunk):
    ws = [w for n in (1, 2, 3) for w in all_wirings(n)][chunk::CHUNKS]
    h.bounded.append('every wiring of at most 3 layers with one or two operands over one input; 2 topological orders each')
    B, F = h.dim('B'), h.dim('F')
    for w in ws:
        ins, spec, outs = reached(w)
        for o in (0, 5):
            N = Net(h, ins, spec, outs, o, B, F)
            def run():
                N.contracts(); N.build()
                f(h, N)
            h.run(run)
for _c in range(CHUNKS):
    for _f in (forward_goal, backward_goal):
        goal('C24', '%s: every wiring of at most 3 layers (part %d)' % (_f.__doc__, _c + 1))(lambda h, f=_f, c=_c: every_wiring(h, f, c))

# ------------------------------------------------------------------ C24, C23: what a model is made of
def layer_params(cls): return {'Linear': ['weight', 'bias'], 'BatchNorm1D': ['gamma', 'beta'], 'Dropout': ['mask']}.get(cls, [])
def layer_buffers(cls): return {'BatchNorm1D': ['running_mean', 'running_var']}.get(cls, [])
def mget(h, m, key): return h.ex.natives.get('std::unordered_map::at')(h.ex, {}, {}, [m, key])
def structure(h, N, model, what='model', types=None):
    ex = h.ex
    names_ = [s[0] for s in N.spec]
    want_p = sorted('%s.%s' % (n, p) for n, c, _, _ in N.spec for p in layer_params(c))
    want_s = sorted(want_p + ['%s.%s' % (n, b) for n, c, _, _ in N.spec for b in layer_buffers(c)])
    ps, ss = h.method(model, 'params', []), h.call('deepworks::Model::state', [], model, pred=lambda f: not f.get('const'))
    h.post('%s: parameters are those of its layers, named layer.parameter' % what, mk_bool(names(h, ps) == want_p))
    h.post('%s: the state holds every parameter and buffer' % what, mk_bool(names(h, ss) == want_s))
    ls = ex.obj(h.call('deepworks::Model::layers', [], model, pred=lambda f: not f.get('const'))).items
    lname = lambda l: ex.rvalue(h.method(l, 'name', [])).s
    h.post('%s: one layer per operation' % what, mk_bool(sorted(lname(l) for l in ls) == sorted(names_)))
    pos = {lname(l): i for i, l in enumerate(ls)}
    prod_ = {s[2]: s[0] for s in N.spec}
    for n, c, out, srcs in N.spec:
        h.post('%s: layers are listed in dependency order' % what, mk_bool(all(pos.get(prod_[s], 99) < pos.get(n, -1) for s in srcs if s in prod_)))
        l = h.call('deepworks::Model::getLayer', [X.Str(n)], model)
        h.post('%s: layer %s has the type it was made with' % (what, n), mk_bool(ex.rvalue(h.method(l, 'type', [])).s == ('Linear' if c == 'Linear' else c)))
        lp, lb = h.method(l, 'params', []), h.method(l, 'buffers', [])
        h.post('%s: layer %s has its parameters' % (what, n), mk_bool(names(h, lp) == sorted(layer_params(c))))
        for p in layer_params(c):
            own = mget(h, lp, X.Str(p)); mine = mget(h, ps, X.Str('%s.%s' % (n, p))); st = mget(h, ss, X.Str('%s.%s' % (n, p)))
            d = [N.storage(h.method(own, 'data', [])), N.storage(h.method(mine, 'data', [])), N.storage(st)]
            h.post('%s: the layer, the parameter map and the state share one tensor' % what, mk_bool(d[0] is not None and d[0] == d[1] == d[2]))
            h.post('%s: they share one gradient' % what, mk_bool(N.storage(h.method(own, 'grad', [])) == N.storage(h.method(mine, 'grad', []))))
        for b in layer_buffers(c):
            h.post('%s: the layer and the state share the buffer' % what, mk_bool(N.storage(mget(h, lb, X.Str(b))) == N.storage(mget(h, ss, X.Str('%s.%s' % (n, b))))))
def structure_goal(h, N):
    """structure"""
    structure(h, N, N.model)
    ex = h.ex
    for what, q, want in (('inputs', 'inputs', N.ins), ('outputs', 'outputs', N.outs)):
        its = ex.obj(h.method(N.model, q, [])).items
        h.post('%s are those given, in order' % what, mk_bool([fkey(h, p, 'm_impl') for p in its] == [fkey(h, N.ph[n], 'm_impl') for n in want]))
    ex = h.ex
    for mode in (FALSE, TRUE):
        h.call('deepworks::Model::train', [('v', mode)], N.model)
        for n, c, _, _ in N.spec:
            for p in layer_params(c):
                par_ = mget(h, h.method(h.call('deepworks::Model::getLayer', [X.Str(n)], N.model), 'params', []), X.Str(p))
                h.post('the training mode reaches every parameter', eq(ex.truth(ex.rvalue(h.method(par_, 'is_trainable', []))), mode))
wiring_goal(structure_goal)
def config_goal(h, N):
    """configuration"""
    ex = h.ex
    c = ex.obj(h.method(N.model, 'cfg', []))
    ints = lambda l: [int(x.val) for x in ex.obj(ex.rvalue(l)).items]
    pm = ex.obj(c.f['ph_map'])
    ids = sorted(int(k.val) for k, _ in pm.items)
    reach = set(N.outs)
    for s in reversed(N.spec):
        if s[2] in reach: reach |= set(s[3])
    h.post('one placeholder record per tensor', mk_bool(len(ids) == len(reach) and len(set(ids)) == len(ids)))
    for k, l in pm.items:
        p = ex.obj(l)
        h.post_eq('a placeholder record carries its id', ex.rvalue(p.f['id']), k)
        h.post_shape_items('a placeholder record carries the shape', ex.obj(ex.rvalue(p.f['shape'])), dims(N))
    ops = ex.obj(c.f['sorted_ops']).items
    spec = {s[0]: s for s in N.spec}
    h.post('one record per operation', mk_bool(sorted(ex.rvalue(ex.obj(o).f['name']).s for o in ops) == sorted(spec)))
    ii, oi = ints(c.f['input_ids']), ints(c.f['output_ids'])
    h.post('input and output ids are listed in the order of the model', mk_bool(len(ii) == len(N.ins) and len(oi) == len(N.outs)))
    where = dict(zip(N.ins, ii))
    for o in ops:
        f = ex.obj(o).f
        n, cls, out, srcs = spec[ex.rvalue(f['name']).s]
        h.post('%s: type' % n, mk_bool(ex.rvalue(f['type']).s == cls))
        h.post('%s: reads what its inputs are known under, in order' % n, mk_bool(ints(f['in_ids']) == [where.get(s) for s in srcs]))
        oo = ints(f['out_ids'])
        h.post('%s: writes a tensor of its own' % n, mk_bool(len(oo) == 1 and oo[0] in ids and oo[0] not in where.values()))
        if oo: where[out] = oo[0]
        if cls == 'Linear': h.post_eq('%s: attribute units' % n, attr_int(h, f['attrs'], 'units'), N.F)
    h.post('output ids are those of the outputs', mk_bool(oi == [where.get(n) for n in N.outs]))
def attr_int(h, m, key):
    v = h.ex.obj(mget(h, m, X.Str(key))).f['m_value']
    return h.ex.rvalue(h.ex.obj(v).f['v'])
wiring_goal(config_goal)
def same_attrs(h, what, m1, m2):
    """the operations of both models carry the same attributes"""
    ex = h.ex
    def ops(m): return {ex.rvalue(ex.obj(o).f['name']).s: ex.obj(ex.rvalue(ex.obj(o).f['attrs'])) for o in ex.obj(ex.obj(h.method(m, 'cfg', [])).f['sorted_ops']).items}
    a, b = ops(m1), ops(m2)
    h.post('%s: operations' % what, mk_bool(sorted(a) == sorted(b)))
    for n in a:
        x, y = ({k.s: ex.obj(v) for k, v in o[n].items} for o in (a, b))
        h.post('%s: attributes of %s' % (what, n), mk_bool(sorted(x) == sorted(y)))
        for k in x:
            if k not in y: continue
            for f in ('m_type', 'm_shape'): h.post_eq('%s: kind of attribute %s of %s' % (what, k, n), y[k].f[f], x[k].f[f])
            u, v = ex.rvalue(ex.obj(x[k].f['m_value']).f['v']), ex.rvalue(ex.obj(y[k].f['m_value']).f['v'])
            if isinstance(u, T): h.post_eq('%s: attribute %s of %s' % (what, k, n), v, u)
            else:
                for i in range(2): h.post_eq('%s: attribute %s of %s' % (what, k, n), ex.load(ex.elem(v, num(i))), ex.load(ex.elem(u, num(i))))
def rebuild(h, name):
    h.bounded.append('wiring: %s' % name)
    B, F = h.dim('B'), h.dim('F')
    ins, spec, outs = NETS[name]
    for o in ORDERS:
        N = Net(h, ins, spec, outs, o, B, F)
        def run():
            N.contracts(); N.build()
            cfg = h.method(N.model, 'cfg', [])
            m2 = h.call('deepworks::Model::Build', [cfg])
            M = Net(h, ins, spec, outs, o, B, F)
            M.contracts()
            M.model = m2
            if not (isinstance(m2, tuple) and m2[0] == 'o'): M.model = h.ex.new_cell(m2)
            structure(h, M, M.model, 'rebuilt')
            same_attrs(h, 'rebuilt', N.model, M.model)
            s1, s2 = [h.call('deepworks::Model::state', [], m, pred=lambda f: not f.get('const')) for m in (N.model, M.model)]
            for key in names(h, s1):
                a, b = mget(h, s1, X.Str(key)), mget(h, s2, X.Str(key))
                h.post_tshape('rebuilt: %s has its shape' % key, b, h.extents(h.shape(a)))
                h.post('rebuilt: %s is a tensor of its own' % key, mk_bool(N.storage(a) != N.storage(b)))
            compile_(h, M)
            i, u = M.tensors(ins, 'in_'), M.tensors(outs, 'out_')
            check_forward(h, M, run_forward(h, M, i, u), i, u)
        h.run(run)
for _n in NETS: goal('C23', 'a model built from the configuration of: %s' % _n)(lambda h, n=_n: rebuild(h, n))
def small(h, spec, outs=None, ins=('x',)):
    return Net(h, list(ins), spec, outs or [spec[-1][2]], 0, h.dim('B'), h.dim('F'))
@goal('C24', 'two layers of one name are refused')
def dup(h):
    N = small(h, [('l', 'ReLU', 'a', ['x']), ('l', 'Sigmoid', 'b', ['a'])])
    refused(h, 'two layers of one name are refused', N.build)
@goal('C24', 'running before compile is refused')
def uncompiled(h):
    N = small(h, [('l', 'ReLU', 'a', ['x'])])
    def go():
        N.contracts(); N.build()
        run_forward(h, N, N.tensors(['x'], 'i'), N.tensors(['a'], 'o'))
    refused(h, 'forward before compile is refused', go)
    def go():
        N.contracts(); N.build()
        run_backward(h, N, N.tensors(['x'], 'i'), N.tensors(['a'], 'o'), N.tensors(['a'], 'g'))
    refused(h, 'backward before compile is refused', go)
@goal('C24', 'layers without a name get one of their own')
def unnamed(h):
    N = small(h, [('', 'ReLU', 'a', ['x']), ('mine', 'Linear', 'b', ['a']), ('', 'ReLU', 'c', ['b']), ('', 'BatchNorm1D', 'd', ['c'])])
    def run():
        N.contracts(); N.build()
        ls = h.ex.obj(h.call('deepworks::Model::layers', [], N.model, pred=lambda f: not f.get('const'))).items
        got = [h.ex.rvalue(h.method(l, 'name', [])).s for l in ls]
        h.post('every layer has a name of its own', mk_bool(len(set(got)) == 4 and all(got) and 'mine' in got))
        h.post('a generated name is the type in lower case and the position', mk_bool(got == ['relu0', 'mine', 'relu2', 'batchnorm1d3']))
    h.run(run)
def whole(h, name):
    """save(model), load(): the loaded model has the structure, shapes and state of the saved one"""
    h.bounded.append('wiring: %s' % name)
    B, F = h.dim('B'), h.dim('F')
    ins, spec, outs = NETS[name]
    fs = FS(h)
    for o in ORDERS:
        N = Net(h, ins, spec, outs, o, B, F)
        def run():
            fs.reset()
            N.contracts(); N.build()
            s1 = h.call('deepworks::Model::state', [], N.model, pred=lambda f: not f.get('const'))
            vals = {}
            for key in names(h, s1):
                h.havoc(mget(h, s1, X.Str(key)), 'saved ' + key)
            h.call('deepworks::save', [N.model, X.Str('f')])
            m2 = h.call('deepworks::load', [X.Str('f')])
            M = Net(h, ins, spec, outs, o, B, F)
            M.contracts(); M.model = m2
            structure(h, M, M.model, 'loaded')
            same_attrs(h, 'loaded', N.model, M.model)
            s2 = h.call('deepworks::Model::state', [], m2, pred=lambda f: not f.get('const'))
            for key in names(h, s1):
                a, b = mget(h, s1, X.Str(key)), mget(h, s2, X.Str(key))
                h.post_tshape('loaded: %s has its shape' % key, b, h.extents(h.shape(a)))
                h.post('loaded: %s is a tensor of its own' % key, mk_bool(N.storage(a) != N.storage(b)))
                i = fresh('i', h.total(a))
                h.post_eq('loaded: %s has the values saved' % key, h.at(b, i), app('saved ' + key, [i]))
            compile_(h, M)
            i, u = M.tensors(ins, 'in_'), M.tensors(outs, 'out_')
            check_forward(h, M, run_forward(h, M, i, u), i, u)
        h.run(run)
for _n in NETS: goal('C23', 'a model saved and loaded: %s' % _n)(lambda h, n=_n: whole(h, n))
