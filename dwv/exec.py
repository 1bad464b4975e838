"""Symbolic executor / VC generator for the clang AST of /repo's functions.

Every function of /repo is executed from its extracted body; std:: and Eigen
operations are given by natives.py / eig.py.  Loops are summarised for all
iterations (closed forms checked for inductiveness, quantified memory
updates); branches fork outside loops and merge inside them."""
import itertools, re
from .terms import *
from . import terms as tm
from .prove import PROV
from .mem import *

# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ('rid', 'pre', 'off')
    def __init__(self, rid, pre, off): self.rid, self.pre, self.off = rid, tuple(pre), off
    def __repr__(self): return 'Ptr(%s,%s,%s)' % (self.rid, self.pre, self.off)
    def key(self): return ('Ptr', self.rid, self.pre, self.off)
class PObj:
    """pointer to a cell or object"""
    __slots__ = ('loc', 'deleter', 'shared')
    def __init__(self, loc): self.loc = loc
    def __repr__(self): return 'PObj(%s)' % (self.loc,)
    def key(self): return ('PObj', self.loc)
class Null:
    def __repr__(self): return 'null'
    def key(self): return ('Null',)
NULL = Null()
class Str:
    __slots__ = ('s',)
    def __init__(self, s): self.s = s
    def __repr__(self): return 'Str(%r)' % self.s
    def key(self): return ('Str', self.s)
class It:
    """iterator into a sequence object (or map)"""
    __slots__ = ('oid', 'i', 'rev')
    def __init__(self, oid, i, rev=False): self.oid, self.i, self.rev = oid, i, rev
    def key(self): return ('It', self.oid, self.i, self.rev)
    def __repr__(self): return 'It%s' % (self.key(),)
class Clo:
    """lambda closure / functor"""
    __slots__ = ('lam', 'env', 'tu', 'fnobj')
    def __init__(self, lam, env, tu): self.lam, self.env, self.tu = lam, env, tu
    def key(self): return ('Clo', id(self.lam))
class Native:
    """native functor such as std::multiplies"""
    __slots__ = ('f', 'name')
    def __init__(self, name, f): self.name, self.f = name, f
    def key(self): return ('Native', self.name)
class Opaque:
    __slots__ = ('name', 'data')
    def __init__(self, name, data=None): self.name, self.data = name, data
    def key(self): return ('Opaque', self.name, id(self.data))
    def __repr__(self): return 'Opaque(%s)' % self.name
class Handle:
    """non-null pointer to an object owned by a library"""
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def key(self): return ('Handle', self.name)
    def __repr__(self): return 'Handle(%s)' % self.name
UNINIT = Opaque('uninit')
from . import fam

def vkey(v):
    if isinstance(v, (T, tuple)): return v
    return v.key()

# objects (immutable; replaced in the state on write)
class Rec:
    __slots__ = ('cls', 'f')
    def __init__(self, cls, f): self.cls, self.f = cls, f
    def __repr__(self): return 'Rec(%s,%s)' % (self.cls, self.f)
class Seq:
    __slots__ = ('et', 'items', 'fixed')
    def __init__(self, et, items, fixed=False): self.et, self.items, self.fixed = et, tuple(items), fixed
    def __repr__(self): return 'Seq(%s)' % (self.items,)
class SymSeq:
    __slots__ = ('et', 'rid', 'n', 'pre')
    def __init__(self, et, rid, n, pre=()): self.et, self.rid, self.n, self.pre = et, rid, n, tuple(pre)
    def __repr__(self): return 'SymSeq(%s,%s)' % (self.rid, self.n)
class FamSeq:
    """symbolic sequence of class objects, element i given by a python factory"""
    __slots__ = ('n', 'make', 'name')
    def __init__(self, name, n, make): self.name, self.n, self.make = name, n, make
class MapO:
    __slots__ = ('items',)          # tuple of (key value, loc)
    def __init__(self, items): self.items = tuple(items)
class FamMap:
    """symbolic map: n entries, key/value loc of entry k given by a python factory"""
    __slots__ = ('name', 'n', 'make', 'extra')
    def __init__(self, name, n, make): self.name, self.n, self.make = name, n, make
class SetO:
    __slots__ = ('info',)
    def __init__(self, info): self.info = info

class PSet:
    """concrete set of pointers or known strings"""
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)

class State:
    __slots__ = ('c', 'o', 'r')
    def __init__(self): self.c, self.o, self.r = {}, {}, {}
    def clone(self):
        s = State()
        s.c, s.o, s.r = dict(self.c), dict(self.o), dict(self.r)
        return s

class Oblig:
    __slots__ = ('kind', 'where', 'text', 'status', 'detail', 'fn', 'refuted')
    def __init__(self, kind, where, text, status, detail='', fn=''):
        self.kind, self.where, self.text, self.status, self.detail, self.fn = kind, where, text, status, detail, fn
        self.refuted = None
    def __repr__(self): return '<%s %s %s: %s %s>' % (self.status, self.kind, self.where, self.text, self.detail)

NORMAL, BREAK, CONT, RET = 'normal', 'break', 'cont', 'ret'

def strip(t):
    t = t.strip()
    while True:
        o = t
        if t.endswith('&&'): t = t[:-2].strip()
        elif t.endswith('&'): t = t[:-1].strip()
        if t.startswith('const '): t = t[6:].strip()
        if t.endswith(' const'): t = t[:-6].strip()
        if t.startswith('volatile '): t = t[9:].strip()
        if t == o: return t
def is_ref(t): return t.strip().endswith('&')
FLOATS = ('float', 'double', 'long double')
INTS = ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'unsigned char', 'signed char',
        'long long', 'unsigned long long', 'bool')
WIDE = ('long', 'unsigned long', 'long long', 'unsigned long long')
UNSIGNED = ('unsigned int', 'unsigned long', 'unsigned short', 'unsigned char', 'unsigned long long')
def is_float(t): return strip(t) in FLOATS
def is_int(t): return strip(t) in INTS
def is_scalar_type(t):
    s = strip(t)
    return s in FLOATS or s in INTS or s.endswith('*') or s == 'std::nullptr_t'
def targs(t):
    """top-level template arguments of a type string"""
    s = strip(t)
    i = s.find('<')
    if i < 0: return []
    out, d, cur = [], 0, ''
    for ch in s[i+1:s.rfind('>')]:
        if ch in '<(': d += 1
        elif ch in '>)': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def tname(t):
    s = strip(t)
    i = s.find('<')
    return s if i < 0 else s[:i]

# types whose values are kept as plain values (not addressable objects)
VALTYPES = ('std::shared_ptr', 'std::unique_ptr', 'std::basic_string', 'std::basic_string_view', 'std::function', 'std::reverse_iterator',
            '__gnu_cxx::__normal_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator',
            'std::multiplies', 'std::plus', 'std::weak_ptr', 'std::less', 'std::greater', 'ade::Handle', 'std::back_insert_iterator')
def is_valtype(t):
    n = tname(t)
    return n in VALTYPES or n.startswith('Eigen::') or n.startswith('(lambda') or '(lambda at' in strip(t).split('<')[0]

class Exec:
    def __init__(self, prog):
        self.prog = prog
        from . import natives, eig, ade
        self.natives = natives.Table()
        self.contracts = {}
        self.regions = {}
        self.nid = itertools.count(1)
        self.obligs = []
        self.oblig_keys = {}
        self.loop_depth = 0
        self.quiet = 0            # discovery mode: no obligations, no proofs
        self.loops = []           # stack of active loop records
        self.decisions = []
        self.dpos = 0
        self.fn_stack = []
        self.st = State()
        self.caught = []
        self.ext_records = {ade.GRAPH: ade.graph_ctor}
        self.depth = 0
        self.statics = {}
        self.funcs_used = {}
        self.fn_where = {}
        self.expect_throw = False
        self.assumed = {}
        self.alias_watch = None
        self.line = 0
        self.iter_vars = []
        self.map_obs, self.fam_inst, self.fam_orig, self.distinct = {}, {}, {}, set()

    # ------------------------------------------------------------ exploring
    def explore(self, fn, limit=400):
        """run fn under every feasible combination of branch decisions (outside loops)"""
        base = list(PROV.base)
        results = []
        trace = []
        n = 0
        while True:
            n += 1
            if n > limit: raise Unsupported('too many paths')
            self.decisions, self.dpos = list(trace), 0
            self.map_obs, self.fam_inst, self.fam_orig, self.distinct = {}, {}, {}, set()
            self.st = State(); self.fn_stack = []; self.loops = []; self.loop_depth = 0; self.statics = {}
            self.survive = []; self.survived = (); self.seqeqs = {}; self.iter_vars = []
            PROV.base = list(base); PROV.path = []; PROV.memo = {}
            try:
                r = ('ok', fn())
                fam.check_frozen(self, self.st)
                self.record_outcome(None)
            except CppThrow as e:
                r = ('throw', e)
                self.record_outcome(e)
            except DeadPath:
                r = ('dead', None)
            results.append(r)
            d = self.decisions[:self.dpos]
            while d and d[-1][0] == 1: d.pop()
            if not d: break
            d[-1] = (1, d[-1][1])
            trace = d
        PROV.base = base; PROV.path = []; PROV.memo = {}
        return results

    def branch(self, c, what=''):
        """decide a condition outside loops"""
        if c is TRUE: return True
        if c is FALSE: return False
        if PROV.prove(c, (), False): return True
        if PROV.prove(not_(c), (), False): return False
        if self.dpos < len(self.decisions):
            v = self.decisions[self.dpos]
            taken = (v[0] == 0)
            self.dpos += 1
        else:
            # feasibility of both sides
            if PROV.prove(c, (), True): self.decisions.append((1, 'T')); self.dpos += 1; return True
            if PROV.prove(not_(c), (), True): self.decisions.append((1, 'F')); self.dpos += 1; return False
            self.decisions.append((0, 'B')); self.dpos += 1
            taken = True
        if len(self.decisions) and self.decisions[self.dpos-1][1] == 'T': return True
        if len(self.decisions) and self.decisions[self.dpos-1][1] == 'F': return False
        PROV.path = PROV.path + [x for x in conjuncts(c if taken else not_(c))]
        return taken

    def assume(self, c):
        PROV.path = PROV.path + [x for x in conjuncts(c)]
        if c is FALSE: raise DeadPath()

    # ---------------------------------------------------------- obligations
    def where(self):
        f = self.fn_stack[-1] if self.fn_stack else None
        return '%s:%s' % (f['q'] if f else '?', self.line)

    def oblige(self, kind, c, text, extra=(), strong=True):
        """record and try to discharge an obligation in the current context"""
        if self.quiet: return True
        if c is not TRUE:
            ok = PROV.prove(c, extra, False) or (strong and PROV.prove(c, extra, True))
        else: ok = True
        self.record(kind, text, 'discharged' if ok else 'failed', c if not ok else None)
        return ok

    def record(self, kind, text, status, c=None, detail=''):
        if self.quiet: return
        key = (kind, self.where(), text)
        o = self.oblig_keys.get(key)
        if o is None:
            o = Oblig(kind, self.where(), text, status, detail or (repr(c)[:600] if c is not None else ''), self.fn_stack[-1]['q'] if self.fn_stack else '')
            self.oblig_keys[key] = o
            self.obligs.append(o)
        elif status == 'failed' and o.status == 'discharged':
            o.status = 'failed'; o.detail = detail or (repr(c)[:600] if c is not None else '')
        if status == 'failed' and c is not None and o.refuted is None:
            o.refuted = self.try_refute(c)

    caught = ()
    deferred = ()
    outer_loop = None
    h = None
    def try_refute(self, c):
        from . import spec
        try: return spec.refute_bool(c, self.h.defs if self.h else (), self.h.gens if self.h else None, tries=1500)
        except Exception: return None
    def record_outcome(self, e):
        """the call completes without an exception under the precondition"""
        if self.expect_throw: return
        key = ('nothrow',)
        o = self.oblig_keys.get(key)
        if o is None:
            o = Oblig('no-throw', 'entry', 'no exception is raised under the precondition', 'discharged')
            self.oblig_keys[key] = o; self.obligs.append(o)
        if e is not None:
            o.status = 'failed'
            o.detail = o.detail or 'exception (%s) raised at %s when %s' % (e, self.where(), ' && '.join(map(repr, PROV.path))[:600])
            if o.refuted is None: o.refuted = self.try_refute(FALSE)
    def record_post(self, name, ok, cex, code, want):
        key = ('post', name, '')
        o = self.oblig_keys.get(key)
        if o is None:
            o = Oblig('postcondition', name, name, 'discharged')
            self.oblig_keys[key] = o; self.obligs.append(o)
        if not ok:
            o.status = 'failed'
            if cex and not o.refuted: o.refuted = cex
            if not o.detail: o.detail = 'code: %s ; spec: %s' % (repr(code)[:1500], repr(want)[:800])

    # --------------------------------------------------------------- memory
    def new_region(self, name, size, sort='Real', base=None, arity=1):
        rid = '%s#%d' % (name, next(self.nid))
        if base is None:
            nm = 'uninit_' + rid
            base = lambda idx: app(nm, idx, sort)
        self.regions[rid] = Region(rid, name, size, sort, base, arity)
        self.st.r[rid] = ()
        return rid

    def check_bounds(self, rid, idx, what):
        if self.quiet: return
        reg = self.regions[rid]
        if reg.freed is not None: self.check_freed(rid, idx[:-1])
        if reg.size is None: return
        i = idx[-1]
        size = reg.size(idx[:-1]) if callable(reg.size) else reg.size
        self.oblige('bounds', and_(ge0(i), gt(size, i)), '%s within the allocated elements of %s' % (what, reg.name))

    def read(self, rid, idx, log=None, facts=()):
        if log is None: log = self.st.r[rid]
        idx = tuple(idx)
        key = ('read', rid, idx, id(log), len(log), tuple(PROV.path), len(PROV.base), bool(self.quiet))
        hit = PROV.memo.get(key)
        if hit is not None and hit[1] is log: return hit[0]
        r = self._read(rid, idx, log, len(log) - 1)
        PROV.memo[key] = (r, log)
        return r

    def _read(self, rid, idx, log, k):
        reg = self.regions[rid]
        acc = ZERO
        while k >= 0:
            e = log[k]
            if isinstance(e, Mark):
                return add(acc, app('@%s:%s' % (e.loop, rid), idx, reg.sort))
            if self.quiet and self.quiet_reads:
                return app('?%s' % rid, idx, reg.sort)
            if e.kind == 'havoc':
                if not disjoint(e, ((), TRUE, idx)):
                    return add(acc, app('havoc%s_%d' % (rid, next(self.nid)), idx, reg.sort))
            elif e.kind == 'set':
                # an update of every allocated element: accesses are in bounds by their own obligation
                if e.guard is TRUE and len(e.vs) == 1 and len(idx) == 1 and e.idx[0] is e.vs[0][0] and e.vs[0][1] is reg.size:
                    return add(acc, subst(e.val, {e.vs[0][0]: idx[0]}))
                m = match_set(e, idx, PROV.path)
                if m is None:
                    if not disjoint(e, ((), TRUE, idx)):
                        raise Unsupported('cannot resolve a read of %s at %s over update %s' % (rid, idx, e))
                else:
                    c, val = m
                    c = simp(c)
                    if c is TRUE: return add(acc, val)
                    if c is not FALSE:
                        with PROV.under(not_(c)):
                            rest = self._read(rid, idx, log, k - 1)
                        return add(acc, ite(c, val, rest))
            else:  # add
                vs, rest = e.vs, [e.guard, e.val] + list(e.idx)
                bv = frozenset(v for v, n in vs)
                if bv and any(i.fv & bv for i in idx): vs, rest = rename_vs(vs, rest)
                g = rest[0]
                for a, b in zip(rest[2:], idx): g = and_(g, eq0(sub(a, b)))
                acc = add(acc, mk_sum(vs, g, rest[1]) if vs else ite(simp(g), rest[1], ZERO))
            k -= 1
        return add(acc, reg.base(idx))

    quiet_reads = True

    def write(self, rid, idx, val, kind='set', vs=(), guard=TRUE):
        self.st.r[rid] = self.st.r[rid] + (QU(vs, guard, idx, val, kind, self.line),)

    # ------------------------------------------------------------ locations
    def new_obj(self, o):
        oid = next(self.nid)
        self.st.o[oid] = o
        return ('o', oid)
    def obj(self, loc):
        if loc[0] != 'o': raise Unsupported('object expected at %s' % (loc,))
        return self.st.o[loc[1]]
    def new_cell(self, v):
        cid = next(self.nid)
        self.st.c[cid] = v
        return ('c', cid)

    def load(self, loc):
        k = loc[0]
        if k == 'c': return self.st.c[loc[1]]
        if k == 'f': return self.st.o[loc[1]].f[loc[2]]
        if k == 's': return self.st.o[loc[1]].items[loc[2]]
        if k == 'm':
            self.check_bounds(loc[1], loc[2], 'read')
            if self.regions[loc[1]].sort == 'Ptr': return self.load_ptr(loc[1], loc[2])
            if self.alias_watch is not None: self.alias_watch(loc[1], loc[2])
            return self.read(loc[1], loc[2])
        if k == 'o': return loc
        if k == 'v': return loc[1]          # prvalue wrapped as location
        raise Unsupported('load %s' % (loc,))

    def store(self, loc, v):
        k = loc[0]
        if k == 'c': self.st.c[loc[1]] = v
        elif k == 'f':
            o = self.st.o[loc[1]]
            f = dict(o.f); f[loc[2]] = v
            self.st.o[loc[1]] = Rec(o.cls, f)
        elif k == 's':
            o = self.st.o[loc[1]]
            it = list(o.items); it[loc[2]] = v
            self.st.o[loc[1]] = Seq(o.et, it, o.fixed)
        elif k == 'm':
            self.check_bounds(loc[1], loc[2], 'write')
            if self.regions[loc[1]].sort == 'Ptr' and isinstance(v, Ptr): v = app('addr:' + v.rid, list(v.pre) + [v.off], 'Ptr')
            if not isinstance(v, T): raise Unsupported('non-scalar stored to memory')
            self.write(loc[1], loc[2], v)
        elif k == 'o':
            self.assign_obj(loc, v)
        else: raise Unsupported('store %s' % (loc,))

    def copy_obj(self, loc):
        if not (isinstance(loc, tuple) and loc and loc[0] == 'o'): return loc
        o = self.st.o[loc[1]]
        if getattr(o, 'move_only', False): return loc      # never copied: the one object changes hands
        return self.new_obj(self._copy(o))
    def _copy(self, o):
        if isinstance(o, Rec): return Rec(o.cls, {k: self.copy_obj(v) for k, v in o.f.items()})
        if isinstance(o, Seq): return Seq(o.et, [self.copy_obj(v) for v in o.items], o.fixed)
        if isinstance(o, SymSeq):
            reg = self.regions[o.rid]
            rid = self.new_region(reg.name + '.copy', o.n, reg.sort)
            i = fresh('x', o.n)
            self.write(rid, (i,), self.read(o.rid, o.pre + (i,)), vs=[(i, o.n)])
            return SymSeq(o.et, rid, o.n)
        if isinstance(o, MapO): return MapO([(k, self.copy_obj(v)) for k, v in o.items])
        return o
    def assign_obj(self, loc, src):
        if src[0] != 'o': raise Unsupported('assign object from %s' % (src,))
        o = self.st.o[src[1]]
        dst = self.st.o.get(loc[1])
        if isinstance(o, Rec) and isinstance(dst, Rec) and set(o.f) <= set(dst.f) and dst.cls != o.cls:
            f = dict(dst.f)
            for k, v in o.f.items(): f[k] = self.copy_obj(v)
            self.st.o[loc[1]] = Rec(dst.cls, f)
            return
        if isinstance(o, Seq) and isinstance(dst, Seq) and len(o.items) == len(dst.items) and any(isinstance(x, tuple) for x in dst.items):
            for a, b in zip(dst.items, o.items): self.assign_obj(a, b)
            return
        if isinstance(o, Rec) and isinstance(dst, Rec):
            f = {}
            for k, v in o.f.items():
                d = dst.f.get(k)
                if isinstance(v, tuple) and v and v[0] == 'o' and isinstance(d, tuple) and d and d[0] == 'o':
                    self.assign_obj(d, v); f[k] = d
                else: f[k] = self.copy_obj(v)
            self.st.o[loc[1]] = Rec(o.cls, f)
            return
        self.st.o[loc[1]] = self._copy(o)

    def rvalue(self, x, t=None):
        """value of an evaluated expression (load through locations of scalar kind)"""
        if isinstance(x, tuple) and x and x[0] in ('c', 'f', 's', 'm', 'v'):
            return self.load(x)
        return x

    # ------------------------------------------------------------ functions
    def call_fn(self, f, args, this=None, tu=None):
        """f: function ast with body; args: raw evaluated args (locs or values)"""
        if self.depth > 60: raise Unsupported('call depth')
        q = f['q']
        self.funcs_used[q] = self.funcs_used.get(q, 0) + 1
        if q not in self.fn_where: self.fn_where[q] = f['tu']
        con = self.contracts.get(q)
        if con is not None:
            r = con(self, f, args, this)
            if r is not NotImplemented: return r
        self.fn_stack.append(f)
        self.depth += 1
        save_line = self.line
        try:
            env = {'this': this, 'fn': f}
            self.bind_params(f['params'], args, env)
            if f.get('ctor'): self.run_inits(f, env)
            body = f.get('body')
            if body is None: return None
            r = self.run_body(body, env, f['ret'])
            return r
        finally:
            self.fn_stack.pop(); self.depth -= 1; self.line = save_line

    def run_body(self, body, env, ret):
        outs = self.block_stmts([body], env)
        if self.loop_depth == 0 or len(outs) == 1:
            o = outs[0]
            self.st = o[1]
            if o[2][0] == RET: return o[2][1]
            return None
        # merge returns inside loops
        res = None
        st = None
        for g, s, oc in outs:
            v = oc[1] if oc[0] == RET else None
            if st is None: st, res = s, v
            else:
                st = self.merge(g, s, st)
                if v is not None or res is not None: res = self.merge_val(g, v, res)
        self.st = st
        return res

    def bind_params(self, params, args, env):
        for i, p in enumerate(params):
            t = p['t']
            if i < len(args): a = args[i]
            elif 'def' in p and p['def'] is not None: a = self.ev(p['def'], env)
            else: raise Unsupported('missing argument %s' % p['name'])
            env[p['id']] = self.bind(t, a)

    def bind(self, t, a):
        """location for a variable of type t initialised from evaluated a"""
        if is_ref(t):
            if isinstance(a, tuple) and a and a[0] in ('c', 'f', 's', 'm', 'o'): return a
            if isinstance(a, tuple) and a and a[0] == 'v': a = a[1]
            return self.new_cell(a)
        if is_valtype(t) or is_scalar_type(t):
            v = self.rvalue(a)
            v = self.coerce(v, t)
            return self.new_cell(v)
        v = self.rvalue(a)
        if isinstance(v, tuple) and v and v[0] == 'o': return self.copy_obj(v)
        return self.new_cell(v)

    def coerce(self, v, t):
        s = strip(t)
        if isinstance(v, T):
            if s == 'bool' and v.sort != 'Bool': return ne(v, ZERO)
            if s != 'bool' and v.sort == 'Bool' and (s in INTS or s in FLOATS): return ite(v, ONE, ZERO)
        return v

    def run_inits(self, f, env):
        this = env['this']
        done = set()
        cls = f['cls'] if f.get('cls') else None
        for it in f.get('inits', []):
            e = it.get('e')
            if 'deleg' in it and it['deleg']:
                self.construct_into(this, e, env); return
            if it.get('base'):
                self.construct_into(this, e, env)
                continue
            name = it['m']
            if e is None: continue
            self.init_field(this, name, e, env)

    def init_field(self, this, name, e, env):
        ft = self.field_type(this, name)
        o = self.obj(this)
        v = self.ev(e, env)
        if ft and is_ref(ft):
            pass
        elif isinstance(v, tuple) and v and v[0] in ('c', 'f', 's', 'm', 'v'):
            v = self.rvalue(v)
        if isinstance(v, T) and ft: v = self.coerce(v, ft)
        if isinstance(v, tuple) and v and v[0] == 'o' and not (ft and is_ref(ft)) and not self.is_prvalue(e): v = self.copy_obj(v)
        o = self.obj(this)
        f = dict(o.f); f[name] = v
        self.st.o[this[1]] = Rec(o.cls, f)

    def is_prvalue(self, e):
        return e['k'] in ('ctor', 'initlist', 'call', 'mcall', 'opcall', 'temp') and not is_ref(e.get('f', {}).get('ret', '') if isinstance(e.get('f'), dict) and e['k'] != 'ctor' else '')

    def record_of(self, cls):
        r = self.prog.records.get(strip(cls))
        if r is None: r = self.prog.rec_by_q.get(tname(cls))
        return r

    def all_fields(self, rec):
        out = []
        for b in rec.get('bases', []):
            br = self.record_of(b if isinstance(b, str) else b.get('t', ''))
            if br: out += self.all_fields(br)
        return out + rec['fields']

    def field_type(self, this, name):
        rec = self.record_of(self.obj(this).cls)
        if rec is None: return None
        for f in self.all_fields(rec):
            if f['name'] == name: return f['t']
        return None

    def native_default(self, t):
        from .natives import native_default
        return native_default(self, t)

    def default_value(self, t):
        """default-initialised value of type t"""
        s = strip(t)
        if s in FLOATS or s in INTS: return UNINIT
        if s.endswith('*'): return UNINIT
        n = tname(t)
        if n in self.ext_records: return self.ext_records[n](self)
        if s.endswith(']'):
            et, cnt = s[:s.rfind('[')].strip(), s[s.rfind('[')+1:-1]
            if et == '__jmp_buf_tag': return self.new_obj(Rec('jmp_buf', {}))
            if cnt.isdigit() and int(cnt) <= 64: return self.new_obj(Seq(et, [self.default_value(et) for _ in range(int(cnt))], True))
        if n == 'std::shared_ptr' or n == 'std::unique_ptr': return NULL
        if n == 'std::basic_string': return Str('')
        if n == 'std::function': return NULL
        if n.startswith('std::'):
            return self.native_default(t)
        rec = self.record_of(t)
        if rec is not None:
            ctors = [g for g in self.prog.by_q.get(rec['q'] + '::' + rec['q'].split('::')[-1], []) if g.get('ctor') and not g['pt'] and g.get('cls') == rec['t']]
            loc = self.alloc_rec(rec)
            if ctors and ctors[0].get('body') is not None: self.call_fn(ctors[0], [], loc)
            return loc
        raise Unsupported('default value of ' + t)

    def alloc_rec(self, rec, t=None):
        loc = self.new_obj(Rec(rec['t'], {}))
        for f in self.all_fields(rec):
            if is_ref(f['t']): continue
            if f.get('init') is not None:
                self.init_field(loc, f['name'], f['init'], {'this': loc})
            elif strip(f['t']) in FLOATS or strip(f['t']) in INTS or strip(f['t']).endswith('*'):
                o = self.obj(loc); d = dict(o.f); d[f['name']] = UNINIT; self.st.o[loc[1]] = Rec(o.cls, d)
            else:
                v = self.default_value(f['t']) if self.has_default(f['t']) else UNINIT
                o = self.obj(loc); d = dict(o.f); d[f['name']] = v; self.st.o[loc[1]] = Rec(o.cls, d)
        return loc

    def has_default(self, t):
        n = tname(t)
        if n.startswith('std::') : return True
        rec = self.record_of(t)
        if rec is None: return False
        short = rec['q'].split('::')[-1]
        cs = [g for g in self.prog.by_q.get(rec['q'] + '::' + short, []) if g.get('ctor') and g.get('cls') == rec['t']]
        return (not cs) or any(not g['pt'] for g in cs)

    def construct_into(self, loc, e, env):
        """run a constructor expression on an existing object"""
        while e['k'] in ('temp', 'cast'): e = e['e']
        if e['k'] == 'initlist' and not e['a']: return
        if e['k'] == 'ictor': raise Unsupported('inherited ctor')
        if e['k'] != 'ctor': raise Unsupported('base initialiser ' + e['k'])
        f = e['f']
        args = [self.ev(a, env) for a in e['a']]
        body = self.prog.find(env['fn']['tu'] if 'fn' in env else None, f)
        if body is not None and body.get('body') is not None:
            self.call_fn(body, args, loc)
        elif f.get('defaulted') or not args or f['q'].startswith('std::'):
            if args:
                src = self.rvalue(args[0])
                self.assign_obj(loc, src)
        else:
            raise Unsupported('constructor without body ' + f['q'])

    def construct(self, t, f, args, tu, zero=False):
        """new object of class type t by constructor f"""
        q = f['q']
        n = self.natives.get(q)
        if n is not None:
            return n(self, t, f, args)
        body = self.prog.find(tu, f)
        rec = self.record_of(t)
        if rec is None: raise Unsupported('construct ' + t)
        if body is None or body.get('body') is None:
            if len(args) == 1:   # defaulted copy/move
                src = self.rvalue(args[0])
                if isinstance(src, tuple) and src[0] == 'o': return self.copy_obj(src)
            if not args:
                loc = self.alloc_rec(rec)
                if zero:
                    o = self.obj(loc)
                    d = {k: (ZERO if v is UNINIT else v) for k, v in o.f.items()}
                    self.st.o[loc[1]] = Rec(o.cls, d)
                return loc
            raise Unsupported('constructor without body %s' % q)
        loc = self.alloc_rec(rec)
        self.call_fn(body, args, loc)
        return loc

    # ----------------------------------------------------------- statements
    # executing statements yields a list of (guard, state, outcome)
    def block_stmts(self, stmts, env):
        """runs on self.st; returns list of leaves (guard, state, outcome)"""
        done = []
        for s in stmts:
            outs = self.stmt(s, env)
            normal = [o for o in outs if o[2][0] == NORMAL]
            abrupt = [o for o in outs if o[2][0] != NORMAL]
            if abrupt:
                done += abrupt
                if not normal: return done
            if len(normal) == 1:
                self.st = normal[0][1]
                if normal[0][0] is not TRUE and abrupt:
                    # remaining statements run under the guard
                    with PROV.under(normal[0][0]):
                        rest = self.block_stmts(stmts[stmts.index(s)+1:], env)
                    g = normal[0][0]
                    return done + [(and_(g, r[0]), r[1], r[2]) for r in rest]
            else:
                st = normal[-1][1]
                for g, s2, _ in reversed(normal[:-1]): st = self.merge(g, s2, st)
                self.st = st
        return done + [(TRUE, self.st, (NORMAL,))]

    def one(self, oc=(NORMAL,)): return [(TRUE, self.st, oc)]

    def stmt(self, s, env):
        k = s['k']
        if 'l' in s: self.line = s['l']
        m = getattr(self, 's_' + k, None)
        if m is None: raise Unsupported('statement %s %s' % (k, s.get('cls', '')))
        return m(s, env)

    def s_null(self, s, env): return self.one()
    def s_expr(self, s, env):
        self.ev(s['e'], env)
        return self.one()
    def s_block(self, s, env):
        return self.block_stmts(s['b'], env)
    def s_decl(self, s, env):
        for v in s['vars']: self.declare(v, env)
        return self.one()
    def declare(self, v, env):
        t = v['t']
        if v.get('static'):
            key = (env['fn']['q'] if 'fn' in env else '', v['id'])
            if key in self.statics: env[v['id']] = self.statics[key]; return
        if v.get('init') is None:
            if is_scalar_type(t): loc = self.new_cell(UNINIT)
            else:
                x = self.default_value(t)
                loc = x if isinstance(x, tuple) else self.new_cell(x)
        else:
            x = self.ev(v['init'], env)
            if not is_ref(t) and isinstance(x, tuple) and x and x[0] == 'o' and self.is_prvalue(v['init']): loc = x
            else: loc = self.bind(t, x)
        env[v['id']] = loc
        if v.get('static'): self.statics[key] = loc
        for b in v.get('bindings') or []:
            self.bind_structured(b, loc, env, v)
    def bind_structured(self, b, loc, env, v):
        o = self.obj(loc)
        i = v['bindings'].index(b)
        if isinstance(o, Rec) and 'first' in o.f:
            nm = ('first', 'second')[i]
            x = o.f[nm]
            env[b['id']] = x if isinstance(x, tuple) and x[0] == 'o' else ('f', loc[1], nm)
        elif isinstance(o, Seq):
            x = o.items[i]
            env[b['id']] = x if isinstance(x, tuple) and x[0] == 'o' else ('s', loc[1], i)
        elif isinstance(o, Rec):
            nm = list(o.f)[i]
            x = o.f[nm]
            env[b['id']] = x if isinstance(x, tuple) and x[0] == 'o' else ('f', loc[1], nm)
        else: raise Unsupported('structured binding')

    def s_if(self, s, env):
        if s.get('init'):
            self.stmt(s['init'], env)
        if s.get('cvar'):
            self.declare(s['cvar'], env)
        c = self.cond(s['c'], env)
        if self.loop_depth == 0:
            if self.branch(c): return self.stmt(s['then'], env)
            if s.get('else'): return self.stmt(s['else'], env)
            return self.one()
        c = self.decide(c)
        if c is TRUE: return self.stmt(s['then'], env)
        if c is FALSE: return self.stmt(s['else'], env) if s.get('else') else self.one()
        base = self.st
        st1 = base.clone(); st2 = base.clone()
        outs = []
        nsurv = len(self.survive)
        try:
            self.st = st1
            with PROV.under(c): o1 = self.stmt(s['then'], dict_env(env))
        except DeadPath: o1 = []
        except CppThrow as ex:
            self.throw_in_loop(ex, c); o1 = []
        try:
            self.st = st2
            with PROV.under(not_(c)): o2 = self.stmt(s['else'], dict_env(env)) if s.get('else') else [(TRUE, st2, (NORMAL,))]
        except DeadPath: o2 = []
        except CppThrow as ex:
            self.throw_in_loop(ex, not_(c)); o2 = []
        for g, s_, oc in o1: outs.append((and_(c, g), s_, oc))
        for g, s_, oc in o2: outs.append((and_(not_(c), g), s_, oc))
        self.know_survived(nsurv)
        if not outs: raise DeadPath()
        n1 = [o for o in outs if o[2][0] == NORMAL]
        if len(n1) == len(outs):
            st = n1[-1][1]
            for g, s2, _ in reversed(n1[:-1]): st = self.merge(g, s2, st)
            self.st = st
            return self.one()
        return outs

    def throw_in_loop(self, ex, c):
        """a throw reached under condition c inside a symbolic loop: must be unreachable"""
        if self.may_throw:
            # the loop goes on only when the exception is not raised: a fact about every completed iteration
            if self.loop_depth != 1: raise Unsupported('exception in a nested loop')
            if any(f is c for f in self.survive): return
            old = set(x for f in self.survive for x in conjuncts(f))
            g = [f for f in PROV.path[self.iter_path:] if f not in old]
            self.survive.append(not_(and_(*(g + [c]))))
            return
        if self.quiet: return
        if PROV.prove(not_(c), (), True): return
        self.record('no-throw', 'exception inside a loop is unreachable', 'failed', not_(c))
        raise Unsupported('throw inside a symbolic loop: %s' % ex.what)

    def throw_if(self, c, what):
        """a library function or contract raises an exception when c holds"""
        c = self.decide(c)
        if c is FALSE: return
        if not self.loop_depth:
            if c is TRUE or self.branch(c): raise CppThrow(what)
        else:
            k = len(self.survive)
            with PROV.under(c): self.throw_in_loop(CppThrow(what), TRUE)
            self.know_survived(k)
    may_throw = False          # a goal about code that may refuse its input inside a loop
    iter_path = 0
    survive = ()
    survived = ()
    def know_survived(self, k):
        new = [x for f in self.survive[k:] for x in conjuncts(f) if x not in PROV.path]
        if new: PROV.path = PROV.path + new
    def survived_at(self, k):
        """what is known of iteration k of the loops run so far, none of which raised an exception"""
        return [subst(f, {tt: k}) for tt, n, fs in self.survived for f in fs]
    def decide(self, c):
        if c is TRUE or c is FALSE: return c
        if PROV.prove(c, (), False): return TRUE
        if PROV.prove(not_(c), (), False): return FALSE
        return c

    # merging of states (then-state s1 under g, else s2)
    def merge(self, g, s1, s2):
        if s1 is s2: return s1
        out = State()
        for cid in s2.c:
            if cid not in s1.c: continue
            a, b = s1.c[cid], s2.c[cid]
            out.c[cid] = a if a is b else self.merge_val(g, a, b)
        for oid in set(s1.o) | set(s2.o):
            if oid not in s1.o: out.o[oid] = s2.o[oid]; continue
            if oid not in s2.o: out.o[oid] = s1.o[oid]; continue
            a, b = s1.o[oid], s2.o[oid]
            out.o[oid] = a if a is b else self.merge_obj(g, a, b)
        for rid in set(s1.r) | set(s2.r):
            if rid not in s1.r: out.r[rid] = s2.r[rid]; continue
            if rid not in s2.r: out.r[rid] = s1.r[rid]; continue
            a, b = s1.r[rid], s2.r[rid]
            if a is b: out.r[rid] = a; continue
            n = 0
            while n < len(a) and n < len(b) and a[n] is b[n]: n += 1
            ng = not_(g)
            log = list(a[:n])
            for q in a[n:]:
                if isinstance(q, Mark): raise Unsupported('merge across loop')
                log.append(QU(q.vs, and_(g, q.guard), q.idx, q.val, q.kind, q.line))
            for q in b[n:]:
                if isinstance(q, Mark): raise Unsupported('merge across loop')
                log.append(QU(q.vs, and_(ng, q.guard), q.idx, q.val, q.kind, q.line))
            out.r[rid] = tuple(log)
        return out

    def merge_val(self, g, a, b):
        if a is b: return a
        if isinstance(a, T) and isinstance(b, T): return ite(g, a, b)
        if a is UNINIT or b is UNINIT or a is None or b is None: return UNINIT
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid and len(a.pre) == len(b.pre):
            return Ptr(a.rid, [ite(g, x, y) for x, y in zip(a.pre, b.pre)], ite(g, a.off, b.off))
        if isinstance(a, It) and isinstance(b, It) and a.oid == b.oid and a.rev == b.rev:
            return It(a.oid, ite(g, a.i, b.i), a.rev)
        if vkey(a) == vkey(b): return a
        raise Unsupported('merge of values %s / %s' % (a, b))

    def merge_obj(self, g, a, b):
        if type(a) is type(b):
            if isinstance(a, Rec) and a.cls == b.cls:
                return Rec(a.cls, {k: (a.f[k] if a.f[k] is b.f.get(k) else self.merge_val(g, a.f[k], b.f[k])) for k in a.f})
            if isinstance(a, Seq) and len(a.items) == len(b.items):
                return Seq(a.et, [x if x is y else self.merge_val(g, x, y) for x, y in zip(a.items, b.items)], a.fixed)
            if isinstance(a, SymSeq) and a.rid == b.rid: return SymSeq(a.et, a.rid, ite(g, a.n, b.n), a.pre)
        raise Unsupported('merge of objects')

    def s_return(self, s, env):
        if s.get('e') is None: return self.one((RET, None))
        e = s['e']
        ret = env['fn']['ret'] if 'fn' in env else env.get('lamret', 'auto')
        v = self.ev(e, env)
        if not is_ref(ret):
            v = self.rvalue(v)
            if isinstance(v, tuple) and v and v[0] == 'o' and not self.is_prvalue(e): v = self.copy_obj(v)
            if isinstance(v, T): v = self.coerce(v, ret)
        return self.one((RET, v))
    def s_break(self, s, env): return self.one((BREAK,))
    def s_continue(self, s, env): return self.one((CONT,))

    def s_switch(self, s, env):
        if s.get('init'): self.stmt(s['init'], env)
        v = self.rvalue(self.ev(s['c'], env))
        if not isinstance(v, T): raise Unsupported('switch value')
        flat = []
        def flatten(b):
            for x in (b['b'] if b['k'] == 'block' else [b]):
                y = x
                while y['k'] in ('case', 'default'):
                    flat.append(('label', y.get('v'))); y = y['s']
                flat.append(('stmt', y))
        flatten(s['body'])
        start = None; dflt = None
        for i, (k, x) in enumerate(flat):
            if k == 'label':
                if x is None: dflt = i; continue
                cv = self.rvalue(self.ev(x, env))
                c = eq(v, cv)
                if self.loop_depth: 
                    c = self.decide(c)
                    if c not in (TRUE, FALSE): raise Unsupported('symbolic switch inside loop')
                    hit = c is TRUE
                else: hit = self.branch(c)
                if hit: start = i; break
        if start is None: start = dflt
        if start is None: return self.one()
        outs = self.block_stmts([x for k, x in flat[start:] if k == 'stmt'], env)
        return [(g, st, (NORMAL,) if oc[0] == BREAK else oc) for g, st, oc in outs]
    def s_try(self, s, env):
        if self.loop_depth: raise Unsupported('try inside loop')
        depth = self.depth
        try:
            return self.stmt(s['b'], env)
        except CppThrow as e:
            for h in s.get('h', ()):
                if h.get('t'): raise Unsupported('handler for one exception type')
                self.caught.append(e)
                try: return self.stmt(h['b'], env)
                finally: self.caught.pop()
            raise
    def s_omp(self, s, env):
        body = s['body']
        while body['k'] == 'block' and len(body['b']) == 1: body = body['b'][0]
        if 'for' in s.get('dir', '') and 'parallel' in s['dir'] and body['k'] == 'for':
            if s.get('clauses'):
                extra = [c for c in s['clauses'] if str(c) not in ('shared', 'schedule')]
                if extra and not self.quiet: raise Unsupported('omp clauses %s' % (s['clauses'],))
            return self.loop_for(body, env, parallel=True)
        raise Unsupported('omp ' + s.get('dir', ''))

    # ---------------------------------------------------------------- loops
    def s_for(self, s, env): return self.loop_for(s, env)
    def loop_for(self, s, env, parallel=False):
        env = dict_env(env)
        if s.get('init'): self.stmt(s['init'], env)
        return self.loop(s, env, s.get('c'), s.get('inc'), s['body'], parallel)
    def s_while(self, s, env):
        if s.get('cvar'): raise Unsupported('while condition variable')
        sp = self.special_while(s, env)
        if sp is not None: return sp
        return self.loop(s, env, s['c'], None, s['body'])
    def special_while(self, s, env):
        from . import natives
        return natives.set_loop(self, s, env)
    def s_do(self, s, env):
        outs = self.stmt(s['body'], env)
        outs2 = []
        for g, st, oc in outs:
            if oc[0] in (NORMAL, CONT): outs2.append((g, st, (NORMAL,)))
            else: raise Unsupported('break in do-while')
        if len(outs2) != 1: raise Unsupported('do-while body')
        self.st = outs2[0][1]
        return self.loop(s, env, s['c'], None, s['body'])

    def s_forrange(self, s, env):
        r = self.ev(s['range'], env)
        chars = None
        if isinstance(r, tuple) and r[0] == 'o': o = self.obj(r)
        else:
            o = self.rvalue(r)
            if not isinstance(o, (Str, T)): raise Unsupported('range-for over %s' % (r,))
            from . import files
            chars = files.strterm(o)
        v = s['var']
        def bindvar(env2, item):
            env2[v['id']] = self.bind(v['t'], item)
            for b in v.get('bindings') or []: self.bind_structured(b, env2[v['id']], env2, v)
        few = isinstance(o, SymSeq) and o.n.op == 'num' and o.n.val <= 32
        if isinstance(o, Seq) or isinstance(o, MapO) or few:
            n = int(o.n.val) if few else len(o.items)
            for i in range(n):
                env2 = dict_env(env)
                bindvar(env2, self.elem(r, num(i)))
                outs = self.stmt(s['body'], env2)
                if len(outs) == 1:
                    g, st, oc = outs[0]
                    self.st = st
                    if oc[0] == BREAK: return self.one()
                    if oc[0] == RET: return outs
                else:
                    nx = None
                    for g, st, oc in reversed(outs):
                        if oc[0] in (NORMAL, CONT): nx = st if nx is None else self.merge(g, st, nx)
                        else: raise Unsupported('abrupt exit in unrolled loop')
                    self.st = nx
            return self.one()
        n = o.n if chars is None else files.str_len(o)
        cell = self.new_cell(ZERO)
        def body(env2):
            i = self.st.c[cell[1]]
            bindvar(env2, self.elem(r, i) if chars is None else self.new_cell(app('chr', [chars, i], 'Int')))
            outs = self.stmt(s['body'], env2)
            res = []
            for g, st, oc in outs:
                st.c[cell[1]] = add(st.c[cell[1]], ONE)
                res.append((g, st, oc))
            return res
        return self.sym_loop(s, env, lambda env2: gt(n, self.st.c[cell[1]]), body, False, {cell[1]})

    def elem(self, r, i):
        """location of element i of a sequence/map object"""
        o = self.obj(r)
        if isinstance(o, Seq):
            if i.op != 'num':
                hit = None
                for k in range(len(o.items)):
                    if PROV.prove(eq(i, num(k)), (), False): hit = k
                if hit is None:
                    if all(isinstance(x, T) for x in o.items) and o.items:
                        self.oblige('bounds', and_(ge0(i), gt(num(len(o.items)), i)), 'container index in range')
                        v = o.items[-1]
                        for k in reversed(range(len(o.items) - 1)): v = ite(eq(i, num(k)), o.items[k], v)
                        return ('v', v)
                    raise Unsupported('symbolic index into a concrete sequence')
                i = num(hit)
            k = i.val
            if k < 0 or k >= len(o.items):
                self.record('bounds', 'container index in range', 'failed', FALSE, 'index %s of %d' % (k, len(o.items)))
                raise DeadPath() if self.quiet else Unsupported('index out of range')
            x = o.items[k]
            if isinstance(x, tuple) and x and x[0] == 'o': return x
            return ('s', r[1], k)
        if isinstance(o, SymSeq):
            if self.regions[o.rid].grow and not self.quiet: self.oblige('bounds', and_(ge0(i), gt(o.n, i)), 'container index in range')
            return ('m', o.rid, o.pre + (i,))
        if isinstance(o, MapO):
            fam.note(self, r[1], None)
            k, v = o.items[i.val]
            return self.new_obj(Rec('std::pair', {'first': k, 'second': v}))
        if isinstance(o, (FamMap, FamSeq)): return o.make(self, i)
        raise Unsupported('elem of %s' % o)

    def seq_len(self, o):
        if isinstance(o, MapO) and self.loop_depth:
            for oid, oo in self.st.o.items():
                if oo is o: fam.note(self, oid, None)
        if isinstance(o, (Seq, MapO)): return num(len(o.items))
        if isinstance(o, (SymSeq, FamMap, FamSeq)): return o.n
        raise Unsupported('size of %s' % o)

    def loop(self, s, env, c, inc, bodyst, parallel=False):
        # try to unroll while the condition is decided by constants
        if not parallel:
            for n in range(65):
                save = self.st
                self.st = save.clone()
                cv = self.cond(c, env) if c is not None else TRUE
                if cv is FALSE: return self.one()
                if cv is not TRUE or n == 64:
                    self.st = save
                    if n == 64: raise Unsupported('loop does not terminate within 64 constant iterations')
                    break
                outs = self.stmt(bodyst, dict_env(env))
                if len(outs) == 1:
                    g, st, oc = outs[0]
                    self.st = st
                    if oc[0] == BREAK: return self.one()
                    if oc[0] == RET: return outs
                else:
                    nx = None
                    for g, st, oc in reversed(outs):
                        if oc[0] in (NORMAL, CONT): nx = st if nx is None else self.merge(g, st, nx)
                        else: raise Unsupported('abrupt exit in unrolled loop')
                    self.st = nx
                if inc is not None: self.ev(inc, env)
        seed = set()
        for e in (c, inc, bodyst): collect_assigned(e, env, seed)
        def body(env2):
            outs = self.stmt(bodyst, env2)
            res = []
            for g, st, oc in outs:
                self.st = st
                if oc[0] in (NORMAL, CONT) and inc is not None: self.ev(inc, env)
                res.append((g, self.st, oc))
            return res
        return self.sym_loop(s, env, (lambda env2: self.cond(c, env)) if c is not None else (lambda env2: TRUE), body, parallel, seed)

    def sym_loop(self, s, env, condf, body, parallel, seed):
        pre = self.st
        line = s.get('l', 0)
        loop = 'L%d' % next(self.nid)
        cells = set(x for x in seed if x in pre.c and isinstance(pre.c[x], (T, Ptr, It)))
        objs = set()
        grown = set(); appended = []
        self.loop_depth += 1
        try:
            # ---- discovery: which pre-existing cells/objects change
            for attempt in range(9):
                self.quiet += 1
                try:
                    ph, post, cv, _ = self.run_iter(pre, cells, objs, {}, loop, condf, body, env, None)
                finally:
                    self.quiet -= 1
                newc = set(c for c in pre.c if c not in cells and post.c.get(c) is not pre.c[c] and pre.c[c] is not UNINIT
                           and not same_val(post.c.get(c), pre.c[c]))
                newo = set(); again = []
                for oid in pre.o:
                    a, b = pre.o[oid], post.o.get(oid)
                    if oid in self.open_files(pre): continue
                    if isinstance(a, MapO) and not a.items and isinstance(b, MapO) and len(b.items) == 1 and isinstance(b.items[0][0], T): grown.add(oid); continue
                    if isinstance(a, Seq) and not a.items and not a.fixed and isinstance(b, Seq) and len(b.items) == 1 and isinstance(b.items[0], tuple) and b.items[0][0] == 'o': grown.add(oid); continue
                    if a is not b and self.growing(a, b): again.append(oid); continue
                    if a is not b:
                        for path in diff_obj(a, b):
                            if (oid, path) not in objs: newo.add((oid, path))
                if again:
                    # a vector of numbers is appended to: it lives in a region that grows with it
                    pre = pre.clone(); self.st = pre
                    for oid in again:
                        a = pre.o[oid]
                        rid = self.new_region('vector', None, 'Real' if is_float(a.et) else 'Int')
                        self.regions[rid].grow = True
                        for i, x in enumerate(a.items): self.write(rid, (num(i),), x)
                        pre.o[oid] = SymSeq(a.et, rid, num(len(a.items)))
                        appended.append(oid)
                    continue
                if not newc and not newo:
                    modified = set(rid for rid in pre.r if len(post.r[rid]) > len(pre.r[rid]) + 1)
                    break
                cells |= newc; objs |= newo
            else: raise Unsupported('loop discovery does not converge')
            # ---- closed forms
            t = fresh('t')
            closed = {}
            allph = dict(ph)          # placeholder term -> (kind,key,init)
            posts = {}
            for p, (kind, key, init, part) in ph.items():
                v = post.c[key] if kind == 'c' else get_path(post.o[key[0]], key[1])
                posts[p] = scalar_part(v, part)
                if posts[p] is None: raise Unsupported('loop-carried value changes kind')
            isq = lambda a: a.op == 'app' and isinstance(a.args[0], str) and a.args[0][0] == '?'
            if any(atoms(e, isq) for e in posts.values()) and self.quiet == 0:
                # a carried value depends on what the same iteration wrote: once more with resolved reads
                self.quiet += 1; qr, self.quiet_reads = self.quiet_reads, False
                try:
                    _, post_, cv_, _ = self.run_iter(pre, cells, objs, {p: p for p in ph}, loop, condf, body, env, ph, modified)
                    for p, (kind, key, init, part) in ph.items():
                        v = scalar_part(post_.c[key] if kind == 'c' else get_path(post_.o[key[0]], key[1]), part)
                        if atoms(posts[p], isq) and v is not None: posts[p] = v
                except (Unsupported, DeadPath): pass
                finally: self.quiet -= 1; self.quiet_reads = qr
            # what this loop does not modify keeps its value
            def res0(a):
                if a.op == 'app' and isinstance(a.args[0], str) and a.args[0].startswith('@%s:' % loop):
                    rid = a.args[0][len(loop) + 2:]
                    if rid not in modified: return self.read(rid, tuple(map_atoms(i, res0) for i in a.args[1:]), pre.r[rid])
                return None
            for p in posts:
                if has_rt(posts[p]): posts[p] = map_atoms(posts[p], res0)
            pend = dict(posts); self.cur_loop = loop
            phs = frozenset(ph)
            progress = True
            lastval = {}
            while pend and progress:
                progress = False
                for p in list(pend):
                    e = subst(pend[p], {q: closed[q] for q in closed})
                    init = ph[p][2]
                    r = self.recurrence(p, e, init, t, phs - set(closed))
                    if r is not None:
                        closed[p] = r
                        del pend[p]; progress = True
            if pend: self.argmax_pairs(pend, closed, ph, t, phs)
            if pend:
                # values overwritten before use: previous iteration's value
                for p in list(pend):
                    e = subst(pend[p], {q: closed[q] for q in closed})
                    if not (e.fv & (phs - set(closed))):
                        if has_rt(e): closed[p] = fresh('stale', None, e.sort)
                        else: closed[p] = ite(eq0(t), ph[p][2], subst(e, {t: sub(t, ONE)}))
                        lastval[p] = e
                        del pend[p]
            if pend: raise Unsupported('no closed form for %d loop-carried values at line %s: %s' % (len(pend), line, [(x, y) for x, y in pend.items()]))
            # ---- trip count
            cc = subst(cv, closed)
            n = self.trip_count(cc, t)
            if n is None: raise Unsupported('trip count of loop at line %s: %s' % (line, cc))
            tt = fresh('t', n)
            closed = {p: subst(e, {t: tt}) for p, e in closed.items()}
            # ---- real iteration
            with PROV.under(gt(n, ZERO)):
                self.iter_vars.append(tt)
                if self.loop_depth == 1: self.deferred = []; self.outer_loop = loop
                if grown: self.map_obs = {}
                nob = len(self.obligs)
                try: ph2, post2, cv2, escaped = self.run_iter(pre, cells, objs, closed, loop, condf, body, env, ph, modified)
                except CppThrow:
                    if self.expect_throw and not self.quiet and not PROV.prove(gt(n, ZERO), (), True): raise Unsupported('exception in a loop that may not run')
                    raise
                finally: self.iter_vars.pop()
                if not self.quiet and cv2 is not TRUE and not PROV.prove(cv2, (), True): raise Unsupported('loop condition at line %s: %s' % (line, cv2))
                # inductiveness of the closed forms
                for p, (kind, key, init, part) in ph.items():
                    v = post2.c[key] if kind == 'c' else get_path(post2.o[key[0]], key[1])
                    v = scalar_part(v, part)
                    want = subst(closed[p], {tt: add(tt, ONE)})
                    if p in lastval:
                        continue
                    if v is not want and not self.quiet:
                        d = sub(v, want) if v.sort != 'Bool' else None
                        if d is None or not (d is ZERO or PROV.prove(eq0(d), (), True)):
                            # sums compare by unfolding one term
                            if not self.unfold_equal(v, want, tt): raise Unsupported('closed form not inductive at line %s: %s vs %s' % (line, v, want))
                    # loop-carried values keep last value exactly
            if escaped:
                if parallel or modified or grown or appended: raise Unsupported('break/return out of a symbolic loop')
                if any(o.status == 'failed' for o in self.obligs[nob:]): raise Unsupported('obligation of an iteration that may not be reached')
            if parallel:
                for c in pre.c:
                    if pre.c[c] is UNINIT and post2.c.get(c) is not UNINIT: self.race_failed('no variable shared by the iterations of the parallel loop is written by them', None, None, tt, tt)
            st = self.finish_loop(pre, post2, ph, closed, lastval, tt, n, loop, parallel, cells, objs, line)
            if grown and self.quiet: raise Unsupported('nested loop fills a map')
            known = tuple(x for f in self.survive for x in conjuncts(f)) if self.may_throw and self.loop_depth == 1 else ()
            for oid in self.open_files(pre):
                from . import files as FM
                x, y = pre.o[oid], post2.o[oid]
                with PROV.under(*known): st.o[oid] = FM.loop_end(self, x, y, tt, n)
            if known: self.survived = self.survived + ((tt, n, known),)
            if self.loop_depth == 1: self.survive = []
            for oid in grown: fam.grow(self, oid, tt, n, pre, post2, st)
        finally:
            self.loop_depth -= 1
        self.st = st
        from .natives import for_each_write, Rng
        for oid in appended:
            o = st.o[oid]
            if not PROV.prove(ge0(o.n), (), True): raise Unsupported('length of an appended vector')
            rid = self.new_region('vector', o.n, self.regions[o.rid].sort)
            for_each_write(self, Rng(self, Ptr(rid, (), ZERO)), o.n, lambda i: self.read(o.rid, (i,)), 'write')
            st.o[oid] = SymSeq(o.et, rid, o.n)
        # the final, failing evaluation of the condition (side effects)
        self.quiet += 1; self.strict_unsigned += 1
        try:
            condf(env)
        finally: self.quiet -= 1; self.strict_unsigned -= 1
        return self.stopped(pre, escaped, tt, n) if escaped else self.one()

    def stopped(self, pre, escaped, tt, n):
        """a loop left early: E(t) says that iteration t leaves it; the first such t is the first maximum of [E(t)]"""
        E = or_(*[g for g, _, _ in escaped])
        with PROV.under(gt(n, ZERO)):
            if has_rt(E): raise Unsupported('break/return decided by what the loop wrote')
            if PROV.prove(not_(E), (), True): return self.one()
        x = fresh('x', n)
        body = ite(subst(E, {tt: x}), ONE, ZERO)
        found = gt(mk_sum([(x, n)], TRUE, body), ZERO)
        first = mk_max(x, n, body, 'argmax')
        at = lambda e: subst(e, {tt: first}) if tt in e.fv else e
        def val(v):
            if v is None or v is UNINIT or v is NULL: return v
            if isinstance(v, (T, Ptr, It)):
                parts = {k: at(q) for k, q in scalar_parts(v)}
                if any(has_rt(q) for q in parts.values()): raise Unsupported('value computed by the iteration that leaves the loop')
                return with_parts(v, parts)
            if isinstance(v, (Str, Clo, Handle, PObj)): return v
            raise Unsupported('value kept by the iteration that leaves the loop: %s' % (v,))
        leaves = []
        for g, s2, oc in escaped:
            st = pre.clone()
            for c in pre.c:
                if s2.c[c] is not pre.c[c]: st.c[c] = val(s2.c[c])
            if oc[0] == RET and oc[1] is not None:
                v = oc[1]
                if isinstance(v, tuple) and v and v[0] == 'v': v = ('v', val(v[1]))
                elif isinstance(v, tuple):
                    if v[0] == 'c' and v[1] in pre.c: pass
                    else: raise Unsupported('value returned by the iteration that leaves the loop')
                else: v = val(v)
                oc = (RET, v)
            else: oc = oc if oc[0] == RET else (NORMAL,)
            leaves.append((at(g), st, oc))
        end = self.st
        if self.loop_depth == 0:
            if not self.branch(found): return self.one()
            for g, st, oc in leaves[:-1]:
                if self.branch(g): self.st = st; return self.one(oc)
            self.st = leaves[-1][1]
            return self.one(leaves[-1][2])
        out = [(and_(found, g), st, oc) for g, st, oc in leaves[:-1]] + [(found, leaves[-1][1], leaves[-1][2]), (not_(found), end, (NORMAL,))]
        return out

    def growing(self, a, b):
        return isinstance(a, Seq) and not a.fixed and is_scalar_type(a.et) and (isinstance(b, SymSeq) or isinstance(b, Seq) and len(b.items) > len(a.items))
    fs = None
    def open_files(self, st):
        if self.fs is None: return ()
        from . import files as FM
        return [oid for oid, o in st.o.items() if isinstance(o, FM.FileO)]
    def unfold_equal(self, v, want, tt):
        """products and sums over s < tt+1 unfold to the product over s < tt times the last factor"""
        def f(a):
            if a.op in ('argmax', 'argmin', 'max', 'min') and a.args[1] is TRUE and tt in a.args[0][0][1].fv:
                (x, m), = a.args[0]; b = a.args[2]
                m = sub(m, ONE)
                if not PROV.prove(ge0(m), (), True): return None
                am = mk_max(x, m, b, a.op)
                best = am if a.op in ('max', 'min') else mk_max(x, m, b, a.op[3:]) if via_max else subst(b, {x: am})
                nb = subst(b, {x: m})
                new = ite(gt(nb, best) if a.op in ('max', 'argmax') else lt(nb, best), nb if a.op in ('max', 'min') else m, am)
                return ite(eq0(m), nb if a.op in ('max', 'min') else ZERO, new)
            if a.op == 'prod':
                vs, g, b = a.args
                if g is TRUE and len(vs) == 1 and vs[0][1] is add(tt, ONE):
                    return mul(mk_prod(vs[0][0], tt, b), subst(b, {vs[0][0]: tt}))
            if a.op == 'sum':
                vs, g, b = a.args
                for k, (v_, m) in enumerate(vs):
                    if m is not add(tt, ONE) or any(v_ in m2.fv for _, m2 in vs): continue
                    s = {v_: tt}
                    rest = [x for j, x in enumerate(vs) if j != k]
                    last = mk_sum(rest, subst(g, s), subst(b, s)) if rest else ite(subst(g, s), subst(b, s), ZERO)
                    return add(mk_sum(list(vs[:k]) + [(v_, tt)] + list(vs[k + 1:]), g, b), last)
            return None
        from . import spec as SP
        for via_max in (False, True):
            w = map_atoms(want, f)
            if w is want: return False
            d = sub(v, w)
            if d is ZERO or PROV.prove(eq0(d), (), True): return True
            if v.sort != 'Bool' and SP.equal(v, w): return True
            if not atoms(want, lambda a: a.op in ('argmax', 'argmin')): return False
        return False

    def run_iter(self, pre, cells, objs, closed, loop, condf, body, env, ph0, modified=None):
        """execute one arbitrary iteration. closed: placeholder->term ({} in discovery)"""
        st = pre.clone()
        ph = {}
        if ph0 is None:
            for c in sorted(cells):
                for part, init in scalar_parts(pre.c[c]):
                    p = fresh('c', None, init.sort); ph[p] = ('c', c, init, part)
            for oid, path in sorted(objs, key=repr):
                for part, init in scalar_parts(get_path(pre.o[oid], path)):
                    p = fresh('c', None, init.sort); ph[p] = ('o', (oid, path), init, part)
        else: ph = ph0
        byloc = {}
        for p, (kind, key, init, part) in ph.items():
            byloc.setdefault((kind, key), {})[part] = closed.get(p, p)
        for (kind, key), parts in byloc.items():
            if kind == 'c': st.c[key] = with_parts(pre.c[key], parts)
            else: st.o[key[0]] = set_path(st.o[key[0]], key[1], with_parts(get_path(pre.o[key[0]], key[1]), parts))
        for rid in list(st.r):
            if modified is None or rid in modified: st.r[rid] = st.r[rid] + (Mark(loop),)
        files_ = self.open_files(pre)
        if files_:
            from . import files as FM
            tt = self.iter_vars[-1] if ph0 is not None else fresh('t')
            for oid in files_: st.o[oid] = FM.loop_begin(self, pre.o[oid], tt)
        self.st = st
        cv = condf(env)
        env2 = dict_env(env)
        if ph0 is None: facts = conjuncts(cv)
        else: facts = []
        with PROV.under(*facts):
            if self.may_throw and self.loop_depth == 1: self.survive = []; self.iter_path = len(PROV.path)
            outs = body(env2)
        escaped = [o for o in outs if o[2][0] in (BREAK, RET)]
        cont = [o for o in outs if o[2][0] in (NORMAL, CONT)]
        if not cont: raise Unsupported('a loop that always stops in its first iteration')
        if escaped:
            if self.may_throw or files_: raise Unsupported('break/return out of a symbolic loop')
            for g, s2, _ in escaped:
                if any(s2.o[x] is not st.o[x] for x in st.o if x in pre.o) or any(len(s2.r[x]) > len(st.r[x]) for x in pre.r): raise Unsupported('break/return out of a loop after a write')
        for g, s2, _ in cont: fam.check_frozen(self, s2)
        st2 = cont[-1][1]
        for g, s2, _ in reversed(cont[:-1]): st2 = self.merge(g, s2, st2)
        return ph, st2, cv, escaped

    def recurrence(self, p, e, init, t, open_):
        """closed form (value at the start of iteration t) of p' = e"""
        if e is p: return init
        others = open_ - {p}
        if e.fv & others: return None
        if p not in e.fv: return None            # handled as last value
        if e.sort == 'Bool': return None
        d = sub(e, p)
        d = distribute_ite(e, p)
        if d is not None and p not in d.fv:
            if t not in d.fv and not has_rt(d): return add(init, mul(d, t))
            s = fresh('s', t)
            body = subst(d, {t: s})
            if has_rt(d):
                return add(init, mk_sum_raw(s, t, body))
            return add(init, mk_sum([(s, t)], TRUE, body))
        # product
        pp = poly_of(e)
        if len(pp) == 1:
            (m, c), = pp.items()
            dm = dict(m)
            if dm.get(p) == 1:
                f = div(e, p)
                if p not in f.fv:
                    s = fresh('s', t)
                    return mul(init, mk_prod(s, t, subst(f, {t: s})))
        # running max:  p' = ite(x > p, x, p)
        if e.op == 'ite':
            c, a, b = e.args
            for (x, other, cond) in ((a, b, c), (b, a, not_(c))):
                if other is p and p not in x.fv and not self.own_rt(x):
                    for op, tests in (('max', (gt(x, p), ge(x, p))), ('min', (lt(x, p), le(x, p)))):
                        if cond in tests:
                            s = fresh('s', t)
                            mx = mk_max(s, t, subst(x, {t: s}), op)
                            return ite(eq0(t), init, ite(gt(mx, init) if op == 'max' else lt(mx, init), mx, init))
        return self.argmax_rec(p, e, init, t)

    def argmax_rec(self, p, e, init, t):
        """p' = ite(g(t + k) > g(p), t + k, p): the position of the first maximum so far"""
        if e.op != 'ite': return None
        c, a, b = e.args
        for y, other, cc in ((a, b, c), (b, a, not_(c))):
            if other is not p or p in y.fv or cc.op not in ('gt0', 'ge0') or p not in cc.fv: continue
            if cc.op == 'ge0' and cc.args[0].sort != 'Int': continue
            k = sub(y, t)
            if t in k.fv: continue
            d = cc.args[0] if cc.op == 'gt0' else add(cc.args[0], ONE)
            W = from_poly({m: q for m, q in poly_of(d).items() if any(p in x.fv for x, _ in m)})
            U = sub(d, W)
            if self.own_rt(d): continue
            for op, g in (('argmax', neg(W)), ('argmin', W)):
                if subst(g, {p: y}) is not (U if op == 'argmax' else neg(U)): continue
                s = fresh('s', add(t, ONE))
                body = subst(g, {p: add(init, s)})
                if init is sub(k, ONE): return add(init, mk_max(s, add(t, ONE), body, op))
                if init is k: return add(init, ite(eq0(t), ZERO, mk_max(s, t, body, op)))
        return None
    def argmax_pairs(self, pend, closed, ph, t, phs):
        """q' = ite(U > q, U, q) is known; p' = ite(U > q, t + k, p) is where it was reached"""
        for p in list(pend):
            e = subst(pend[p], {q: v for q, v in closed.items() if not atoms(v, lambda x: x.op in ('max', 'min'))})
            if e.op != 'ite': continue
            c, a, b = e.args
            for y, other, cc in ((a, b, c), (b, a, not_(c))):
                if other is not p or p in y.fv or p in cc.fv: continue
                k = sub(y, t)
                if t in k.fv: continue
                for q in phs:
                    if q is p or q not in cc.fv or q not in closed: continue
                    for op, U in (('argmax', add(cc.args[0], q)), ('argmin', sub(q, cc.args[0]))) if cc.op == 'gt0' else ():
                        if U.fv & phs or self.own_rt(U): continue
                        q0, init = ph[q][2], ph[p][2]
                        s = fresh('s', add(t, ONE))
                        if init is sub(k, ONE) and PROV.prove(eq0(sub(q0, subst(U, {t: num(-1)}))), (), True):
                            closed[p] = add(init, mk_max(s, add(t, ONE), subst(U, {t: sub(s, ONE)}), op))
                            closed[q] = mk_max(s, add(t, ONE), subst(U, {t: sub(s, ONE)}), op[3:])
                        elif init is k:
                            closed[p] = add(init, ite(eq0(t), ZERO, mk_max(s, t, subst(U, {t: s}), op)))
                        else: continue
                        pend.pop(p, None); break
                    if p not in pend: break
                if p not in pend: break

    def own_rt(self, x):
        """reads what this very loop may have written"""
        return bool(atoms(x, lambda a: a.op == 'app' and isinstance(a.args[0], str) and (a.args[0][0] == '?' and not self.quiet or a.args[0].startswith('@%s:' % self.cur_loop))))

    def trip_count(self, c, t):
        """number of iterations n: cond true exactly for t < n"""
        if c is FALSE: return ZERO
        if c.op == 'ge0':
            p = c.args[0]
            pp = poly_of(p)
            k = pp.get(((t, 1),), None)
            if k is None:
                # t times something symbolic (stride)
                coef = ZERO; rest = ZERO
                for m, cc in pp.items():
                    d = dict(m)
                    if t in d:
                        if d[t] != 1: return None
                        del d[t]
                        coef = add(coef, from_poly({tuple(sorted(d.items(), key=lambda q: q[0].id)): cc}))
                    else: rest = add(rest, from_poly({m: cc}))
                step = neg(coef)
                if t in rest.fv or t in step.fv: return None
                if not PROV.prove(ge0(sub(step, ONE)), (), True): return None
                n = add(tdiv(rest, step), ONE)
                if PROV.prove(ge0(rest), (), True): return n
                return ite(ge0(rest), n, ZERO)
            rest = sub(p, scale(t, k))
            if t in rest.fv: return None
            if k >= 0: return None
            n = add(rest, ONE) if k == -1 else add(idiv(rest, num(-k)), ONE)
            if PROV.prove(ge0(n), (), False) or PROV.prove(ge0(n), (), True): return n
            return ite(ge0(rest), n, ZERO)
        if c.op == 'not' and c.args[0].op == 'eq0':
            p = c.args[0].args[0]
            k = poly_of(p).get(((t, 1),), None)
            if k not in (1, -1): return None
            rest = sub(p, scale(t, k))
            if t in rest.fv: return None
            n = scale(rest, -k)
            if PROV.prove(ge0(n), (), True): return n
            return None
        if c.op == 'and':
            cs = [x for x in c.args if not PROV.prove(x, (), False)]
            if len(cs) == 1: return self.trip_count(cs[0], t)
        return None

    def finish_loop(self, pre, post, ph, closed, lastval, tt, n, loop, parallel, cells, objs, line):
        """state after all n iterations, from the state after an arbitrary iteration tt"""
        out = pre.clone()
        # objects/regions created inside the loop are dropped; kept only if unreachable
        final = {}
        for p, (kind, key, init, part) in ph.items():
            final[p] = subst(closed[p], {tt: n})
        # --- memory
        prefix = '@%s:' % loop
        is_rt = lambda a: a.op == 'app' and isinstance(a.args[0], str) and a.args[0].startswith(prefix)
        bodyup = {}
        for rid in pre.r:
            log = post.r[rid]
            k = len(pre.r[rid])
            if len(log) > k and not isinstance(log[k], Mark): raise Unsupported('write missed by loop discovery')
            ups = log[k+1:]
            if ups: bodyup[rid] = list(ups)
        if not self.quiet:
            for rid in post.r:
                if rid not in pre.r and self.regions[rid].fam and rid.split('#')[0] in ('malloc', 'freed'):
                    if parallel or self.loop_depth > 1: raise Unsupported('malloc in this loop')
                    bodyup[rid] = list(post.r[rid])
        pvals = {}
        for p in lastval: pvals[p] = scalar_part((post.c[ph[p][1]] if ph[p][0] == 'c' else get_path(post.o[ph[p][1][0]], ph[p][1][1])), ph[p][3])
        if self.quiet:
            # discovery: only the shape of the effect matters
            for rid, ups in bodyup.items():
                out.r[rid] = pre.r[rid] + tuple(QU((), TRUE, (ZERO,) * self.regions[rid].arity, ZERO, 'havoc') for _ in [0])
            for p, (kind, key, init, part) in ph.items(): pass
            self.set_finals(out, pre, ph, final, pvals, tt, n, lastval)
            return out
        # a[i] = a[i] + e  ->  add
        for rid, ups in bodyup.items():
            for j, q in enumerate(ups):
                if q.kind == 'set':
                    rt = app(prefix + rid, q.idx, self.regions[rid].sort)
                    if not atoms(q.val, lambda a: a is rt): continue
                    old = self._read(rid, q.idx, post.r[rid], len(pre.r[rid]) + j) if rid in pre.r else ZERO
                    d = sub(q.val, old)
                    if atoms(d, lambda a: a is rt):
                        d = distribute_ite(q.val, old) if old is rt else None
                    if d is not None:
                        ups[j] = QU(q.vs, q.guard, q.idx, d, 'add', q.line)
        # read-throughs that remain
        for rid, ups in bodyup.items():
            for j, q in enumerate(ups):
                if q.val is not None and atoms(q.val, lambda a: a.op in ('argmax', 'argmin', 'max', 'min') and bool(atoms(a, is_rt))):
                    from . import spec as SP
                    with PROV.under(gt(n, ZERO), q.guard): ups[j] = QU(q.vs, q.guard, q.idx, SP.norm(q.val, True), q.kind, q.line)
        rts = {}
        def scan(x):
            for a in atoms(x, is_rt): rts[a] = True
        for rid, ups in bodyup.items():
            for q in ups:
                for x in (q.guard, q.val) + tuple(q.idx):
                    if x is not None: scan(x)
                for v, m in q.vs: scan(m)
        for p in closed: scan(closed[p])
        for p in pvals: scan(pvals[p])
        for p in ph:
            v = post.c[ph[p][1]] if ph[p][0] == 'c' else get_path(post.o[ph[p][1][0]], ph[p][1][1])
            sp = scalar_part(v, ph[p][3])
            scan(sp)
        t2 = fresh('t', n)
        lowert = lt(t2, tt)
        memrec = {}
        if self.loop_depth == 1:
            for fr, idx, path, text, ln in self.deferred:       # no earlier iteration, nor the code before the loop, released it
                self.line = ln
                save = PROV.path; PROV.path = list(path)
                try:
                    ok = all(disjoint_dir(q.map(lambda x: subst(x, {tt: t2})), idx, t2, tt, parallel) for q in bodyup.get(fr, []))
                    ok = ok and fr in pre.r and PROV.prove(eq0(self.read(fr, idx, pre.r[fr])), (), True)
                finally: PROV.path = save
                self.record('use-after-free', text, 'discharged' if ok else 'failed')
            self.deferred = []
        for a in list(rts):
            rid = a.args[0][len(prefix):]
            for q in bodyup.get(rid, []):
                q2 = q.map(lambda x: subst(x, {tt: t2}))
                order = not_(eq0(sub(t2, tt))) if parallel else lowert
                if not disjoint_dir(q2, a.args[1:], t2, tt, parallel):
                    if parallel: self.race_failed('iterations of the parallel loop do not read what others write (%s)' % self.regions[rid].name, q, QU((), TRUE, a.args[1:], None, 'set'), tt, t2)
                    c = self.memory_recurrence(rid, a, bodyup[rid], pre, tt, is_rt)
                    if c is not None: memrec[a] = c; continue
                    raise Unsupported('loop-carried memory dependence on %s at line %s: %s vs %s' % (rid, line, a, q))
            if parallel: self.record('race-free', 'iterations of the parallel loop do not read what others write (%s)' % self.regions[rid].name, 'discharged')
        def res(a):
            if is_rt(a):
                if a in memrec: return memrec[a]
                rid = a.args[0][len(prefix):]
                idx = tuple(map_atoms(i, res) for i in a.args[1:])
                return self.read(rid, idx, pre.r[rid])
            return None
        def fix(x): return map_atoms(x, res) if x is not None and atoms(x, is_rt) else x
        # --- generalise updates over the iteration variable
        for rid, ups in bodyup.items():
            ups = [q.map(fix) for q in ups]
            new = self.generalise(rid, ups, tt, n, parallel, line) if ups else []
            out.r[rid] = pre.r.get(rid, ()) + tuple(new)
        closed2 = {p: fix(subst(e, {})) for p, e in closed.items()}
        final = {p: subst(closed2[p], {tt: n}) for p in closed2}
        pvals = {p: fix(e) for p, e in pvals.items()}
        if parallel:
            for p in ph:
                kind, key, init, part = ph[p]
                if closed[p] is not init:
                    # the loop counter itself is private
                    if kind == 'c' and is_counter(closed[p], tt): continue
                    self.race_failed('no variable shared by the iterations of the parallel loop is written by them', None, None, tt, t2)
        self.set_finals(out, pre, ph, final, pvals, tt, n, lastval)
        return out

    def memory_recurrence(self, rid, a, ups, pre, tt, is_rt):
        """m[w(t)] = f(m[w(t-1)]): what an iteration reads is what the one before it wrote; closed form of the value read"""
        if len(ups) != 1 or ups[0].kind != 'set' or ups[0].vs or ups[0].guard is not TRUE or rid not in pre.r: return None
        q, idx = ups[0], a.args[1:]
        prev = [subst(i, {tt: sub(tt, ONE)}) for i in q.idx]
        if not all(x is y or PROV.prove(eq0(sub(x, y)), (), True) for x, y in zip(prev, idx)): return None
        if any(atoms(i, is_rt) for i in idx) or atoms(q.val, lambda x: is_rt(x) and x is not a): return None
        p = fresh('c', None, a.sort)
        e = map_atoms(q.val, lambda x: p if x is a else None)
        init = self.read(rid, tuple(subst(i, {tt: ZERO}) for i in idx), pre.r[rid])
        c = self.recurrence(p, e, init, tt, frozenset([p]))
        if c is None: return None
        v, want = subst(e, {p: c}), subst(c, {tt: add(tt, ONE)})
        if not (v is want or PROV.prove(eq0(sub(v, want)), (), True) or self.unfold_equal(v, want, tt)): return None
        if not PROV.prove(eq0(sub(subst(c, {tt: ZERO}), init)), (), True): return None
        return c

    def set_finals(self, out, pre, ph, final, pvals, tt, n, lastval):
        byloc = {}
        for p, (kind, key, init, part) in ph.items():
            if p in lastval:
                last = subst(pvals[p], {tt: sub(n, ONE)})
                v = last if PROV.prove(ge0(sub(n, ONE)), (), False) else ite(gt(n, ZERO), last, init)
            else: v = final[p]
            byloc.setdefault((kind, key), {})[part] = v
        for (kind, key), parts in byloc.items():
            if kind == 'c': out.c[key] = with_parts(pre.c[key], parts)
            else: out.o[key[0]] = set_path(out.o[key[0]], key[1], with_parts(get_path(pre.o[key[0]], key[1]), parts))

    def race_failed(self, text, w, a, tt, t2):
        """two iterations tt != t2 touch the same element: search a concrete pair"""
        if self.quiet: return
        if w is None:
            self.record('race-free', text, 'failed', None, 'every iteration writes the same variable')
            cex = {'iterations': 'any two', 'line': self.line}
        else:
            w2 = w.map(lambda x: subst(x, {tt: t2})) if not any(t2 in (x.fv if x is not None else ()) for x in (w.guard,) + w.idx) else w
            nv, rest = rename_vs(w2.vs, [w2.guard] + list(w2.idx))
            c = and_(not_(eq(tt, t2)), a.guard, rest[0], *[eq(x, y) for x, y in zip(a.idx, rest[1:])])
            self.record('race-free', text, 'failed', None, 'iterations %s and %s touch the same element: %s ; %s' % (tt, t2, a, w2))
            cex = self.try_refute(not_(c))
        if cex:
            for o in self.obligs:
                if o.kind == 'race-free' and o.text == text and o.status == 'failed' and o.refuted is None: o.refuted = cex
    def generalise(self, rid, ups, tt, n, parallel, line):
        reg = self.regions[rid]
        pos = gt(n, ZERO)
        t2 = fresh('t', n)
        # cross-iteration disjointness (t2 != tt); adds commute with adds
        def indep(a, b):
            b2 = b.map(lambda x: subst(x, {tt: t2}))
            return disjoint_dir(b2, None, t2, tt, True, a)
        ok = True
        for i, a in enumerate(ups):
            for b in ups[i:]:
                if a.kind == 'add' and b.kind == 'add' and not parallel: continue
                if not indep(a, b): ok = False; bad = (a, b); break
            if not ok: break
        if parallel:
            what = 'iterations of the parallel loop write disjoint elements (%s)' % reg.name
            if ok: self.record('race-free', what, 'discharged')
            else: self.race_failed(what, bad[1], bad[0], tt, t2)
        if ok:
            out = []
            for q in ups:
                vs = [(v, m) for v, m in q.vs]
                out.append(QU([(tt, n)] + vs, q.guard, q.idx, q.val, q.kind, q.line))
            return out
        # same elements rewritten by every iteration: the last iteration wins
        if all(q.kind == 'set' and not any(tt in i.fv for i in q.idx) and tt not in q.guard.fv and not any(tt in m.fv for v, m in q.vs) for q in ups):
            last = sub(n, ONE)
            return [QU(q.vs, and_(q.guard, pos), q.idx, subst(q.val, {tt: last}), 'set', q.line) for q in ups]
        # give up on the contents of these elements
        out = []
        for q in ups:
            out.append(QU([(tt, n)] + list(q.vs), q.guard, q.idx, None, 'havoc', q.line))
        return [QU(q.vs, q.guard, q.idx, ZERO, 'havoc', q.line) for q in out]

    # ---------------------------------------------------------- expressions
    def cond(self, e, env):
        v = self.rvalue(self.ev(e, env))
        return self.truth(v)
    def truth(self, v):
        if isinstance(v, T): return v if v.sort == 'Bool' else ne(v, ZERO)
        if v is NULL: return FALSE
        if isinstance(v, (Ptr, PObj, Str, Clo, Handle)): return TRUE
        raise Unsupported('truth value of %s' % (v,))

    def ev(self, e, env):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None: raise Unsupported('expression %s %s' % (e['k'], e.get('cls', '')))
        if 'l' in e: self.line = e['l']
        return m(e, env)
    def rv(self, e, env): return self.rvalue(self.ev(e, env))

    def e_int(self, e, env): return num(int(e['v']))
    def e_bool(self, e, env): return TRUE if e['v'] else FALSE
    def e_flt(self, e, env):
        v = e['v']
        s = str(v).lower()
        if 'inf' in s: return neg(INF) if s.startswith('-') else INF
        if abs(float.fromhex(v) if '0x' in s else float(v)) == 3.4028234663852886e+38: return neg(INF) if s.startswith('-') else INF
        if 'nan' in s: raise Unsupported('nan literal')
        f = float.fromhex(v) if isinstance(v, str) and '0x' in s else float(v)
        fr = Fraction(f)
        # decimal literals such as 0.1f are kept as written values of the type
        return num(fr)
    def e_str(self, e, env): return Str(e['v'])
    def e_null(self, e, env): return NULL
    def e_this(self, e, env): return PObj(env['this'])
    def e_fn(self, e, env): return Opaque('fn:' + e['f']['q'], e['f'])
    def e_temp(self, e, env): return self.ev(e['e'], env)
    def e_zeroinit(self, e, env):
        t = strip(e['t'])
        if t in FLOATS or t in INTS: return FALSE if t == 'bool' else ZERO
        if t.endswith('*'): return NULL
        return self.default_value(t)
    def e_var(self, e, env):
        i = e['id']
        if i in env: return env[i]
        if e.get('init') is not None: return self.ev(e['init'], env)
        if tname(e.get('t', '')) == 'std::_Placeholder': return ('v', Opaque('std::placeholders::' + e['name']))
        raise Unsupported('unknown variable ' + e.get('name', '?'))
    def e_member(self, e, env):
        b = self.ev(e['b'], env)
        if e.get('arrow'):
            p = self.rvalue(b)
            b = self.deref(p)
        elif isinstance(b, tuple) and b[0] in ('c', 'f', 's', 'v'): b = self.load(b)
        o = self.obj(b)
        if not isinstance(o, Rec): raise Unsupported('member %s of %s' % (e['name'], o))
        if e['name'] not in o.f: raise Unsupported('no member %s in %s' % (e['name'], o.cls))
        v = o.f[e['name']]
        ft = None
        if isinstance(v, tuple) and v:
            if v[0] == 'o': return v
            if v[0] in ('c', 'f', 's', 'm'):   # reference member
                return v
        return ('f', b[1], e['name'])

    def deref(self, p):
        if isinstance(p, PObj): return p.loc
        if isinstance(p, Ptr): return ('m', p.rid, p.pre + (p.off,))
        if p is NULL:
            self.record('null-deref', 'pointer is not null', 'failed', FALSE)
            raise Unsupported('null dereference')
        if isinstance(p, It):
            i, o = p.i, self.st.o[p.oid]
            if isinstance(i, T) and i.op == 'ite' and isinstance(o, FamMap):
                c = self.decide(i.args[0])
                if c is TRUE or c is FALSE: i = i.args[1 if c is TRUE else 2]
                self.oblige('bounds', and_(ge0(i), gt(o.n, i)), 'the iterator dereferenced is not end()')
            return self.elem(('o', p.oid), i)
        raise Unsupported('deref of %s' % (p,))

    def e_index(self, e, env):
        b = self.rv(e['a'][0], env); i = self.rv(e['a'][1], env)
        if isinstance(b, Ptr): return ('m', b.rid, b.pre + (add(b.off, i),))
        if isinstance(b, T) and isinstance(i, Ptr): return ('m', i.rid, i.pre + (add(i.off, b),))
        if isinstance(b, tuple) and b[0] == 'o': return self.elem(b, i)
        raise Unsupported('index of %s' % (b,))

    def e_un(self, e, env):
        op = e['op']
        if op in ('++', '--'):
            loc = self.ev(e['e'], env)
            old = self.load(loc)
            new = self.advance(old, ONE if op == '++' else num(-1))
            self.store(loc, new)
            return old if e.get('post') else loc
        if op == '&':
            loc = self.ev(e['e'], env)
            if loc[0] == 'm': return Ptr(loc[1], loc[2][:-1], loc[2][-1])
            return PObj(loc)
        v = self.rv(e['e'], env)
        if op == '*': return v if isinstance(v, (Native, Clo)) else self.deref(v)
        if op == '!': return not_(self.truth(v))
        if op == '-': return neg(self.numv(v))
        if op == '+': return self.numv(v)
        raise Unsupported('unary ' + op)
    def numv(self, v):
        if not isinstance(v, T): raise Unsupported('number expected, got %s' % (v,))
        return ite(v, ONE, ZERO) if v.sort == 'Bool' else v
    def advance(self, v, k):
        if isinstance(v, T): return add(self.numv(v), k)
        if isinstance(v, Ptr): return Ptr(v.rid, v.pre, add(v.off, k))
        if isinstance(v, It): return It(v.oid, sub(v.i, k) if v.rev else add(v.i, k), v.rev)
        raise Unsupported('increment of %s' % (v,))

    def arith(self, op, a, b, t):
        if isinstance(a, (Ptr, It)) and isinstance(b, T):
            if op == '+': return self.advance(a, self.numv(b))
            if op == '-': return self.advance(a, neg(self.numv(b)))
        if isinstance(b, (Ptr, It)) and isinstance(a, T) and op == '+': return self.advance(b, self.numv(a))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
            if op == '-': return sub(a.off, b.off)
        if isinstance(a, It) and isinstance(b, It) and a.oid == b.oid and op == '-':
            return sub(b.i, a.i) if a.rev else sub(a.i, b.i)
        a, b = self.numv(a), self.numv(b)
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/':
            if is_int(t): return self.int_div(a, b)
            if b is ZERO: raise Unsupported('division by literal zero')
            return div(a, b)
        if op == '%': return self.int_mod(a, b)
        raise Unsupported('operator ' + op)

    def int_div(self, a, b):
        self.oblige('division', not_(eq0(b)), 'integer divisor is not zero')
        return tdiv(a, b)
    def int_mod(self, a, b):
        self.oblige('division', not_(eq0(b)), 'integer divisor is not zero')
        if PROV.prove(ge0(sub(b, ONE)), (), True) and PROV.prove(ge0(a), (), True): return imod(a, b)
        return sub(a, mul(b, tdiv(a, b)))

    def compare(self, op, a, b):
        if isinstance(a, T) and isinstance(b, T):
            if a.sort == 'Bool' and b.sort == 'Bool':
                if op == '==': return eq(a, b)
                if op == '!=': return not_(eq(a, b))
            a, b = self.numv(a), self.numv(b)
            return {'==': eq, '!=': ne, '<': lt, '>': gt, '<=': le, '>=': ge}[op](a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
            return self.compare(op, a.off, b.off)
        if isinstance(a, It) and isinstance(b, It) and a.oid == b.oid:
            if a.rev and op not in ('==', '!='): a, b = b, a
            if op in ('==', '!='):
                for x, y in ((a.i, b.i), (b.i, a.i)):
                    if x.op == 'ite':
                        c = x.args[0]
                        with PROV.under(c): p = self.decide(eq(x.args[1], y))
                        with PROV.under(not_(c)): q = self.decide(eq(x.args[2], y))
                        r = or_(and_(c, p), and_(not_(c), q))
                        return r if op == '==' else not_(r)
            return self.compare(op, a.i, b.i)
        if op in ('==', '!='):
            if isinstance(a, Str) and isinstance(b, Str): r = TRUE if a.s == b.s else FALSE
            elif a is NULL or b is NULL: r = TRUE if a is b else FALSE
            elif isinstance(a, (Ptr, PObj)) and isinstance(b, (Ptr, PObj)): r = TRUE if a.key() == b.key() else FALSE
            elif isinstance(a, tuple) and isinstance(b, tuple): return self.obj_eq(a, b) if op == '==' else not_(self.obj_eq(a, b))
            else: raise Unsupported('compare %s %s' % (a, b))
            return r if op == '==' else not_(r)
        raise Unsupported('compare %s %s %s' % (op, a, b))

    witness = ()
    seqeqs = {}
    def content_id(self, o):
        log = self.st.r[o.rid]
        d = self.__dict__.setdefault('_contents', [])
        for i, (r, l) in enumerate(d):
            if r == o.rid and l is log: return i
        d.append((o.rid, log)); return len(d) - 1
    def obj_eq(self, a, b):
        oa, ob = self.obj(a), self.obj(b)
        if isinstance(oa, Seq) and isinstance(ob, Seq):
            if len(oa.items) != len(ob.items): return FALSE
            return and_(*[self.compare('==', x, y) for x, y in zip(oa.items, ob.items)])
        if isinstance(oa, SymSeq) and isinstance(ob, SymSeq):
            if oa.rid == ob.rid and self.st.r[oa.rid] is self.st.r[ob.rid] and oa.n is ob.n: return TRUE
            c = self.decide(eq(oa.n, ob.n))
            if c is FALSE: return FALSE
            if c is TRUE:
                i = fresh('x', oa.n)
                x, y = self.read(oa.rid, oa.pre + (i,)), self.read(ob.rid, ob.pre + (i,))
                if x is y or PROV.prove(eq(x, y), (), False): return TRUE
                for w in self.witness:         # an index at which a goal assumes a difference
                    if PROV.prove(and_(ge0(w), gt(oa.n, w)), (), False):
                        x, y = self.read(oa.rid, oa.pre + (w,)), self.read(ob.rid, ob.pre + (w,))
                        if PROV.prove(not_(eq(x, y)), (), False): return FALSE
            ka, kb = self.content_id(oa), self.content_id(ob)
            if self.may_throw:
                r = app('seqeq', [num(ka), num(kb)] + list(oa.pre) + list(ob.pre), 'Bool')
                self.seqeqs[r] = (oa, ob, self.st.r)
                return and_(c, r)
            return app('seqeq', [num(ka), num(kb)] + list(oa.pre) + list(ob.pre), 'Bool')
        if isinstance(oa, Seq) and isinstance(ob, SymSeq): oa, ob, a, b = ob, oa, b, a
        if isinstance(oa, SymSeq) and isinstance(ob, Seq):
            c = eq(oa.n, num(len(ob.items)))
            c = self.decide(c)
            if c is FALSE: return FALSE
            r = [c]
            for i, y in enumerate(ob.items): r.append(eq(self.read(oa.rid, oa.pre + (num(i),)), y))
            return and_(*r)
        raise Unsupported('object comparison')

    def e_bin(self, e, env):
        op = e['op']
        if op == ',':
            self.ev(e['a'][0], env); return self.ev(e['a'][1], env)
        if op in ('&&', '||'):
            a = self.cond(e['a'][0], env)
            if op == '&&' and a is FALSE: return FALSE
            if op == '||' and a is TRUE: return TRUE
            if (op == '&&' and a is TRUE) or (op == '||' and a is FALSE): return self.cond(e['a'][1], env)
            a = self.decide(a)
            if op == '&&' and a is FALSE: return FALSE
            if op == '||' and a is TRUE: return TRUE
            before = self.st
            snap = self.st.clone()
            with PROV.under(a if op == '&&' else not_(a)):
                b = self.cond(e['a'][1], env)
            return and_(a, b) if op == '&&' else or_(a, b)
        if op == '=':
            rhs = self.ev(e['a'][1], env)
            v = self.rvalue(rhs)
            loc = self.ev(e['a'][0], env)
            lt_ = e['a'][0].get('t', '')
            if isinstance(v, T): v = self.coerce(v, lt_)
            if isinstance(v, tuple) and v[0] == 'o' and loc[0] != 'o': v = self.copy_obj(v)
            self.store(loc, v)
            return loc
        a = self.rv(e['a'][0], env); b = self.rv(e['a'][1], env)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            t = strip(e['a'][0].get('t', ''))
            if t in UNSIGNED and isinstance(a, T) and isinstance(b, T) and (not self.quiet or self.strict_unsigned):
                return self.compare_unsigned(op, self.numv(a), self.numv(b), e['a'])
            return self.compare(op, a, b)
        if op in ('/', '%') and strip(e['t']) in UNSIGNED and not self.quiet and isinstance(a, T):
            if not self.nonneg(self.numv(a)): raise Unsupported('division of an unsigned value that may have wrapped')
        return self.arith(op, a, b, e['t'])

    strict_unsigned = 0
    def nonneg(self, v): return PROV.prove(ge0(v), (), False) or PROV.prove(ge0(v), (), True)
    def compare_unsigned(self, op, a, b, es):
        """unsigned values are kept as the integers they represent modulo 2^N; a comparison looks at
           the residue.  A value that may be negative is the upper half of the range (|v| < 2^(N-1))."""
        if op in ('==', '!='): return self.compare(op, a, b)
        na, nb = self.nonneg(a), self.nonneg(b)
        if na and nb: return self.compare(op, a, b)
        c = self.compare(op, a, b)
        if self.strict_unsigned: raise Unsupported('loop bound on an unsigned value that may have wrapped')
        if nb and not na:       # a < b fails, a > b holds, when a wrapped
            return and_(ge0(a), c) if op in ('<', '<=') else or_(not_(ge0(a)), c)
        if na and not nb:
            return and_(ge0(b), c) if op in ('>', '>=') else or_(not_(ge0(b)), c)
        raise Unsupported('comparison of two unsigned values that may have wrapped')

    def e_cassign(self, e, env):
        v = self.rv(e['a'][1], env)
        loc = self.ev(e['a'][0], env)
        old = self.load(loc)
        op = e['op'][:-1]
        new = self.arith(op, old, v, e.get('ct', e['t']))
        if is_int(e['t']) and isinstance(new, T) and new.sort == 'Real': new = self.trunc(new)
        self.store(loc, new)
        return loc

    def trunc(self, x):
        if x.sort == 'Int': return x
        if x.op == 'num': return num(int(x.val))
        return app('trunc', [x], 'Int')

    def e_cond(self, e, env):
        c = self.decide(self.cond(e['a'][0], env))
        if c is TRUE: return self.ev(e['a'][1], env)
        if c is FALSE: return self.ev(e['a'][2], env)
        t = strip(e['t'])
        scalar = t in FLOATS or t in INTS
        if self.loop_depth == 0 and not scalar:
            return self.ev(e['a'][1 if self.branch(c) else 2], env)
        base = self.st
        s1, s2 = base.clone(), base.clone()
        with PROV.under(c):
            self.st = s1; a = self.rv(e['a'][1], env); s1 = self.st
        with PROV.under(not_(c)):
            self.st = s2; b = self.rv(e['a'][2], env); s2 = self.st
        self.st = self.merge(c, s1, s2)
        return self.merge_val(c, self.coerce(a, t) if isinstance(a, T) else a, self.coerce(b, t) if isinstance(b, T) else b)

    def e_throw(self, e, env):
        what = ''
        sub_ = e.get('e')
        if sub_ is not None: what = sub_.get('t', '')
        elif self.caught: raise CppThrow(self.caught[-1].what)
        raise CppThrow(what)

    def e_cast(self, e, env):
        ck = e['ck']
        if ck in ('ConstructorConversion', 'UserDefinedConversion'):
            return self.ev(e['e'], env)
        x = self.ev(e['e'], env)
        t = strip(e['t'])
        if ck == 'LValueToRValue':
            v = self.rvalue(x)
            if v is UNINIT and not self.quiet: raise Unsupported('read of an uninitialised scalar')
            return v
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'ArrayToPointerDecay',
                  'FunctionToPointerDecay', 'Dynamic', 'ToVoid'):
            if isinstance(x, Opaque) and x.name == 'malloc': return self.malloced(x.data, t)
            if ck == 'BitCast' and t in ('char *', 'const char *', 'unsigned char *', 'std::byte *') and isinstance(self.rvalue(x), (PObj, Ptr)):
                from . import files
                et = strip(strip(e['e'].get('t', '')).rstrip('*').strip())
                if et in files.SIZES: return files.Bytes(self.rvalue(x), files.SIZES[et])
            return x
        if ck == 'NullToPointer': return NULL
        v = self.rvalue(x)
        if ck in ('IntegralCast',):
            if t == 'bool': return self.truth(v)
            v = self.numv(v)
            if t in WIDE and strip(e['e'].get('t', '')) in ('unsigned int', 'unsigned short', 'unsigned char') and not self.quiet and not self.nonneg(v):
                raise Unsupported('an unsigned value that may have wrapped is widened')
            return v
        if ck == 'IntegralToFloating':
            if strip(e['e'].get('t', '')) in UNSIGNED and not self.quiet and isinstance(v, T) and not self.nonneg(self.numv(v)):
                raise Unsupported('an unsigned value that may have wrapped converted to floating point')
            return self.numv(v)
        if ck == 'FloatingCast': return v
        if ck == 'FloatingToIntegral': return self.trunc(self.numv(v))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return self.truth(v)
        raise Unsupported('cast ' + ck)

    def e_lambda(self, e, env):
        cap = {}
        for c in e.get('caps', []):
            i = c.get('id')
            if c.get('this'): continue
            if i is None: continue
            if c.get('init') is not None:
                x = self.ev(c['init'], env)
            else: x = env.get(i)
            if x is None: continue
            if c.get('ref'): cap[i] = x
            else: cap[i] = self.copy_obj(x) if isinstance(x, tuple) and x[0] == 'o' else self.new_cell(self.rvalue(x))
        cap['this'] = env.get('this')
        if 'fn' in env: cap['fn'] = env['fn']
        return Clo(e, cap, env['fn']['tu'] if 'fn' in env else None)

    def instance(self, lam, args, f):
        """the instantiation of a generic lambda that this call runs"""
        c = [i for i in lam['insts'] if len(i['params']) == len(args)]
        if f is not None: c = [i for i in c if i['f'].get('pt') == f.get('pt')] or c
        if len(c) > 1:
            def ok(i):
                for p, a in zip(i['params'], args):
                    v = self.rvalue(a); t = strip(p['t'])
                    if isinstance(v, T) != bool(is_scalar_type(t)): return False
                    if isinstance(v, T) and v.sort in ('Int', 'Real') and (v.sort == 'Real') != bool(is_float(t)): return False
                    if isinstance(v, tuple) and v[0] == 'o' and isinstance(self.obj(v), Rec) and tname(t) != tname(self.obj(v).cls): return False
                return True
            c = [i for i in c if ok(i)]
        if len(c) != 1: raise Unsupported('call of a generic lambda with %d instances' % len(c))
        return c[0]

    def call_value(self, fv, args, f=None):
        """call a closure / functor"""
        if isinstance(fv, Native): return fv.f(self, [self.rvalue(a) for a in args])
        if isinstance(fv, Clo):
            lam = fv.lam
            env = dict(fv.env)
            if lam.get('generic'): lam = self.instance(lam, args, f)
            lamfn = {'q': (fv.env['fn']['q'] if 'fn' in fv.env else '') + '::lambda', 'tu': fv.tu, 'ret': lam.get('ret', 'auto'), 'fid': None}
            env['fn'] = lamfn
            env['lamret'] = lam.get('ret', 'auto')
            self.bind_params(lam['params'], args, env)
            self.fn_stack.append(lamfn); self.depth += 1
            try:
                return self.run_body(lam['body'], env, lamfn['ret'])
            finally:
                self.fn_stack.pop(); self.depth -= 1
        if isinstance(fv, tuple) and fv[0] == 'o':
            o = self.obj(fv)
            if isinstance(o, Rec):
                for g in self.prog.by_q.get(tname(o.cls) + '::operator()', []):
                    if g.get('body') is not None and len(g['params']) == len(args): return self.call_fn(g, args, fv)
        if isinstance(fv, Opaque) and fv.name.startswith('fn:') and fv.data:
            return self.invoke(fv.data, args, None, {}, self.fn_stack[-1]['tu'] if self.fn_stack else None)
        raise Unsupported('call of %s' % (fv,))

    def e_call(self, e, env):
        tu = env['fn']['tu'] if 'fn' in env else None
        if 'f' in e and e['f']:
            f = e['f']
            args = [self.ev(a, env) for a in e['a']]
            return self.invoke(f, args, None, e, tu)
        fv = self.rv(e['callee'], env)
        args = [self.ev(a, env) for a in e['a']]
        return self.call_value(fv, args)

    def invoke(self, f, args, this, e, tu, qual=False):
        body = self.prog.find(tu, f)
        if body is not None and body.get('body') is not None and self.natives.get('!' + f['q']) is None:
            return self.call_fn(body, args, this)
        n = self.natives.get(f['q']) or self.natives.get('!' + f['q'])
        if n is not None:
            return n(self, e, f, ([this] if this is not None else []) + args)
        if f.get('pure') or True:
            con = self.contracts.get(f['q'])
            if con is not None:
                r = con(self, f, args, this)
                if r is not NotImplemented: return r
        short = f['q'].split('::')[-1]
        if f.get('defaulted') and short == 'operator=' and this is not None:
            src = self.rvalue(args[0])
            self.assign_obj(this, src)
            return this
        raise Unsupported('call of %s' % f['q'])

    def e_mcall(self, e, env):
        f = e['f']
        tu = env['fn']['tu'] if 'fn' in env else None
        b = self.ev(e['b'], env)
        if e.get('arrow'):
            b = self.deref(self.rvalue(b))
        args = [self.ev(a, env) for a in e['a']]
        return self.call_method(f, b, args, e, tu, e.get('qual'))

    def call_method(self, f, b, args, e, tu, qual=False):
        if not qual and isinstance(b, tuple) and b[0] == 'o':
            o = self.st.o[b[1]]
            if isinstance(o, Rec) and tname(o.cls) != f['q'].rsplit('::', 1)[0] and f.get('virt', True):
                g = self.virtual(o.cls, f)
                if g is not None: return self.call_fn(g, args, b)
        return self.invoke(f, args, b, e, tu)

    def virtual(self, cls, f):
        """most derived override of f for dynamic class cls"""
        seen = [cls]
        while seen:
            c = seen.pop(0)
            rec = self.record_of(c)
            if rec is None: continue
            short = f['q'].split('::')[-1]
            for g in self.prog.by_q.get(rec['q'] + '::' + short, []):
                if g['pt'] == f['pt'] and g.get('body') is not None and (g.get('cls') in (None, rec['t'])): return g
            for b in rec.get('bases', []): seen.append(b if isinstance(b, str) else b.get('t', ''))
        return None

    def e_opcall(self, e, env):
        f = e['f']
        tu = env['fn']['tu'] if 'fn' in env else None
        args = [self.ev(a, env) for a in e['a']]
        body = self.prog.find(tu, f)
        member = f.get('cls') is not None
        if e['op'] == '()' and isinstance(self.rvalue(args[0]), (Clo, Native)):
            return self.call_value(self.rvalue(args[0]), args[1:], f)
        if body is not None and body.get('body') is not None:
            if member: return self.call_fn(body, args[1:], args[0])
            return self.call_fn(body, args, None)
        n = self.natives.get(f['q'])
        if n is not None: return n(self, e, f, args)
        g = self.natives.get('op' + e['op'])
        if g is not None:
            r = g(self, e, f, args)
            if r is not NotImplemented: return r
        if e['op'] == '=' and isinstance(args[0], tuple):
            src = self.rvalue(args[1])
            if isinstance(src, tuple) and src[0] == 'o': self.assign_obj(args[0], src); return args[0]
            self.store(args[0], src); return args[0]
        raise Unsupported('operator %s (%s)' % (e['op'], f['q']))

    def e_ctor(self, e, env):
        tu = env['fn']['tu'] if 'fn' in env else None
        f = e['f']
        if (e.get('elide') or e.get('copy') or e.get('move')) and len(e['a']) == 1 and tname(f['q']) not in ():
            x = self.ev(e['a'][0], env)
            v = self.rvalue(x)
            if not (isinstance(v, tuple) and v and v[0] == 'o'): return v
            if self.is_prvalue(strip_temp(e['a'][0])): return v
            body = self.prog.find(tu, f)
            if body is not None and body.get('body') is not None and not body.get('defaulted'):
                return self.construct(e['t'], f, [x], tu)
            return self.copy_obj(v)
        args = [self.ev(a, env) for a in e['a']]
        e2 = f
        self.cur_ctor = e
        return self.construct(e['t'], f, args, tu, e.get('zero'))

    def e_initlist(self, e, env):
        t = strip(e['t'])
        n = tname(t)
        if t in FLOATS or t in INTS or t.endswith('*'):
            return self.rv(e['a'][0], env) if e['a'] else NULL if t.endswith('*') else ZERO
        if n in self.ext_records: return self.ext_records[n](self)
        if n in ('std::array',):
            et, cnt = targs(t)[0], int(targs(t)[1].rstrip('UuLl'))
            items = e['a']
            while len(items) == 1 and items[0]['k'] == 'initlist': items = items[0]['a']
            vals = [self.rv(a, env) for a in items]
            while len(vals) < cnt: vals.append(ZERO if is_scalar_type(et) else self.default_value(et))
            return self.new_obj(Seq(et, vals, True))
        if n in ('std::initializer_list',) or t.endswith(']'):
            vals = [self.rv(a, env) for a in e['a']]
            et = targs(t)[0] if n == 'std::initializer_list' else t[:t.rfind('[')].strip()
            return self.new_obj(Seq(et, vals, True))
        rec = self.record_of(t)
        if rec is not None:
            loc = self.new_obj(Rec(rec['t'], {}))
            fs = self.all_fields(rec)
            for i, f in enumerate(fs):
                if i < len(e['a']): self.init_field(loc, f['name'], e['a'][i], env)
                elif f.get('init') is not None: self.init_field(loc, f['name'], f['init'], env)
                else:
                    v = NULL if strip(f['t']).endswith('*') else ZERO if is_scalar_type(f['t']) else self.default_value(f['t'])
                    o = self.obj(loc); d = dict(o.f); d[f['name']] = v; self.st.o[loc[1]] = Rec(o.cls, d)
            return loc
        if len(e['a']) == 1: return self.ev(e['a'][0], env)
        raise Unsupported('init list of ' + t)

    def e_new(self, e, env):
        at = strip(e['at'])
        if e.get('n') is not None:
            n = self.rv(e['n'], env)
            if at in FLOATS or at in INTS:
                self.oblige('allocation', ge0(n), 'allocation size is not negative')
                rid = self.new_region('heap', n, 'Real' if at in FLOATS else 'Int')
                if e.get('init') is not None and e['init'].get('k') in ('initlist', 'zeroinit'):
                    i = fresh('x', n)
                    self.write(rid, (i,), ZERO, vs=[(i, n)])
                return Ptr(rid, (), ZERO)
            raise Unsupported('new array of ' + at)
        if e.get('init') is not None: v = self.ev(e['init'], env)
        else: v = self.default_value(at)
        if isinstance(v, tuple) and v[0] == 'o': return PObj(v)
        return PObj(self.new_cell(self.rvalue(v)))
    SIZES = {'unsigned char': (1, 'Int'), 'char': (1, 'Int'), 'float': (4, 'Real'), 'int': (4, 'Int')}
    def malloced(self, nbytes, t):
        """malloc'd memory viewed as elements of type t; inside a symbolic loop one region per iteration"""
        if not t.endswith('*'): raise Unsupported('malloc cast to ' + t)
        et = strip(t[:-1])
        size, sort = (8, 'Ptr') if et.endswith('*') else self.SIZES.get(et, (None, None))
        if size is None: raise Unsupported('malloc of ' + et)
        self.oblige('allocation', ge0(nbytes), 'allocation size is not negative')
        n = idiv(nbytes, num(size))
        its = tuple(self.iter_vars)
        if len(its) != self.loop_depth and not self.quiet: raise Unsupported('malloc in a nested loop')
        sz = (lambda pre: subst(n, dict(zip(its, pre)))) if its else n
        rid = self.new_region('malloc', sz, sort, arity=1 + len(its))
        fr = self.new_region('freed', None, 'Int', base=lambda idx: ZERO, arity=1 + len(its))
        self.regions[rid].freed = fr
        self.regions[rid].fam = self.regions[fr].fam = bool(its)
        return Ptr(rid, its, ZERO)
    def free(self, p):
        if p is NULL: return
        if not isinstance(p, Ptr) or self.regions[p.rid].freed is None: raise Unsupported('free of %s' % (p,))
        self.oblige('free', eq0(p.off), 'memory is released through the pointer malloc returned')
        self.check_freed(p.rid, p.pre)
        self.write(self.regions[p.rid].freed, p.pre + (ZERO,), ONE)
    def check_freed(self, rid, pre):
        fr = self.regions[rid].freed
        if fr is None or self.quiet: return
        idx = tuple(pre) + (ZERO,)
        v = self.read(fr, idx)
        text = 'memory is not used after it was released (%s)' % self.regions[rid].name
        if has_rt(v):
            log = self.st.r[fr]
            k = max(i for i, e in enumerate(log) if isinstance(e, Mark))
            if log[k].loop != self.outer_loop: raise Unsupported('release of memory in a nested loop')
            v = self.read(fr, idx, log[k+1:])       # this iteration
            self.deferred.append((fr, idx, tuple(PROV.path), text, self.line))
        self.oblige('use-after-free', eq0(v), text)
    def load_ptr(self, rid, idx):
        """pointer stored in a region of pointers"""
        log = self.st.r[rid]
        if self.quiet: log = tuple(e for e in log if not isinstance(e, Mark))
        q, self.quiet_reads = self.quiet_reads, False
        try: v = self.read(rid, idx, log)
        finally: self.quiet_reads = q
        if isinstance(v, T) and v.op == 'app' and str(v.args[0]).startswith('addr:'):
            return Ptr(v.args[0][5:], v.args[1:-1], v.args[-1])
        raise Unsupported('pointer read from memory: %s' % (v,))
    def e_delete(self, e, env):
        self.ev(e['e'], env); return None

INF = var('INF', 'Real')

def strip_temp(e):
    while e['k'] in ('temp', 'cast') and (e['k'] == 'temp' or e['ck'] in ('NoOp',)): e = e['e']
    return e

def dict_env(env):
    return Env(env)
class Env(dict):
    """copy-on-create scope"""
    def __init__(self, parent): dict.__init__(self, parent)

_strids = {}
STRS = []
def strid(s):
    if s not in _strids: _strids[s] = len(STRS); STRS.append(s)
    return _strids[s]

def tdiv(a, b):
    """C++ truncating integer division"""
    if a.op == 'num' and b.op == 'num':
        q = abs(a.val) // abs(b.val)
        return num(q if (a.val >= 0) == (b.val > 0) else -q)
    if not PROV.prove(ge0(sub(b, ONE)), (), True): 
        return app('tdiv', [a, b], 'Int')
    if PROV.prove(ge0(a), (), False) or PROV.prove(ge0(a), (), True): return idiv(a, b)
    return ite(ge0(a), idiv(a, b), neg(idiv(neg(a), b)))

def same_val(a, b):
    if a is b: return True
    if a is None or b is None: return False
    if isinstance(a, T) or isinstance(b, T): return a is b
    try: return vkey(a) == vkey(b)
    except Exception: return False

def scalar_parts(v):
    if isinstance(v, T): return [('v', v)]
    if isinstance(v, Ptr): return [('off', v.off)] + [('p%d' % i, x) for i, x in enumerate(v.pre)]
    if isinstance(v, It): return [('i', v.i)]
    raise Unsupported('loop-carried value %s' % (v,))
def scalar_part(v, part):
    if part == 'v': return v if isinstance(v, T) else None
    if part == 'off': return v.off if isinstance(v, Ptr) else None
    if part == 'i': return v.i if isinstance(v, It) else None
    if part[0] == 'p': return v.pre[int(part[1:])] if isinstance(v, Ptr) else None
def with_parts(v, parts):
    if isinstance(v, T): return parts['v']
    if isinstance(v, Ptr): return Ptr(v.rid, [parts.get('p%d' % i, x) for i, x in enumerate(v.pre)], parts['off'])
    if isinstance(v, It): return It(v.oid, parts['i'], v.rev)

def get_path(o, path):
    if isinstance(o, Rec): return o.f[path]
    if isinstance(o, Seq): return o.items[path]
    if isinstance(o, SymSeq) and path == 'n': return o.n
    raise Unsupported('path')
def set_path(o, path, v):
    if isinstance(o, Rec):
        f = dict(o.f); f[path] = v; return Rec(o.cls, f)
    if isinstance(o, SymSeq): return SymSeq(o.et, o.rid, v, o.pre)
    it = list(o.items); it[path] = v
    return Seq(o.et, it, o.fixed)
def diff_obj(a, b):
    if type(a) is not type(b): raise Unsupported('object changes kind in loop')
    if isinstance(a, Rec):
        if set(a.f) != set(b.f): raise Unsupported('object changes in loop')
        return [k for k in a.f if not same_val(a.f[k], b.f[k])]
    if isinstance(a, Seq):
        if len(a.items) != len(b.items): raise Unsupported('sequence grows in loop')
        return [i for i in range(len(a.items)) if not same_val(a.items[i], b.items[i])]
    if isinstance(a, SymSeq) and a.rid == b.rid and a.pre == b.pre: return ['n'] if a.n is not b.n else []
    raise Unsupported('object modified in loop')

def has_rt(t):
    return bool(atoms(t, lambda a: a.op == 'app' and isinstance(a.args[0], str) and (a.args[0][0] in '@?')))

def mk_sum_raw(s, n, body):
    """sum whose body still contains read-through placeholders (kept un-normalised)"""
    return mk_sum([(s, n)], TRUE, body)

def distribute_ite(e, p):
    """e - p where e may be an ite-tree over expressions containing p"""
    if e.op == 'ite':
        a = distribute_ite(e.args[1], p); b = distribute_ite(e.args[2], p)
        if a is None or b is None: return None
        if p in e.args[0].fv or atoms(e.args[0], lambda x: x is p): return None
        return ite(e.args[0], a, b)
    d = sub(e, p)
    if poly_of(e).get(((p, 1),)) != 1: return None
    if p in d.fv or atoms(d, lambda x: x is p): return None
    return d

def is_counter(c, tt):
    return True if poly_of(c).get(((tt, 1),)) in (1, -1) else False

def disjoint_dir(q2, idx, t2, tt, both, other=None):
    """q2 (iteration t2) never touches idx (iteration tt) for t2<tt (or t2!=tt when both)"""
    if other is not None:
        nv, rest = rename_vs(other.vs, [other.guard] + list(other.idx))
        g2, idx = rest[0], rest[1:]
    else: g2 = TRUE
    nv, rest = rename_vs(q2.vs, [q2.guard] + list(q2.idx))
    g1, idx1 = rest[0], rest[1:]
    facts = tuple(f for f in conjuncts(and_(g1, g2)))
    nf = tuple(f for f in facts if f.op != 'eq0')
    eqs = []
    for a, b in zip(idx1, idx):
        e = sub(a, b)
        ps = PROV.split_eq(e, nf) or [e]
        eqs += list(ps)
    d = sub(t2, tt)
    for e in eqs:
        if e.op == 'num' and e.val != 0: return True
        # an equation that forces t2 == tt, or that no t2 < tt satisfies
        if e is d or e is neg(d): return True
        if PROV.prove(not_(eq0(e)), facts, False): return True
    hyp = facts + tuple(eq0(e) for e in eqs if e is not ZERO)
    if both:
        return PROV.prove(eq0(d), hyp, True)
    return PROV.prove(ge0(d), hyp, True)

def collect_assigned(n, env, out):
    """cells of variables syntactically assigned in an AST"""
    if isinstance(n, list):
        for x in n: collect_assigned(x, env, out)
        return
    if not isinstance(n, dict): return
    k = n.get('k')
    tgt = None
    if k == 'un' and n['op'] in ('++', '--'): tgt = n['e']
    elif k == 'cassign' or (k == 'bin' and n['op'] == '='): tgt = n['a'][0]
    elif k == 'opcall' and n['op'] in ('++', '--', '+=', '-=', '='): tgt = n['a'][0]
    if tgt is not None:
        while tgt['k'] in ('cast', 'temp'): tgt = tgt['e']
        if tgt['k'] == 'var' and tgt['id'] in env:
            loc = env[tgt['id']]
            if loc[0] == 'c': out.add(loc[1])
    for key, x in n.items():
        if key in ('t', 'l', 'f'): continue
        if isinstance(x, (dict, list)): collect_assigned(x, env, out)
