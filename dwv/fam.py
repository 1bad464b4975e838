"""Symbolic families: a map filled by a loop over n symbolic entries.

A loop that inserts one entry per iteration under key name(t) (keys of an
unordered_map are distinct, so `name` is injective) leaves a FamMap: entry k is the
object graph built by iteration t, with t := k.  Regions allocated by that iteration
become families with a leading index.  Entry objects are read-only views: a program
that overwrites one of their fields is reported as outside the verifier's reach."""
from .terms import *
from .mem import *
from .prove import PROV
from . import exec as X

def note(ex, oid, key):
    """record what a lookup learnt about a map (checked when the map turns out to grow in a loop)"""
    ex.map_obs.setdefault(oid, []).append(key)

def check_frozen(ex, st):
    for oid, orig in ex.fam_orig.items():
        if oid in st.o and st.o[oid] is not orig: raise Unsupported('an entry of a symbolic map is modified in place')

class Fam:
    """template of entry t"""
    def __init__(self, ex, name, key, tt, n, loc, post, pre):
        self.ex, self.uid, self.key, self.tt, self.n = ex, next(ex.nid), key, tt, n
        self.loc = loc
        self.o = {}; self.c = {}; self.reg = {}
        self.memo = {}
        todo = [loc]
        seen = set()
        def val(v):
            if isinstance(v, tuple) and v and isinstance(v[0], str): todo.append(v)
            elif isinstance(v, X.PObj): todo.append(v.loc)
            elif isinstance(v, X.It): todo.append(('o', v.oid))
            elif isinstance(v, X.Ptr): self.region(v.rid, post, pre)
            elif isinstance(v, T) and X.has_rt(v): raise Unsupported('loop-carried value in a map entry')
        while todo:
            l = todo.pop()
            if l in seen: continue
            seen.add(l)
            if l[0] in ('o', 'f', 's'):
                oid = l[1]
                if oid in pre.o or oid in self.o: continue
                if oid in ex.fam_inst:
                    self.o[oid] = None; continue
                o = post.o[oid]
                self.o[oid] = o
                if isinstance(o, X.Rec): [val(v) for v in o.f.values()]
                elif isinstance(o, X.Seq): [val(v) for v in o.items]
                elif isinstance(o, X.SymSeq):
                    self.region(o.rid, post, pre)
                    if X.has_rt(o.n): raise Unsupported('loop-carried length in a map entry')
                elif isinstance(o, X.MapO): [val(v) for _, v in o.items]
                else: raise Unsupported('map entry holding %s' % (o,))
            elif l[0] == 'c':
                if l[1] in pre.c: continue
                self.c[l[1]] = post.c[l[1]]; val(post.c[l[1]])
            elif l[0] == 'm': self.region(l[1], post, pre)
            elif l[0] == 'v': pass
            else: raise Unsupported('map entry holding location %s' % (l,))
    def region(self, rid, post, pre):
        if rid in pre.r or rid in self.reg: return
        ex = self.ex
        reg = ex.regions[rid]
        size, tt = reg.size, self.tt
        if size is None: ns = None
        elif callable(size): ns = lambda p: subst(size(p[1:]), {tt: p[0]})
        else: ns = lambda p: subst(size, {tt: p[0]})
        new = '%s*%d' % (rid, next(ex.nid))
        ex.regions[new] = Region(new, reg.name, ns, reg.sort, (lambda idx: app('uninit_' + new, idx, reg.sort)), reg.arity + 1)
        self.reg[rid] = new
        log = []
        for q in post.r[rid]:
            if isinstance(q, Mark): continue
            for x in (q.guard, q.val) + tuple(q.idx):
                if isinstance(x, T) and X.has_rt(x): raise Unsupported('loop-carried contents of a map entry')
            log.append(QU([(tt, self.n)] + list(q.vs), q.guard, (tt,) + tuple(q.idx), q.val, q.kind, q.line))
        self.pending = getattr(self, 'pending', {})
        self.pending[new] = tuple(log)
    def install(self, st):
        for new, log in getattr(self, 'pending', {}).items(): st.r[new] = log
    def sub(self, t, k): return subst(t, {self.tt: k})
    def val(self, v, k):
        if isinstance(v, T): return self.sub(v, k)
        if isinstance(v, X.Ptr):
            pre = tuple(self.sub(p, k) for p in v.pre)
            if v.rid in self.reg: return X.Ptr(self.reg[v.rid], (k,) + pre, self.sub(v.off, k))
            return X.Ptr(v.rid, pre, self.sub(v.off, k))
        if isinstance(v, X.PObj):
            p = X.PObj(self.loc_(v.loc, k))
            for s in ('deleter', 'shared'):
                if hasattr(v, s): setattr(p, s, getattr(v, s))
            return p
        if isinstance(v, X.It): return X.It(self.loc_(('o', v.oid), k)[1], self.sub(v.i, k), v.rev)
        if isinstance(v, tuple) and v and isinstance(v[0], str): return self.loc_(v, k)
        return v
    def loc_(self, l, k):
        if l[0] == 'v': return ('v', self.val(l[1], k))
        if l[0] == 'm':
            idx = tuple(self.sub(i, k) for i in l[2])
            return ('m', self.reg[l[1]], (k,) + idx) if l[1] in self.reg else ('m', l[1], idx)
        if l[0] == 'c':
            if l[1] not in self.c: return l
            key = ('c', l[1], k)
            if key not in self.memo: self.memo[key] = next(self.ex.nid)
            cid = self.memo[key]
            if cid not in self.ex.st.c: self.ex.st.c[cid] = self.val(self.c[l[1]], k)
            return ('c', cid)
        oid = l[1]
        if oid not in self.o: return l
        return (l[0], self.obj(oid, k)) + tuple(l[2:])
    def obj(self, oid, k):
        ex = self.ex
        if oid in ex.fam_inst and self.o.get(oid) is None:
            fam, toid, kk = ex.fam_inst[oid]
            return fam.obj(toid, self.sub(kk, k))
        key = ('o', oid, k)
        if key not in self.memo:
            new = next(ex.nid)
            self.memo[key] = new
            ex.fam_inst[new] = (self, oid, k)
        new = self.memo[key]
        if new in ex.st.o:
            return new
        if new in ex.fam_orig: ex.st.o[new] = ex.fam_orig[new]; fresh_ = False
        else: fresh_ = True
        o = self.o[oid]
        if fresh_: ex.st.o[new] = o           # cut cycles
        if isinstance(o, X.Rec): r = X.Rec(o.cls, {f: self.val(v, k) for f, v in o.f.items()})
        elif isinstance(o, X.Seq): r = X.Seq(o.et, [self.val(v, k) for v in o.items], o.fixed)
        elif isinstance(o, X.SymSeq):
            pre = tuple(self.sub(p, k) for p in o.pre)
            if o.rid in self.reg: r = X.SymSeq(o.et, self.reg[o.rid], self.sub(o.n, k), (k,) + pre)
            else: r = X.SymSeq(o.et, o.rid, self.sub(o.n, k), pre)
        elif isinstance(o, X.MapO): r = X.MapO([(kk, self.val(v, k)) for kk, v in o.items])
        if fresh_:
            ex.st.o[new] = r; ex.fam_orig[new] = r
        return new
    # ---- map interface
    def at(self, k): return self.loc_(self.loc, k)
    def pair(self, ex, k):
        oid = ex.new_obj(X.Rec('std::pair', {'first': self.sub(self.key, k), 'second': self.at(k)}))
        return oid
    def index(self, key):
        """entry number of a key, or None when it cannot be told"""
        if not (isinstance(key, T) and key.op == 'app' and key.args[0] == self.key.args[0] and len(key.args) == 2): return None
        return key.args[1]

def grow(ex, oid, tt, n, pre, post, out):
    """the loop inserted one entry per iteration into the empty map or sequence oid"""
    if isinstance(post.o[oid], X.Seq):
        loc, = post.o[oid].items
        fam = Fam(ex, 'seq', None, tt, n, loc, post, pre)
        fam.install(out)
        m = X.FamSeq('seq', n, lambda ex, k: fam.at(k))
        out.o[oid] = m
        return
    (key, loc), = post.o[oid].items
    if not (isinstance(key, T) and key.op == 'app' and len(key.args) == 2 and key.args[1] is tt): raise Unsupported('map grows in a loop under keys that are not known to differ')
    if any(k is not key for k in ex.map_obs.get(oid, [])): raise Unsupported('a map that grows in the loop is also read by it')
    fam = Fam(ex, 'map', key, tt, n, loc, post, pre)
    fam.install(out)
    m = X.FamMap('map', n, fam.pair)
    m.extra = fam
    out.o[oid] = m
