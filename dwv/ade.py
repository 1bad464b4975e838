"""Assumed contract of the ADE graph library (the same one the C++ stand-in of
stubs/ade_include implements), for concrete graphs:

 - a graph owns nodes and directed edges; a node lists its edges in linking order;
 - a graph, node or edge carries at most one value per metadata type;
 - TopologicalSort stores some order of all nodes in which every edge goes forward;
   `order` of the goal picks which one.
"""
from .terms import *
from .prove import PROV
from .mem import *
from . import exec as X
from .natives import std, STD, to_type
from .mem import CppThrow

NODE, EDGE, GRAPH = 'ade::Node', 'ade::Edge', 'ade::Graph'
def vec(ex, et, items): return ex.new_obj(X.Seq(et, items))
def elist(o): return o.items
def setf(ex, loc, **kw):
    o = ex.obj(loc); d = dict(o.f); d.update(kw); ex.st.o[loc[1]] = X.Rec(o.cls, d)
def handle(ex, a):
    v = ex.rvalue(a)
    if isinstance(v, X.PObj): return v.loc
    if v is X.NULL:
        ex.record('null-deref', 'a graph handle refers to a node or edge', 'failed', FALSE)
        raise Unsupported('null graph handle')
    if isinstance(v, tuple) and v[0] == 'o': return v
    raise Unsupported('graph handle %s' % (v,))

def graph_ctor(ex, t=None, f=None, args=()):
    return ex.new_obj(X.Rec(GRAPH, {'nodes': vec(ex, 'h', ()), 'edges': vec(ex, 'h', ()), 'meta': ex.new_obj(X.MapO(()))}))
STD['ade::Graph::Graph'] = graph_ctor
@std('ade::Handle::Handle')
def h_ctor(ex, t, f, args): return ex.rvalue(args[0]) if args else X.NULL
@std('ade::Handle::operator=')
def h_assign(ex, e, f, args): ex.store(args[0], ex.rvalue(args[1])); return args[0]
@std('ade::Handle::operator->', 'ade::Handle::get')
def h_arrow(ex, e, f, args): return X.PObj(handle(ex, args[0]))
@std('ade::Handle::operator==')
def h_eq(ex, e, f, args): return boolt(X.vkey(ex.rvalue(args[0])) == X.vkey(ex.rvalue(args[1])))
@std('ade::Handle::operator!=')
def h_ne(ex, e, f, args): return not_(h_eq(ex, e, f, args))
@std('ade::TypedGraph::TypedGraph')
def tg_ctor(ex, t, f, args):
    v = ex.rvalue(args[0])
    o = ex.obj(v)
    if isinstance(o, X.Rec) and o.cls == GRAPH: return ex.new_obj(X.Rec('ade::TypedGraph', {'g': X.PObj(v)}))
    return ex.copy_obj(v)
def graph_of(ex, a):
    v = ex.rvalue(a)
    if isinstance(v, X.PObj): v = v.loc
    o = ex.obj(v)
    return v if o.cls == GRAPH else o.f['g'].loc
def nodes(ex, g): return ex.obj(ex.obj(g).f['nodes']).items
def push(ex, vloc, x):
    o = ex.obj(vloc); ex.st.o[vloc[1]] = X.Seq(o.et, o.items + (x,))
@std('ade::TypedGraph::createNode', 'ade::Graph::createNode')
def create_node(ex, e, f, args):
    g = graph_of(ex, args[0])
    n = ex.new_obj(X.Rec(NODE, {'in': vec(ex, 'h', ()), 'out': vec(ex, 'h', ()), 'meta': ex.new_obj(X.MapO(()))}))
    push(ex, ex.obj(g).f['nodes'], X.PObj(n))
    return X.PObj(n)
@std('ade::TypedGraph::link', 'ade::Graph::link')
def link(ex, e, f, args):
    g = graph_of(ex, args[0])
    s, d = handle(ex, args[1]), handle(ex, args[2])
    r = ex.new_obj(X.Rec(EDGE, {'src': X.PObj(s), 'dst': X.PObj(d), 'meta': ex.new_obj(X.MapO(()))}))
    push(ex, ex.obj(g).f['edges'], X.PObj(r))
    push(ex, ex.obj(s).f['out'], X.PObj(r)); push(ex, ex.obj(d).f['in'], X.PObj(r))
    return X.PObj(r)
def fields(name, field, end=None):
    @std(*['ade::Node::' + name, 'ade::Edge::' + name])
    def g(ex, e, f, args):
        o = ex.obj(handle(ex, args[0]))
        if end is None: return ex.copy_obj(o.f[field]) if field in ('in', 'out') else o.f[field]
        return vec(ex, 'ade::Handle<ade::Node>', [ex.obj(x.loc).f[end] for x in ex.obj(o.f[field]).items])
fields('inEdges', 'in'); fields('outEdges', 'out'); fields('inNodes', 'in', 'src'); fields('outNodes', 'out', 'dst')
fields('srcNode', 'src'); fields('dstNode', 'dst')
@std('ade::TypedGraph::nodes', 'ade::Graph::nodes')
def g_nodes(ex, e, f, args): return vec(ex, 'ade::Handle<ade::Node>', nodes(ex, graph_of(ex, args[0])))
@std('ade::TypedGraph::metadata')
def metadata(ex, e, f, args):
    loc = graph_of(ex, args[0]) if len(args) == 1 else handle(ex, args[1])
    return ex.obj(loc).f['meta']
def key_of(f): return X.Str(X.strip(f['ta'][0]))
@std('ade::TypedMetadata::get')
def m_get(ex, e, f, args):
    o = ex.obj(ex.rvalue(args[0])); k = key_of(f)
    for kk, loc in o.items:
        if kk.s == k.s: return loc
    ex.record('precondition', 'metadata %s read from a graph element that carries it' % k.s, 'failed', FALSE)
    raise CppThrow('std::logic_error')
@std('ade::TypedMetadata::contains')
def m_contains(ex, e, f, args): return boolt(any(kk.s == key_of(f).s for kk, _ in ex.obj(ex.rvalue(args[0])).items))
@std('ade::TypedMetadata::set')
def m_set(ex, e, f, args):
    m = ex.rvalue(args[0])
    t = X.strip(f['ta'][0]) if f.get('ta') else X.strip(f['pt'][0])
    v = ex.rvalue(args[1])
    v = ex.copy_obj(v) if isinstance(v, tuple) else ex.new_cell(v)
    o = ex.obj(m)
    ex.st.o[m[1]] = X.MapO(tuple(i for i in o.items if i[0].s != t) + ((X.Str(t), v),))
# ---------------------------------------------------------------- the sort
SORT = 'ade::passes::TopologicalSortData'
@std('ade::passes::TopologicalSort::TopologicalSort')
def sort_ctor(ex, t, f, args): return ex.new_obj(X.Rec('ade::passes::TopologicalSort', {}))
@std('ade::passes::TopologicalSort::operator()')
def sort_run(ex, e, f, args):
    g = ex.rvalue(args[1])
    c = ex.obj(g)
    if c.cls != GRAPH:
        g = c.f['graph']
        g = g.loc if isinstance(g, X.PObj) else ex.rvalue(g)
    ns = [p.loc for p in nodes(ex, g)]
    open_ = {n: len(ex.obj(ex.obj(n).f['in']).items) for n in ns}
    ready = [n for n in ns if not open_[n]]
    out = []
    pick = getattr(ex, 'ade_order', None) or (lambda ready: 0)
    while ready:
        n = ready.pop(pick(ready)); out.append(n)
        for x in ex.obj(ex.obj(n).f['out']).items:
            d = ex.obj(x.loc).f['dst'].loc
            open_[d] -= 1
            if not open_[d]: ready.append(d)
    if len(out) != len(ns): raise CppThrow('std::logic_error')
    v = ex.new_obj(X.Rec(SORT, {'s': vec(ex, 'ade::Handle<ade::Node>', [X.PObj(n) for n in out])}))
    m = ex.obj(g).f['meta']
    o = ex.obj(m)
    ex.st.o[m[1]] = X.MapO(tuple(i for i in o.items if i[0].s != SORT) + ((X.Str(SORT), v),))
@std('ade::passes::TopologicalSortData::nodes')
def sort_nodes(ex, e, f, args): return ex.copy_obj(ex.obj(ex.rvalue(args[0])).f['s'])
# ------------------------------------------------------------------- util
def items(ex, a):
    l = ex.rvalue(a); o = ex.obj(l)
    if isinstance(o, X.SymSeq) and o.n.op == 'num': return [ex.load(ex.elem(l, num(i))) for i in range(int(o.n.val))]
    if not isinstance(o, X.Seq): raise Unsupported('ade::util on %s' % (o,))
    return o.items
@std('ade::util::indexed')
def u_indexed(ex, e, f, args):
    cp = lambda v: v
    return vec(ex, 'ade::util::Indexed', [ex.new_obj(X.Rec('ade::util::Indexed', {'i': num(i), 'v': cp(v)})) for i, v in enumerate(items(ex, args[0]))])
@std('ade::util::Indexed::Indexed')
def u_ictor(ex, t, f, args): return ex.copy_obj(ex.rvalue(args[0])) if False else ex.rvalue(args[0])
@std('ade::util::index')
def u_index(ex, e, f, args): return ex.obj(ex.rvalue(args[0])).f['i']
@std('ade::util::value')
def u_value(ex, e, f, args):
    l = ex.rvalue(args[0]); v = ex.obj(l).f['v']
    return v if isinstance(v, tuple) and v[0] == 'o' else ('f', l[1], 'v')
@std('ade::util::filter')
def u_filter(ex, e, f, args):
    p = ex.rvalue(args[1])
    out = []
    for x in items(ex, args[0]):
        c = ex.decide(ex.truth(ex.rvalue(ex.call_value(p, [x if isinstance(x, tuple) else ('v', x)]))))
        if c not in (TRUE, FALSE): raise Unsupported('filter condition %s' % c)
        if c is TRUE: out.append(x)
    return vec(ex, 'ade::Handle<ade::Node>', out)
@std('ade::util::transform')
def u_transform(ex, e, f, args):
    out = ex.rvalue(args[1]); p = ex.rvalue(args[2])
    for x in items(ex, args[0]): out.put(ex, ex.call_value(p, [x if isinstance(x, tuple) else ('v', x)]))
    return out
