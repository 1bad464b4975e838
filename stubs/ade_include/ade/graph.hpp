// Stand-in for the ADE graph library, whose sources (a git submodule) are not in this sandbox.
// It implements the documented behaviour of the few ADE entry points deepworks uses, and is the
// contract the verifier assumes of them (dwv/ade.py states the same contract for the proofs):
//  - a graph owns nodes and directed edges; parallel edges are allowed; a node lists its edges in
//    the order in which they were linked;
//  - every graph, node and edge carries at most one value per metadata type;
//  - TopologicalSort stores *some* order in which every edge goes forward. ADE_STUB_ORDER picks one.
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdlib>
#include <memory>
#include <stdexcept>
#include <string>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <functional>
namespace ade {
class Node; class Edge; class Graph;
namespace details {
struct Metadata {
    std::unordered_map<std::type_index, std::shared_ptr<void>> m;
    template <class T> T& get() const { auto it = m.find(typeid(T)); if (it == m.end()) throw std::logic_error("ade stub: no such metadata"); return *static_cast<T*>(it->second.get()); }
    template <class T> void set(const T& v) { m[typeid(T)] = std::make_shared<T>(v); }
    template <class T> bool contains() const { return m.count(typeid(T)) != 0; }
};
}
template <class T> class Handle {
    std::weak_ptr<T> p;
public:
    Handle() = default; Handle(std::nullptr_t) {} explicit Handle(std::shared_ptr<T> q) : p(q) {}
    T* get() const { return p.lock().get(); }
    T* operator->() const { T* q = get(); if (!q) throw std::logic_error("ade stub: dead handle"); return q; }
    bool operator==(const Handle& o) const { return get() == o.get(); }
    bool operator!=(const Handle& o) const { return get() != o.get(); }
};
using NodeHandle = Handle<Node>; using EdgeHandle = Handle<Edge>;
class Edge { public: NodeHandle s, d; details::Metadata meta; NodeHandle srcNode() const { return s; } NodeHandle dstNode() const { return d; } };
class Node {
public:
    std::vector<EdgeHandle> in, out; details::Metadata meta;
    std::vector<EdgeHandle> inEdges() const { return in; } std::vector<EdgeHandle> outEdges() const { return out; }
    std::vector<NodeHandle> inNodes() const { std::vector<NodeHandle> r; for (auto& e : in) r.push_back(e->srcNode()); return r; }
    std::vector<NodeHandle> outNodes() const { std::vector<NodeHandle> r; for (auto& e : out) r.push_back(e->dstNode()); return r; }
};
class Graph {
    std::vector<std::shared_ptr<Node>> ns; std::vector<std::shared_ptr<Edge>> es;
public:
    details::Metadata meta;
    Graph() = default; Graph(const Graph&) = delete; Graph& operator=(const Graph&) = delete;
    NodeHandle createNode() { ns.push_back(std::make_shared<Node>()); return NodeHandle(ns.back()); }
    EdgeHandle link(const NodeHandle& s, const NodeHandle& d) {
        auto e = std::make_shared<Edge>(); e->s = s; e->d = d; es.push_back(e);
        s->out.push_back(EdgeHandle(e)); d->in.push_back(EdgeHandle(e)); return EdgeHandle(e);
    }
    std::vector<NodeHandle> nodes() const { std::vector<NodeHandle> r; for (auto& n : ns) r.emplace_back(n); return r; }
};
}
