#pragma once
#include <ade/graph.hpp>
namespace ade {
template <class... Ts> class TypedMetadata {
    details::Metadata* m;
public:
    explicit TypedMetadata(details::Metadata& x) : m(&x) {}
    template <class T> T& get() const { static_assert((std::is_same_v<T, Ts> || ...)); return m->get<T>(); }
    template <class T> void set(const T& v) { static_assert((std::is_same_v<T, Ts> || ...)); m->set(v); }
    template <class T> bool contains() const { return m->contains<T>(); }
};
template <class... Ts> class TypedGraph {
    Graph* g;
public:
    TypedGraph(Graph& x) : g(&x) {}
    NodeHandle createNode() { return g->createNode(); }
    EdgeHandle link(const NodeHandle& s, const NodeHandle& d) { return g->link(s, d); }
    std::vector<NodeHandle> nodes() const { return g->nodes(); }
    TypedMetadata<Ts...> metadata() { return TypedMetadata<Ts...>(g->meta); }
    TypedMetadata<Ts...> metadata(const NodeHandle& n) { return TypedMetadata<Ts...>(n->meta); }
    TypedMetadata<Ts...> metadata(const EdgeHandle& e) { return TypedMetadata<Ts...>(e->meta); }
};
}
