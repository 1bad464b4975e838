#pragma once
#include <ade/typed_graph.hpp>
namespace ade { namespace passes {
struct PassContext { Graph& graph; };
class TopologicalSortData {
    std::vector<NodeHandle> s;
public:
    TopologicalSortData() = default; explicit TopologicalSortData(std::vector<NodeHandle> v) : s(std::move(v)) {}
    static const char* name() { return "TopologicalSortData"; }
    std::vector<NodeHandle> nodes() const { return s; }
};
struct TopologicalSort {
    static const char* name() { return "TopologicalSort"; }
    void operator()(PassContext& c) {
        const char* o = std::getenv("ADE_STUB_ORDER"); unsigned r = o ? (unsigned)std::atoi(o) : 0;
        auto ns = c.graph.nodes(); std::unordered_map<Node*, size_t> open; std::vector<NodeHandle> ready, out;
        for (auto& n : ns) { open[n.get()] = n->in.size(); if (n->in.empty()) ready.push_back(n); }
        while (!ready.empty()) {
            size_t k = r ? (r = r * 1103515245u + 12345u, (r >> 8) % ready.size()) : 0;
            NodeHandle n = ready[k]; ready.erase(ready.begin() + k); out.push_back(n);
            for (auto& e : n->out) if (--open[e->d.get()] == 0) ready.push_back(e->d);
        }
        if (out.size() != ns.size()) throw std::logic_error("ade stub: the graph has a cycle");
        c.graph.meta.set(TopologicalSortData(std::move(out)));
    }
};
}}
