#pragma once
#include <ade/graph.hpp>
#include <ade/util/zip_range.hpp>

namespace ade {
namespace passes {

struct PassContext {
    Graph& graph;
};

struct TopologicalSortData {
    static const char* name() { return "TopologicalSortData"; }
    std::vector<NodeHandle> m_nodes;
    const std::vector<NodeHandle>& nodes() const { return m_nodes; }
};

// Kahn's algorithm; among the ready nodes the simulator chooses.
struct TopologicalSort {
    static std::string name() { return "TopologicalSort"; }
    void operator()(PassContext& ctx) const {
        std::unordered_map<Node*, size_t> pending;
        std::vector<Node*> ready;
        for (auto& n : ctx.graph.m_nodes) {
            pending[n.get()] = n->m_in.size();
            if (n->m_in.empty()) ready.push_back(n.get());
        }
        TopologicalSortData data;
        while (!ready.empty()) {
            size_t k = ade_shim_pick ? ade_shim_pick(static_cast<unsigned>(ready.size())) : 0;
            Node* n = ready[k];
            ready.erase(ready.begin() + k);
            data.m_nodes.emplace_back(n->shared_from_this());
            for (auto& e : n->m_out) {
                if (--pending[e->m_dst] == 0) ready.push_back(e->m_dst);
            }
        }
        if (data.m_nodes.size() != ctx.graph.m_nodes.size()) throw std::logic_error("ade: graph has a cycle");
        ctx.graph.metadata().set(data);
    }
};

} // namespace passes
} // namespace ade
