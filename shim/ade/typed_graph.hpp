#pragma once
#include <ade/graph.hpp>

namespace ade {
template <typename... Types>
class ConstTypedGraph {
public:
    explicit ConstTypedGraph(const Graph& g) : m_g(&const_cast<Graph&>(g)) {}
    std::vector<NodeHandle> nodes() const { return m_g->nodes(); }
    const details::Metadata& metadata() const { return m_g->metadata(); }
    const details::Metadata& metadata(const NodeHandle& h) const { return m_g->metadata(h); }
    const details::Metadata& metadata(const EdgeHandle& h) const { return m_g->metadata(h); }
protected:
    Graph* m_g;
};

template <typename... Types>
class TypedGraph {
public:
    explicit TypedGraph(Graph& g) : m_g(&g) {}
    NodeHandle createNode() { return m_g->createNode(); }
    EdgeHandle link(const NodeHandle& s, const NodeHandle& d) { return m_g->link(s, d); }
    std::vector<NodeHandle> nodes() const { return m_g->nodes(); }
    details::Metadata& metadata() const { return m_g->metadata(); }
    details::Metadata& metadata(const NodeHandle& h) const { return h->m_meta; }
    details::Metadata& metadata(const EdgeHandle& h) const { return h->m_meta; }
private:
    Graph* m_g;
};
} // namespace ade
