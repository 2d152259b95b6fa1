// Stand-in for the part of the "ade" graph library that deepworks uses.
// The real library is not available offline.  The one freedom the real library has, the choice
// of a topological order, is a decision of the simulator (see ade_shim_pick below).
#pragma once
#include <algorithm>
#include <cstddef>
#include <functional>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <string>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

// Returns a number in [0, n).  Weak: without a simulator the first candidate is taken.
extern "C" unsigned ade_shim_pick(unsigned n) __attribute__((weak));

namespace ade {

class Graph;
class Node;
class Edge;

template <typename T>
class Handle {
public:
    Handle() = default;
    Handle(std::nullptr_t) {}
    explicit Handle(const std::shared_ptr<T>& p) : m_p(p) {}
    T* get() const { return m_p.lock().get(); }
    T* operator->() const {
        T* p = get();
        if (!p) throw std::logic_error("ade: dead handle");
        return p;
    }
    friend bool operator==(const Handle& a, const Handle& b) { return a.get() == b.get(); }
    friend bool operator!=(const Handle& a, const Handle& b) { return a.get() != b.get(); }
    friend bool operator==(const Handle& a, std::nullptr_t) { return !a.get(); }
    friend bool operator!=(const Handle& a, std::nullptr_t) { return a.get(); }
    explicit operator bool() const { return get() != nullptr; }
private:
    std::weak_ptr<T> m_p;
};

using NodeHandle = Handle<Node>;
using EdgeHandle = Handle<Edge>;

namespace details {
class Metadata {
public:
    template <typename T> bool contains() const { return m_data.count(T::name()) != 0; }
    template <typename T> void set(const T& v) { m_data[T::name()] = std::make_shared<Holder<T>>(v); }
    template <typename T> void erase() { m_data.erase(T::name()); }
    template <typename T> const T& get() const { return find<T>(); }
    template <typename T> T& get() { return find<T>(); }
    template <typename T> T get(T def) const { return contains<T>() ? find<T>() : def; }
private:
    struct Base { virtual ~Base() = default; };
    template <typename T> struct Holder : Base { explicit Holder(const T& x) : v(x) {} T v; };
    template <typename T> T& find() const {
        auto it = m_data.find(T::name());
        if (it == m_data.end()) throw std::logic_error(std::string("ade: no metadata ") + T::name());
        auto* h = dynamic_cast<Holder<T>*>(it->second.get());
        if (!h) throw std::logic_error(std::string("ade: wrong metadata type ") + T::name());
        return h->v;
    }
    std::unordered_map<std::string, std::shared_ptr<Base>> m_data;
};
} // namespace details

class Edge {
public:
    Edge(Node* s, Node* d) : m_src(s), m_dst(d) {}
    NodeHandle srcNode() const;
    NodeHandle dstNode() const;
    Node *m_src, *m_dst;
    details::Metadata m_meta;
};

class Node : public std::enable_shared_from_this<Node> {
public:
    const std::vector<EdgeHandle>& inEdges() const { return m_in; }
    const std::vector<EdgeHandle>& outEdges() const { return m_out; }
    std::vector<NodeHandle> inNodes() const {
        std::vector<NodeHandle> r;
        for (auto& e : m_in) r.push_back(e->srcNode());
        return r;
    }
    std::vector<NodeHandle> outNodes() const {
        std::vector<NodeHandle> r;
        for (auto& e : m_out) r.push_back(e->dstNode());
        return r;
    }
    std::vector<EdgeHandle> m_in, m_out;
    details::Metadata m_meta;
};

inline NodeHandle Edge::srcNode() const { return NodeHandle(m_src->shared_from_this()); }
inline NodeHandle Edge::dstNode() const { return NodeHandle(m_dst->shared_from_this()); }

class Graph {
public:
    Graph() = default;
    Graph(const Graph&) = delete;
    Graph& operator=(const Graph&) = delete;

    NodeHandle createNode() {
        m_nodes.push_back(std::make_shared<Node>());
        return NodeHandle(m_nodes.back());
    }
    EdgeHandle link(const NodeHandle& s, const NodeHandle& d) {
        m_edges.push_back(std::make_shared<Edge>(s.get(), d.get()));
        EdgeHandle eh(m_edges.back());
        s->m_out.push_back(eh);
        d->m_in.push_back(eh);
        return eh;
    }
    std::vector<NodeHandle> nodes() const {
        std::vector<NodeHandle> r;
        for (auto& n : m_nodes) r.emplace_back(n);
        return r;
    }
    details::Metadata& metadata() { return m_meta; }
    const details::Metadata& metadata() const { return m_meta; }
    details::Metadata& metadata(const NodeHandle& nh) { return nh->m_meta; }
    const details::Metadata& metadata(const NodeHandle& nh) const { return nh->m_meta; }
    details::Metadata& metadata(const EdgeHandle& eh) { return eh->m_meta; }
    const details::Metadata& metadata(const EdgeHandle& eh) const { return eh->m_meta; }

    std::vector<std::shared_ptr<Node>> m_nodes;
    std::vector<std::shared_ptr<Edge>> m_edges;
    details::Metadata m_meta;
};

} // namespace ade
