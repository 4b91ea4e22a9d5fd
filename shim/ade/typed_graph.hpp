#pragma once
#include <ade/graph.hpp>

namespace ade {

template <class... Types>
class TypedMetadata {
public:
    explicit TypedMetadata(MetaBag& b) : b(&b) {}
    template <class T> bool contains() const { return b->contains<std::decay_t<T>>(); }
    template <class T> void set(T&& v) { b->set<std::decay_t<T>>(v); }
    template <class T> void erase() { b->erase<T>(); }
    template <class T> T& get() const { return b->get<T>(); }
    template <class T> T get(T def) const { return b->contains<T>() ? b->get<T>() : def; }
private:
    MetaBag* b;
};

template <class... Types>
class TypedGraph {
public:
    using MetadataT  = TypedMetadata<Types...>;
    using CMetadataT = TypedMetadata<Types...>;
    TypedGraph(Graph& g) : g(&g) {}
    NodeHandle createNode() { return g->createNode(); }
    template <class A, class B> EdgeHandle link(const A& a, const B& b) { return g->link(a, b); }
    template <class H> void erase(const H& h) { g->erase(h); }
    std::vector<NodeHandle> nodes() const { return g->nodes(); }
    MetadataT metadata() const { return MetadataT(g->metadata()); }
    MetadataT metadata(const NodeHandle& n) const { return MetadataT(g->metadata(n)); }
    MetadataT metadata(const EdgeHandle& e) const { return MetadataT(g->metadata(e)); }
    Graph& graph() const { return *g; }
    operator Graph&() const { return *g; }
private:
    Graph* g;
};
template <class... Types> using ConstTypedGraph = TypedGraph<Types...>;

} // namespace ade
