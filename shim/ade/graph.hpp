// Stand-in for the parts of opencv/ade that deepworks uses (thirdparty/ade is an empty submodule
// here).  Semantics follow ade: a Graph owns nodes and edges, handles are weak references, nodes list
// their edges in link order, metadata is a type-indexed bag attached to graph, nodes and edges.
#pragma once
#include <any>
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace ade {

class Node;
class Edge;
class Graph;

class MetaBag {
public:
    template <class T> bool contains() const { return m.count(std::type_index(typeid(T))) != 0; }
    template <class T> void erase() { m.erase(std::type_index(typeid(T))); }
    template <class T> void set(const T& v) { m[std::type_index(typeid(T))] = std::make_shared<Holder<T>>(v); }
    template <class T> T& get() {
        auto it = m.find(std::type_index(typeid(T)));
        if (it == m.end()) throw std::logic_error(std::string("ade: no metadata ") + typeid(T).name());
        return static_cast<Holder<T>*>(it->second.get())->v;
    }
    template <class T> const T& get() const { return const_cast<MetaBag*>(this)->get<T>(); }
    template <class T> T get(T def) const {
        return contains<T>() ? get<T>() : def;
    }
private:
    struct Base { virtual ~Base() = default; };
    template <class T> struct Holder : Base { T v; Holder(const T& x) : v(x) {} };
    std::unordered_map<std::type_index, std::shared_ptr<Base>> m;
};

template <class T>
class Handle {
public:
    Handle() = default;
    Handle(std::nullptr_t) {}
    explicit Handle(const std::shared_ptr<T>& p) : w(p) {}
    T* get() const { return w.lock().get(); }
    T* operator->() const { T* p = get(); assert(p); return p; }
    T& operator*() const { return *get(); }
    bool operator==(const Handle& o) const { return get() == o.get(); }
    bool operator!=(const Handle& o) const { return get() != o.get(); }
    bool operator==(std::nullptr_t) const { return get() == nullptr; }
    bool operator!=(std::nullptr_t) const { return get() != nullptr; }
    explicit operator bool() const { return get() != nullptr; }
private:
    std::weak_ptr<T> w;
};
template <class T> bool operator<(const Handle<T>& a, const Handle<T>& b) { return a.get() < b.get(); }

using NodeHandle = Handle<Node>;
using EdgeHandle = Handle<Edge>;

template <class T> struct HandleHasher { size_t operator()(const Handle<T>& h) const { return std::hash<T*>()(h.get()); } };
template <class T> using HandleSet = std::unordered_set<Handle<T>, HandleHasher<T>>;
template <class T, class V> using HandleMap = std::unordered_map<Handle<T>, V, HandleHasher<T>>;

class Edge {
public:
    NodeHandle srcNode() const { return s; }
    NodeHandle dstNode() const { return d; }
private:
    friend class Graph;
    NodeHandle s, d;
    MetaBag meta;
};

class Node {
public:
    using NodeVec = std::vector<NodeHandle>;
    using EdgeVec = std::vector<EdgeHandle>;
    EdgeVec inEdges() const { return in; }
    EdgeVec outEdges() const { return out; }
    NodeVec inNodes() const { NodeVec r; for (auto& e : in) r.push_back(e->srcNode()); return r; }
    NodeVec outNodes() const { NodeVec r; for (auto& e : out) r.push_back(e->dstNode()); return r; }
private:
    friend class Graph;
    EdgeVec in, out;
    MetaBag meta;
};

class Graph {
public:
    Graph() = default;
    Graph(const Graph&) = delete;
    Graph& operator=(const Graph&) = delete;
    NodeHandle createNode() { ns.push_back(std::make_shared<Node>()); return NodeHandle(ns.back()); }
    EdgeHandle link(const NodeHandle& a, const NodeHandle& b) {
        assert(a && b);
        es.push_back(std::make_shared<Edge>());
        auto& e = es.back(); e->s = a; e->d = b;
        EdgeHandle h(e);
        a->out.push_back(h); b->in.push_back(h);
        return h;
    }
    EdgeHandle link(const NodeHandle& a, const EdgeHandle& e) { auto d = e->dstNode(); unlink(e); return link(a, d); }
    EdgeHandle link(const EdgeHandle& e, const NodeHandle& b) { auto s = e->srcNode(); unlink(e); return link(s, b); }
    void unlink(const EdgeHandle& e) {
        auto rm = [&](std::vector<EdgeHandle>& v) { v.erase(std::remove(v.begin(), v.end(), e), v.end()); };
        if (e->srcNode()) rm(e->srcNode()->out);
        if (e->dstNode()) rm(e->dstNode()->in);
        Edge* p = e.get();
        es.erase(std::remove_if(es.begin(), es.end(), [&](auto& x) { return x.get() == p; }), es.end());
    }
    void erase(const EdgeHandle& e) { unlink(e); }
    void erase(const NodeHandle& n) {
        for (auto e : n->inEdges()) unlink(e);
        for (auto e : n->outEdges()) unlink(e);
        Node* p = n.get();
        ns.erase(std::remove_if(ns.begin(), ns.end(), [&](auto& x) { return x.get() == p; }), ns.end());
    }
    std::vector<NodeHandle> nodes() const { std::vector<NodeHandle> r; for (auto& n : ns) r.emplace_back(n); return r; }
    MetaBag& metadata() { return meta; }
    MetaBag& metadata(const NodeHandle& n) { return n->meta; }
    MetaBag& metadata(const EdgeHandle& e) { return e->meta; }
    const MetaBag& metadata() const { return meta; }
    const MetaBag& metadata(const NodeHandle& n) const { return n->meta; }
    const MetaBag& metadata(const EdgeHandle& e) const { return e->meta; }
private:
    std::vector<std::shared_ptr<Node>> ns;
    std::vector<std::shared_ptr<Edge>> es;
    MetaBag meta;
};

using Metadata = MetaBag;

} // namespace ade
