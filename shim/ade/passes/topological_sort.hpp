#pragma once
#include <ade/graph.hpp>
#include <ade/typed_graph.hpp>

namespace ade { namespace passes {

struct PassContext { Graph& graph; };
template <class... T> struct TypedPassContext {
    TypedGraph<T...> graph;
    TypedPassContext(PassContext& c) : graph(c.graph) {}
};

class TopologicalSortData {
public:
    TopologicalSortData() = default;
    explicit TopologicalSortData(std::vector<NodeHandle> n) : ns(std::move(n)) {}
    static const char* name() { return "TopologicalSortData"; }
    std::vector<NodeHandle> nodes() const { return ns; }
private:
    std::vector<NodeHandle> ns;
};

struct TopologicalSort {
    static std::string name() { return "TopologicalSort"; }
    void operator()(PassContext& ctx) const {
        // Depth-first post-order over the inputs, visiting nodes in creation order (as ade does).
        std::vector<NodeHandle> order;
        std::unordered_map<Node*, int> mark;   // 1: on the path, 2: done
        for (auto root : ctx.graph.nodes()) {
            if (mark[root.get()] == 2) continue;
            struct Frame { NodeHandle n; std::vector<NodeHandle> in; size_t i; };
            std::vector<Frame> st;
            st.push_back({root, root->inNodes(), 0});
            mark[root.get()] = 1;
            while (!st.empty()) {
                Frame& f = st.back();
                if (f.i < f.in.size()) {
                    NodeHandle x = f.in[f.i++];
                    int m = mark[x.get()];
                    if (m == 2) continue;
                    if (m == 1) throw std::logic_error("ade: cycle in graph");
                    mark[x.get()] = 1;
                    st.push_back({x, x->inNodes(), 0});
                } else {
                    mark[f.n.get()] = 2;
                    order.push_back(f.n);
                    st.pop_back();
                }
            }
        }
        ctx.graph.metadata().set(TopologicalSortData(std::move(order)));
    }
};

}} // namespace ade::passes
