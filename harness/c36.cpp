// The DOT export of a model is read back with an independent DOT parser and compared with the network that was built.
#include "ser.hpp"
const char* PROP = "C36";
uint64_t ncases(const Ctx& c) { return c.thorough ? 400000 : 16000; }

// ---- DOT (the grammar of graphviz.org/doc/info/lang.html, without HTML strings and sub-graphs)
struct Tok { char kind; std::string s; };                                        // 'i' identifier (quoted: 'q'), otherwise punctuation; '>' is an arrow
struct Dot {
    std::string err; std::string type, id; typedef std::map<std::string, std::string> Attr;
    std::vector<std::pair<std::string, Attr>> nodes; struct Edge { std::string a, b; Attr at; }; std::vector<Edge> edges;
    std::vector<Tok> t; size_t p = 0;
    static std::string lower(std::string s) { for (char& ch : s) if (ch >= 'A' && ch <= 'Z') ch = char(ch + 32); return s; }
    void fail(const std::string& m) { if (err.empty()) err = m + " (token " + std::to_string(p) + (p < t.size() ? " '" + t[p].s + "'" : "") + ")"; }
    bool lex(const std::string& s) {
        size_t i = 0; bool bol = true;
        while (i < s.size()) {
            unsigned char ch = (unsigned char)s[i];
            if (ch == '\n') { bol = true; ++i; continue; } if (strchr(" \t\r\f\v", ch) && ch) { ++i; continue; }
            if (ch == '#' && bol) { while (i < s.size() && s[i] != '\n') ++i; continue; } bol = false;
            if (ch == '/' && i + 1 < s.size() && s[i + 1] == '/') { while (i < s.size() && s[i] != '\n') ++i; continue; }
            if (ch == '/' && i + 1 < s.size() && s[i + 1] == '*') { size_t e = s.find("*/", i + 2); if (e == std::string::npos) { fail("comment without end"); return false; } i = e + 2; continue; }
            auto word = [](unsigned char k) { return isalpha(k) || k == '_' || k >= 128; };
            if (ch == '"') { std::string v; ++i; bool done = false; while (i < s.size()) { if (s[i] == '\\' && i + 1 < s.size() && (s[i + 1] == '"' || s[i + 1] == '\\')) { v += s[i + 1]; i += 2; } else if (s[i] == '"') { ++i; done = true; break; } else if (!s[i]) break; else v += s[i++]; } if (!done) { fail("string without end"); return false; } t.push_back({'q', v}); }
            else if (word(ch)) { size_t b = i; while (i < s.size() && (word((unsigned char)s[i]) || isdigit((unsigned char)s[i]))) ++i; t.push_back({'i', s.substr(b, i - b)}); }
            else if (ch == '-' && i + 1 < s.size() && s[i + 1] == '>') { t.push_back({'>', "->"}); i += 2; }
            else if (isdigit(ch) || ch == '.' || (ch == '-' && i + 1 < s.size() && (isdigit((unsigned char)s[i + 1]) || s[i + 1] == '.'))) { size_t b = i++; while (i < s.size() && (isdigit((unsigned char)s[i]) || s[i] == '.')) ++i; t.push_back({'i', s.substr(b, i - b)}); if (i < s.size() && word((unsigned char)s[i])) { fail("badly delimited number"); return false; } }
            else if (strchr("{}[]=;,", ch) && ch) { t.push_back({char(ch), std::string(1, char(ch))}); ++i; }
            else { fail(std::string("unexpected character '") + char(ch) + "'"); return false; }
        }
        return true;
    }
    bool is(char k) { return p < t.size() && t[p].kind == k; }
    bool take(char k) { if (is(k)) { ++p; return true; } return false; }
    bool ident(std::string& v) { if (!is('i') && !is('q')) { fail("identifier expected"); return false; } v = t[p++].s; return true; }
    bool attrs(Attr& a) { while (take('[')) { while (!is(']')) { std::string k, v; if (!ident(k)) return false; if (!take('=')) { fail("= expected"); return false; } if (!ident(v)) return false; a[k] = v; if (!take(',')) take(';'); if (p >= t.size()) { fail("attribute list without end"); return false; } } ++p; } return true; }
    bool parse(const std::string& text) {
        if (!lex(text)) return false;
        if (is('i') && lower(t[p].s) == "strict") ++p;
        if (!is('i')) { fail("graph type expected"); return false; } type = lower(t[p++].s); if (type != "digraph") { fail("not a directed graph"); return false; }
        if (!is('{') && !ident(id)) return false;
        if (!take('{')) { fail("{ expected"); return false; }
        while (!is('}')) {
            if (p >= t.size()) { fail("graph without end"); return false; }
            bool quoted = is('q'); std::string a; if (!ident(a)) return false; std::string l = lower(a); Attr at;
            if (!quoted && (l == "graph" || l == "node" || l == "edge")) { if (!is('[')) { fail("attributes expected"); return false; } if (!attrs(at)) return false; }
            else if (!quoted && (l == "subgraph" || l == "digraph" || l == "strict")) { fail("keyword used as a name"); return false; }
            else if (take('=')) { std::string v; if (!ident(v)) return false; }
            else if (is('>')) { std::vector<std::string> ch{a}; while (take('>')) { bool q = is('q'); std::string b; if (!ident(b)) return false; std::string lb = lower(b); if (!q && (lb == "graph" || lb == "node" || lb == "edge" || lb == "subgraph" || lb == "digraph" || lb == "strict")) { fail("keyword used as a name"); return false; } ch.push_back(b); } if (!attrs(at)) return false; for (size_t i = 0; i + 1 < ch.size(); ++i) edges.push_back({ch[i], ch[i + 1], at}); }
            else { if (!attrs(at)) return false; nodes.push_back({a, at}); }
            take(';');
        }
        ++p; if (p != t.size()) { fail("something after the end of the graph"); return false; }
        return true;
    }
};
static std::vector<long> integers(const std::string& s) { std::vector<long> v; for (size_t i = 0; i < s.size();) if (isdigit((unsigned char)s[i])) { size_t n = 0; v.push_back(std::stol(s.substr(i, 15), &n)); i += n; } else ++i; return v; }

static bool judge(Ctx& c, const std::string& key, const Net& n, const std::string& text) {
    Dot d; if (!d.parse(text)) { c.fail(key + ":syntax", "not a DOT graph: " + d.err); return false; }
    std::map<std::string, const Dot::Attr*> node; for (auto& kv : d.nodes) if (!node.emplace(kv.first, &kv.second).second) { c.fail(key + ":nodes", "node " + kv.first + " described twice"); return false; }
    if (node.size() != n.ops.size() + n.shape.size()) { c.failf(key + ":nodes", "%zu nodes, the model has %zu layers and %zu data", node.size(), n.ops.size(), n.shape.size()); return false; }
    std::map<std::string, size_t> op; std::set<std::string> data; for (auto& kv : node) data.insert(kv.first);
    for (size_t k = 0; k < n.ops.size(); ++k) {
        std::string name = n.ops[k].info.name(), type = lt_name(n.ops[k].s.t); auto it = node.find(name); if (it == node.end()) { c.fail(key + ":layer", "no node for layer '" + name + "'"); return false; }
        auto l = it->second->find("label"); if (l == it->second->end() || l->second.find(name) != 0 || l->second.find(type, name.size()) == std::string::npos) { c.fail(key + ":layer", "the node of layer '" + name + "' does not show its name and type " + type); return false; }
        op[name] = k; data.erase(name);
    }
    // every edge joins a layer and a data node; the data nodes correspond one to one to the data of the network
    std::map<int, std::string> of; std::map<std::string, int> back; std::set<std::pair<size_t, long>> in, out;
    for (auto& e : d.edges) {
        if (!node.count(e.a) || !node.count(e.b)) { c.fail(key + ":edge", "edge to a node that is not described: " + e.a + " -> " + e.b); return false; }
        bool to = op.count(e.b) != 0; if (to == (op.count(e.a) != 0)) { c.fail(key + ":edge", "edge " + e.a + " -> " + e.b + " does not join a layer and data"); return false; }
        size_t k = to ? op[e.b] : op[e.a]; auto l = e.at.find("label"); std::vector<long> port; if (l != e.at.end()) port = integers(l->second); if (port.size() != 1) { c.fail(key + ":edge", "edge without port number"); return false; }
        if (!(to ? in : out).insert({k, port[0]}).second) { c.fail(key + ":edge", "two edges at the same port of " + n.ops[k].info.name()); return false; }
        if (to ? port[0] >= long(n.ops[k].in.size()) : port[0] != 0) { c.failf(key + ":edge", "port %ld of %s does not exist", port[0], n.ops[k].info.name().c_str()); return false; }
        int id = to ? n.ops[k].in[size_t(port[0])] : n.ops[k].out; const std::string& dn = to ? e.a : e.b;
        if (!of.emplace(id, dn).second && of[id] != dn) { c.fail(key + ":edge", "data " + std::to_string(id) + " drawn as " + of[id] + " and " + dn); return false; }
        if (!back.emplace(dn, id).second && back[dn] != id) { c.fail(key + ":edge", dn + " stands for different data"); return false; }
        c.count("edges");
    }
    for (size_t k = 0; k < n.ops.size(); ++k) { for (size_t i = 0; i < n.ops[k].in.size(); ++i) if (!in.count({k, long(i)})) { c.fail(key + ":edge", "an input of " + n.ops[k].info.name() + " is not drawn"); return false; } if (!out.count({k, 0})) { c.fail(key + ":edge", "the output of " + n.ops[k].info.name() + " is not drawn"); return false; } }
    for (auto& x : data) {
        if (!back.count(x)) { c.fail(key + ":nodes", "data node " + x + " is not connected"); return false; }
        auto l = node[x]->find("label"); std::string lab = l == node[x]->end() ? "" : l->second; if (lab.compare(0, x.size(), x) == 0) lab = lab.substr(x.size());
        std::vector<long> dims = integers(lab); const Shape& s = n.shape[size_t(back[x])]; if (dims.size() != s.size() || !std::equal(s.begin(), s.end(), dims.begin())) { c.fail(key + ":shape", x + " is labelled '" + lab + "', its shape is " + str(s)); return false; }
    }
    c.count("nodes", node.size()); c.count("exports");
    return true;
}
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; NetOpt o; if (idx % 4 == 0) o.max_ops = 4; if (idx % 16 == 5) { o.max_ops = 40; o.batch = 2; o.hw = 4; }
    const bool lng = idx % 400 == 9; Net n = lng ? long_net(r, r.of({140, 300})) : gen_net(r, o); if (lng) c.count("long_networks");
    bool odd = r.chance(2, 3);
    if (odd) {
        static const char* names[] = {"with space", "UPPER", "a.b", "\xd0\xb8\xd0\xbc\xd1\x8f", "x", "quote\"s", "\"", "\\", "end\\", "\\\"", "\\n", "new\nline", "0", "-", "-5", "3.14", "1abc", "a-b", "a->b", "a;b", "[x]", "{", "}", "=", ", ", "#hash", "//c", "/*", "*/", "<b>", "node", "Graph", "EDGE", "digraph", "subgraph", "strict", "Placeholder", "label", " ", "very_long_name_that_exceeds_any_small_string_buffer_0123456789_0123456789", "\\\\", "\"]", "\" [label=\"", "tab\t", "block1.conv-2/weight:0"};
        std::set<std::string> used; for (auto& q : n.ops) used.insert(q.info.name());
        for (auto& q : n.ops) if (r.chance(1, 2)) { std::string s = names[r.next() % (sizeof names / sizeof *names)]; if (r.chance(1, 3)) s += names[r.next() % (sizeof names / sizeof *names)]; while (!used.insert(s).second) s += std::to_string(r.range(0, 9)); q.info.impl().name = s; }
        c.count("odd_names");
    }
    int how = int(idx % 5); static const char* hn[] = {"built", "loaded", "rebuilt", "config-file", "trained"}; std::string key = hn[how], f = c.work + "/m.dot", g = c.work + "/m.bin";
    c.desc("%s|%s", hn[how], n.str().c_str()); dw::Model m = n.model(); c.count("models"); c.count(std::string("from_") + hn[how]);
    unlink(f.c_str()); if (r.chance(1, 3)) spit(f, std::string(size_t(r.range(0, 20000)), '{'));
    switch (how) {
        case 0: dw::save_dot(m.cfg(), f); break;
        case 1: { dw::save(m, g); dw::Model l = dw::load(g); dw::save_dot(l.cfg(), f); unlink(g.c_str()); break; }
        case 2: { dw::Model l = dw::Model::Build(m.cfg()); dw::save_dot(l.cfg(), f); break; }
        case 3: { dw::save_cfg(m.cfg(), g); auto cf = dw::load_cfg(g); dw::save_dot(cf, f); unlink(g.c_str()); break; }
        default: { m.compile(); std::vector<Tensor> x, y; for (int i : n.ins) { Tensor t(n.shape[size_t(i)]); fill(r, t.data(), t.total(), SGN); x.push_back(t); } for (int i : n.outs) y.push_back(Tensor(n.shape[size_t(i)])); m.forward(x, y); m.backward(x, y, y); dw::save_dot(m.cfg(), f); }
    }
    std::string text = slurp(f); if (!judge(c, key, n, text)) return;
    if (r.chance(1, 4)) { dw::save_dot(m.cfg(), f); if (!judge(c, key + "-again", n, slurp(f))) return; }
    unlink(f.c_str());

}
