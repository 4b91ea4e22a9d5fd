// What a model configuration says, independent of internal numbering.
#pragma once
#include "net.hpp"
#include <deepworks/serialization.hpp>
inline std::string attr_str(const dw::Attribute& a) {
    char b[80]; const char* t = a.type() == dw::AttrType::INT ? "i" : a.type() == dw::AttrType::FLOAT ? "f" : "?";
    if (a.shape() == dw::AttrShape::ARRAY2) { if (*t == 'i') { auto v = a.get<std::array<int, 2>>(); snprintf(b, sizeof b, "i2:%d,%d", v[0], v[1]); } else { auto v = a.get<std::array<float, 2>>(); snprintf(b, sizeof b, "f2:%08x,%08x", bits(v[0]), bits(v[1])); } }
    else if (*t == 'i') snprintf(b, sizeof b, "i:%d", a.get<int>()); else snprintf(b, sizeof b, "f:%08x", bits(a.get<float>()));
    return b;
}
inline std::string attrs_str(const dw::Attributes& a) { std::map<std::string, std::string> m; for (auto& kv : a) m[kv.first] = attr_str(kv.second); std::string r; for (auto& kv : m) r += kv.first + "=" + kv.second + ";"; return r; }
struct Arch { std::vector<std::string> in, out; std::map<std::string, std::string> ops; std::vector<std::string> problems;
    bool operator==(const Arch& o) const { return in == o.in && out == o.out && ops == o.ops; }
    std::string diff(const Arch& o) const {
        if (in != o.in) return "inputs differ"; if (out != o.out) { std::string r = "outputs differ:"; for (auto& x : out) r += " " + x; r += " /"; for (auto& x : o.out) r += " " + x; return r; }
        for (auto& kv : ops) { auto it = o.ops.find(kv.first); if (it == o.ops.end()) return "layer '" + kv.first + "' missing"; if (it->second != kv.second) return "layer '" + kv.first + "': " + kv.second + " / " + it->second; }
        return ops.size() != o.ops.size() ? "additional layers" : ""; }
};
inline Arch arch(const dw::Model::Config& cfg) {
    Arch a; std::map<int, std::string> of;
    for (size_t i = 0; i < cfg.input_ids.size(); ++i) { int id = cfg.input_ids[i]; of[id] = "in" + std::to_string(i); auto it = cfg.ph_map.find(id); a.in.push_back(it == cfg.ph_map.end() ? "?" : str(it->second.shape)); }
    for (auto& op : cfg.sorted_ops) {
        std::string d = op.type + "{" + attrs_str(op.attrs) + "}(";
        for (int i : op.in_ids) { auto it = of.find(i); if (it == of.end()) a.problems.push_back("operation " + op.name + " uses data that is not produced before it"); d += (it == of.end() ? std::string("?") : it->second) + ","; }
        d += ")"; if (op.out_ids.size() != 1) { a.problems.push_back("operation " + op.name + " has no single output"); continue; }
        auto ph = cfg.ph_map.find(op.out_ids[0]); d += ph == cfg.ph_map.end() ? "?" : str(ph->second.shape);
        if (of.count(op.out_ids[0])) a.problems.push_back("data produced twice"); of[op.out_ids[0]] = "'" + op.name + "'";
        if (!a.ops.emplace(op.name, d).second) a.problems.push_back("operation " + op.name + " listed twice");
    }
    for (int i : cfg.output_ids) a.out.push_back(of.count(i) ? of[i] : "?");
    for (auto& kv : cfg.ph_map) if (kv.second.id != kv.first) a.problems.push_back("placeholder listed under another id");
    return a;
}
inline Arch arch(const Net& n) {
    Arch a; std::map<int, std::string> of; for (size_t i = 0; i < n.ins.size(); ++i) { of[n.ins[i]] = "in" + std::to_string(i); a.in.push_back(str(n.shape[size_t(n.ins[i])])); }
    for (auto& o : n.ops) { std::string d = std::string(lt_name(o.s.t)) + "{" + attrs_str(attrs_of(o.s)) + "}("; for (int i : o.in) d += of[i] + ","; a.ops[o.info.name()] = d + ")" + str(n.shape[size_t(o.out)]); of[o.out] = "'" + o.info.name() + "'"; }
    for (int i : n.outs) a.out.push_back(of[i]);
    return a;
}
inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
inline void spit(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f.write(s.data(), std::streamsize(s.size())); if (!f.flush()) harness_error("cannot write " + p); }
