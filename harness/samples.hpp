// Workload for the sample programs: data set trees of known content, a directory listing whose order is
// chosen by the harness, and child processes in place of separate program runs.
#pragma once
#include "images.hpp"
#include <deepworks/dataloader.hpp>
#include <dlfcn.h>
#include <sys/wait.h>
#include <poll.h>

std::shared_ptr<dw::IDataset> make_iris(const std::string&), make_mnist(const std::string&), make_cifar10(const std::string&), make_cifar100(const std::string&);

// ---- directory listings in a chosen order: readdir is interposed
struct Listing { std::vector<std::string> raw; size_t at = 0; };
inline std::map<DIR*, Listing>& listings() { static std::map<DIR*, Listing> m; return m; }
inline uint64_t g_order = 0; inline long g_shuffled = 0;
inline struct dirent* ordered_readdir(DIR* d) {
    using F = struct dirent* (*)(DIR*); static F next = F(dlsym(RTLD_NEXT, "readdir"));
    if (!g_order) return next(d);
    auto it = listings().find(d);
    if (it == listings().end()) {
        Listing l; errno = 0;
        while (struct dirent* e = next(d)) l.raw.push_back(std::string(reinterpret_cast<char*>(e), offsetof(struct dirent, d_name) + strlen(e->d_name) + 1));
        if (errno) return nullptr;
        std::sort(l.raw.begin(), l.raw.end(), [](const std::string& a, const std::string& b) { return strcmp(a.c_str() + offsetof(struct dirent, d_name), b.c_str() + offsetof(struct dirent, d_name)) < 0; });
        Rng r(g_order); for (size_t i = l.raw.size(); i > 1; --i) std::swap(l.raw[i - 1], l.raw[r.next() % i]);
        if (l.raw.size() > 3) ++g_shuffled;
        it = listings().emplace(d, std::move(l)).first;
    }
    static struct dirent out;
    Listing& l = it->second; if (l.at >= l.raw.size()) return nullptr;
    memcpy(&out, l.raw[l.at].data(), l.raw[l.at].size()); ++l.at; return &out;
}
extern "C" struct dirent* readdir(DIR* d) { return ordered_readdir(d); }
extern "C" int closedir(DIR* d) { using F = int (*)(DIR*); static F next = F(dlsym(RTLD_NEXT, "closedir")); listings().erase(d); return next(d); }

// ---- files
inline void mkdirs(const std::string& p) { for (size_t i = 1; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755); }
inline void rm_tree(const std::string& p) {          // only ever called on directories below the check's own scratch directory
    if (p.find("/run.C") == std::string::npos) harness_error("refusing to remove " + p);
    DIR* d = opendir(p.c_str()); if (!d) { unlink(p.c_str()); return; }
    std::vector<std::string> v; while (auto* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); } closedir(d);
    for (auto& n : v) { struct stat st; std::string q = p + "/" + n; if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(q); else unlink(q.c_str()); }
    rmdir(p.c_str());
}
inline Bytes encode_png(int w, int h, int ch, const Bytes& px) {
    Bytes f; png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr); png_infop inf = png_create_info_struct(p);
    if (!p || !inf || setjmp(png_jmpbuf(p))) harness_error("png encoding failed");
    png_set_write_fn(p, &f, png_out, nullptr); png_set_compression_level(p, 1);
    png_set_IHDR(p, inf, png_uint_32(w), png_uint_32(h), 8, ch == 1 ? PNG_COLOR_TYPE_GRAY : PNG_COLOR_TYPE_RGB, PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    png_write_info(p, inf);
    for (int y = 0; y < h; ++y) png_write_row(p, const_cast<png_bytep>(px.data() + size_t(y) * size_t(w) * size_t(ch)));
    png_write_end(p, nullptr); png_destroy_write_struct(&p, &inf); return f;
}
// One labelled sample: what the data set has to deliver.
struct Rec { std::string cls; std::vector<float> x; std::string path; };
// Writes a w*h*ch image of the pixels; x is in channel-major order, scaled to [0, 1].
inline Rec put_image(const std::string& root, const std::string& cls, const std::string& file, int w, int h, int ch, const Bytes& px) {
    Rec rec; rec.cls = cls; rec.path = root + "/" + cls + "/" + file; mkdirs(root + "/" + cls); put_file(rec.path, encode_png(w, h, ch, px));
    rec.x.resize(px.size()); size_t hw = size_t(w) * size_t(h);
    for (size_t i = 0; i < hw; ++i) for (int k = 0; k < ch; ++k) rec.x[size_t(k) * hw + i] = float(px[i * size_t(ch) + size_t(k)] / 255.0);
    return rec;
}
static const std::vector<std::string> IRIS{"setosa", "versicolor", "virginica"};
static const std::vector<std::string> CIFAR10{"airplane", "automobile", "bird", "cat", "deer", "dog", "frog", "horse", "ship", "truck"};
inline int index_of(const std::vector<std::string>& v, const std::string& s) { auto it = std::find(v.begin(), v.end(), s); return it == v.end() ? -1 : int(it - v.begin()); }
inline std::string class_name(Rng& r) { static const char* w[] = {"apple", "bee", "cup", "wolf", "tank", "Zebra", "a b", "x.y", "10", "9", "rose", "tulip", "_", "maple_tree", "-z"}; std::string s = w[r.next() % 15]; if (r.chance(1, 2)) s += std::to_string(r.range(0, 99)); return s; }

// ---- a program run: f in a child process, its standard output captured
struct Run { bool died = false, timeout = false; int status = 0; std::string out; };
inline Run in_child(Ctx& c, const std::string& tag, const std::function<int()>& f) {
    std::string path = c.work + "/" + tag + ".out"; fflush(nullptr);
    pid_t p = fork(); if (p < 0) harness_error("fork");
    if (p == 0) {
        int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0 || dup2(fd, 1) < 0) _exit(9);
        int rc = 99;
        try { rc = f(); } catch (const std::exception& e) { printf("EXCEPTION %s\n", e.what()); rc = 98; }
        std::cout.flush(); fflush(nullptr); _exit(rc);
    }
    Run r; int st = 0; if (waitpid(p, &st, 0) != p) harness_error("waitpid");
    r.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    FILE* fp = fopen(path.c_str(), "rb"); if (fp) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) r.out.append(b, n); fclose(fp); } unlink(path.c_str());
    r.died = r.status < 0 || r.status == 86 || r.status == 99;
    return r;
}
