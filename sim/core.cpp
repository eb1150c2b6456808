#include "core.h"
#include <stdarg.h>

std::string fmt(const char *f, ...) {
    va_list ap; va_start(ap, f); char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
std::string hexs(const std::string &s) {
    static const char *d = "0123456789abcdef"; std::string r;
    for (char ch : s) { u8 c = (u8)ch; r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
std::string show(const std::string &s) {
    std::string r;
    for (char ch : s) {
        u8 c = (u8)ch;
        if (c == 0x1b) r += "\\e";
        else if (c >= 0x20 && c < 0x7f && c != '\\') r += (char)c;
        else r += fmt("\\x%02x", c);
    }
    return r;
}
std::string trace_dump(const Trace &t) {
    std::string r = "libtsm-sim-trace 1\nprop " + t.prop + fmt("\nseed %llu\n", (unsigned long long)t.seed);
    for (auto &kv : t.cfg) r += fmt("cfg %s %lld\n", kv.first.c_str(), (long long)kv.second);
    for (auto &e : t.ev) {
        r += fmt("ev %llu %s %zu", (unsigned long long)e.t, e.op.c_str(), e.a.size());
        for (i64 v : e.a) r += fmt(" %lld", (long long)v);
        r += " "; r += e.b.empty() ? "-" : hexs(e.b);
        if (!e.b.empty()) r += "   # " + show(e.b.substr(0, 120));
        r += "\n";
    }
    r += "end\n";
    return r;
}
bool trace_load(const std::string &path, Trace &t) {
    FILE *f = fopen(path.c_str(), "r"); if (!f) return false;
    t = Trace();
    std::string all; char buf[65536]; size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0) all.append(buf, n);
    fclose(f);
    size_t pos = 0; bool ended = false;
    while (pos < all.size()) {
        size_t nl = all.find('\n', pos); if (nl == std::string::npos) nl = all.size();
        std::string l = all.substr(pos, nl - pos); pos = nl + 1;
        std::vector<std::string> w; size_t i = 0;
        while (i < l.size()) {
            size_t j = l.find(' ', i); if (j == std::string::npos) j = l.size();
            if (j > i) w.push_back(l.substr(i, j - i));
            i = j + 1;
        }
        if (w.empty()) continue;
        if (w[0] == "prop" && w.size() > 1) t.prop = w[1];
        else if (w[0] == "seed" && w.size() > 1) t.seed = strtoull(w[1].c_str(), 0, 10);
        else if (w[0] == "cfg" && w.size() > 2) t.cfg[w[1]] = strtoll(w[2].c_str(), 0, 10);
        else if (w[0] == "end") ended = true;
        else if (w[0] == "ev" && w.size() >= 4) {
            Ev e; e.t = strtoull(w[1].c_str(), 0, 10); e.op = w[2];
            size_t k = strtoul(w[3].c_str(), 0, 10);
            if (w.size() < 5 + k) return false;
            for (size_t q = 0; q < k; ++q) e.a.push_back(strtoll(w[4 + q].c_str(), 0, 10));
            const std::string &h = w[4 + k];
            if (h != "-") for (size_t q = 0; q + 1 < h.size(); q += 2) e.b += (char)strtol(h.substr(q, 2).c_str(), 0, 16);
            t.ev.push_back(e);
        }
    }
    return ended;
}
