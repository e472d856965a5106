// C30: paths and URIs made by the import library.
#include "common.hpp"
#include "FMI.h"

static const char *legal = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~:/?#[]@!$&'()*+,;=";

static int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }

static std::string show(const std::string &s) {
    std::string o;
    char b[8];
    for (unsigned char c : s) { if (c < 33 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += (char)c; }
    return o.size() > 200 ? o.substr(0, 200) + "..." : o;
}

// size: of the destination; everything lies in exact-size heap blocks
static void uri(const std::string &path, size_t size) {
    Buf<char> in(path.size() + 1), out(size);
    memcpy(in.p, path.c_str(), path.size() + 1);
    memset(out.p, 0x7e, size);
    size_t need = 7;
    for (char c : path) need += strchr(legal, c) ? 1 : 3;
    trace("FMIPathToURI(\"%s\", %zu)", show(path).c_str(), size);
    int rc;
    { InCall c("FMIPathToURI"); rc = FMIPathToURI(in.p, out.p, size); }
    count("evaluations");
    if (memcmp(in.p, path.c_str(), path.size() + 1)) fail("input", "the path was changed");
    if (rc != FMIOK) {
        if (size >= need + 4) fail("rejected", "\"%s\" is rejected though %zu characters are enough room for a URI of %zu", show(path).c_str(), size, need);
        feature("rejected %zu", path.size());
        return;
    }
    size_t len = 0;
    while (len < size && out.p[len]) len++;
    if (len == size) fail("terminator", "the URI of \"%s\" has no end within %zu characters", show(path).c_str(), size);
    std::string u(out.p, len), back;
    if (u.compare(0, 7, "file://")) fail("scheme", "\"%s\" does not start with file://", show(u).c_str());
    for (size_t i = 7; i < u.size(); i++) {
        if (u[i] == '%') {
            if (i + 2 >= u.size() || hex(u[i + 1]) < 0 || hex(u[i + 2]) < 0) fail("encoding", "\"%s\" has an incomplete percent sequence", show(u).c_str());
            back += (char)(hex(u[i + 1]) * 16 + hex(u[i + 2]));
            i += 2;
        } else if (!strchr(legal, u[i])) fail("illegal character", "\"%s\" contains the character %02x", show(u).c_str(), (unsigned char)u[i]);
        else back += u[i];
    }
    if (back != path) fail("decoding", "\"%s\" decodes to another path than \"%s\"", show(u).c_str(), show(path).c_str());
    feature("uri %zu %zu", path.size(), len);
    if (len > path.size() + 7) sample("%s -> %s", show(path).c_str(), show(u).c_str());
}

static void binary(const std::string &dir, const std::string &id, int version, size_t size) {
    Buf<char> a(dir.size() + 1), b(id.size() + 1), out(size);
    memcpy(a.p, dir.c_str(), dir.size() + 1);
    memcpy(b.p, id.c_str(), id.size() + 1);
    memset(out.p, 0x7e, size);
    bool slash = dir.empty() || dir.back() == '/' || dir.back() == '\\';
    std::string want = dir + (slash ? "" : "/") + "binaries/" + (version < 3 ? "linux64" : "x86_64-linux") + "/" + id + ".so";
    trace("FMIPlatformBinaryPath(\"%s\", \"%s\", %d, %zu)", show(dir).c_str(), show(id).c_str(), version, size);
    int rc;
    { InCall c("FMIPlatformBinaryPath"); rc = FMIPlatformBinaryPath(a.p, b.p, (FMIMajorVersion)version, out.p, size); }
    count("evaluations");
    if (rc != FMIOK) {
        if (size > want.size()) fail("rejected", "a path of %zu characters is rejected though there is room for %zu", want.size(), size);
        feature("rejected %zu", want.size());
        return;
    }
    if (size <= want.size()) fail("truncated", "success is reported though %zu characters do not fit into %zu", want.size(), size);
    if (strnlen(out.p, size) == size || want != out.p) fail("path", "\"%s\" instead of \"%s\"", show(std::string(out.p, strnlen(out.p, size))).c_str(), show(want).c_str());
    feature("path %d %zu", version, want.size());
}

static std::string text(Rng &r, size_t n) {
    std::string s;
    int kind = (int)r.below(4);
    while (s.size() < n) s += kind == 0 ? (char)r.irange(1, 255) : kind == 1 ? legal[r.below(84)] : kind == 2 ? (r.chance(0.8) ? legal[r.below(66)] : (char)r.irange(1, 255)) : " %\x80\xff\\\"<>^`{|}"[r.below(13)];
    return s;
}
static void silent(const char *, va_list) {}
void driverInit() { logErrorMessage = silent; }
size_t driverCases() { return 600 + opt.scale(6000, 60000); }
void driverCase(size_t i, Rng &r) {
    if (i < 256) {      // every byte alone and in between
        if (!i) { for (size_t n = 0; n < 40; n++) uri("", n); return; }
        std::string c(1, (char)i);
        for (std::string p : {c, "/a" + c, c + "/b", c + c + c, "/dir" + c + "name/" + c}) for (size_t n = 0; n < 60; n++) uri(p, n);
        for (size_t n = 0; n < 60; n++) { binary(c, "M", 3, n); binary("/x" + c, c, 2, n); }
        return;
    }
    std::string p = text(r, i < 600 ? (i - 256) % 40 : r.chance(0.9) ? r.below(200) : r.below(5000));
    size_t need = 8;
    for (char c : p) need += strchr(legal, c) ? 1 : 3;
    for (size_t k = 0; k < 24; k++) if (need + 6 >= k) uri(p, need + 6 - k);
    uri(p, r.below(need + 10));
    uri(p, need + r.below(5000));
    std::string d = text(r, r.chance(0.9) ? r.below(100) : r.below(5000)), id = text(r, r.below(80));
    if (r.chance(0.3)) d += r.chance(0.5) ? '/' : '\\';
    for (int v = 1; v <= 3; v++) {
        size_t len = d.size() + id.size() + 30;
        for (size_t k = 0; k < 24; k++) binary(d, id, v, len + 2 - std::min(len, k));
        binary(d, id, v, r.below(len));
        binary(d, id, v, len + r.below(5000));
    }
}
