// Common parts of the conformance driver: tokens in, JSON out
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <wreport/var.h>
#include <wreport/varinfo.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <wreport/tables.h>
#include <wreport/error.h>
#include <wreport/options.h>
#include <wreport/tableinfo.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace drv {

struct Args
{
    std::vector<std::string> t;
    size_t i = 0;
    bool end() const { return i >= t.size(); }
    const std::string& s()
    {
        if (i >= t.size()) { fprintf(stderr, "driver: missing argument\n"); exit(3); }
        return t[i++];
    }
    long n() { return strtol(s().c_str(), nullptr, 10); }
    double d() { return strtod(s().c_str(), nullptr); }
    std::string hex()
    {
        const std::string& h = s();
        std::string r;
        if (h == "-") return r;
        for (size_t k = 0; k + 1 < h.size(); k += 2)
            r += (char)strtol(h.substr(k, 2).c_str(), nullptr, 16);
        return r;
    }
};

/// Minimal JSON writer
struct J
{
    std::string o;
    bool first = true;
    void sep() { if (!first) o += ','; first = false; }
    J& open(char c) { o += c; first = true; return *this; }
    J& close(char c) { o += c; first = false; return *this; }
    J& key(const char* k) { sep(); o += '"'; o += k; o += "\":"; first = true; return *this; }
    J& num(long v) { sep(); o += std::to_string(v); return *this; }
    J& wide(long v)
    {
        sep();
        long hi = v >= 0 ? v / 65536 : -((-v + 65535) / 65536);
        long lo = v - hi * 65536;
        o += '[' + std::to_string(hi) + ',' + std::to_string(lo) + ']';
        return *this;
    }
    J& str(const std::string& v)
    {
        sep();
        o += '"';
        for (unsigned char c: v)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += c;
        }
        o += '"';
        return *this;
    }
    J& bytes(const std::string& v)
    {
        sep();
        o += '[';
        for (size_t k = 0; k < v.size(); ++k) { if (k) o += ','; o += std::to_string((unsigned char)v[k]); }
        o += ']';
        return *this;
    }
    J& raw(const std::string& v) { sep(); o += v; return *this; }
    J& kn(const char* k, long v) { key(k); return num(v); }
    J& ks(const char* k, const std::string& v) { key(k); return str(v); }
};

typedef std::function<std::string(Args&)> Handler;
std::map<std::string, Handler>& handlers();
struct Reg { Reg(const char* name, Handler h) { handlers()[name] = h; } };

/// Run f, mapping exceptions to a status
std::string guarded(J& j, std::function<void()> f);

const char* type_letter(wreport::Vartype t);
/// Size in bytes of the value of binary variables
std::string binary_value(const wreport::Var& v);
void put_var(J& j, const wreport::Var& v, bool attrs = true);
/// Build a variable from tokens
wreport::Var take_var(Args& a, const wreport::Tables& tables);
wreport::Varinfo take_info(Args& a, const wreport::Tables& tables);

/// Names for error codes
std::string error_name(const wreport::error& e);

}
#endif
