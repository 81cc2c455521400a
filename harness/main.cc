// Conformance driver: one command per line, one JSON observation per line
#include "common.h"
#include <unistd.h>
#include <iostream>
#include <sstream>

using namespace wreport;

namespace drv {

std::map<std::string, Handler>& handlers()
{
    static std::map<std::string, Handler> h;
    return h;
}

std::string error_name(const wreport::error& e)
{
    switch (e.code())
    {
        case WR_ERR_NONE: return "none";
        case WR_ERR_NOTFOUND: return "notfound";
        case WR_ERR_TYPE: return "type";
        case WR_ERR_ALLOC: return "alloc";
        case WR_ERR_ODBC: return "odbc";
        case WR_ERR_HANDLES: return "handles";
        case WR_ERR_TOOLONG: return "toolong";
        case WR_ERR_SYSTEM: return "system";
        case WR_ERR_CONSISTENCY: return "consistency";
        case WR_ERR_PARSE: return "parse";
        case WR_ERR_WRITE: return "write";
        case WR_ERR_REGEX: return "regex";
        case WR_ERR_UNIMPLEMENTED: return "unimplemented";
        case WR_ERR_DOMAIN: return "domain";
        default: return "code" + std::to_string((int)e.code());
    }
}

std::string guarded(J& j, std::function<void()> f)
{
    std::string st = "ok";
    std::string what;
    try {
        f();
    } catch (wreport::error& e) {
        st = "err"; what = error_name(e);
        if (getenv("DRV_VERBOSE")) fprintf(stderr, "error: %s\n", e.what());
    } catch (std::exception& e) {
        st = "std"; what = e.what();
    }
    j.ks("st", st);
    if (st != "ok") j.ks("err", what);
    return st;
}

const char* type_letter(Vartype t)
{
    switch (t)
    {
        case Vartype::Integer: return "i";
        case Vartype::Decimal: return "d";
        case Vartype::String: return "s";
        case Vartype::Binary: return "b";
    }
    return "?";
}

std::string binary_value(const Var& v)
{
    const char* c = v.enqc();
    return std::string(c, (v.info()->bit_len + 7) / 8);
}

static void put_one(J& j, const Var& v)
{
    Varinfo i = v.info();
    j.kn("c", i->code);
    j.ks("y", type_letter(i->type));
    j.kn("sc", i->scale);
    j.kn("bl", i->bit_len);
    j.key("rf").wide(i->bit_ref);
    j.kn("set", v.isset() ? 1 : 0);
    bool numeric = i->type == Vartype::Integer || i->type == Vartype::Decimal;
    j.key("v").wide(v.isset() && numeric ? v.enqi() : 0);
    std::string tx;
    if (v.isset() && i->type == Vartype::String) tx = v.enqc();
    if (v.isset() && i->type == Vartype::Binary) tx = binary_value(v);
    j.key("tx").bytes(tx);
}

void put_var(J& j, const Var& v, bool attrs)
{
    j.sep();
    j.open('{');
    put_one(j, v);
    j.key("at").open('[');
    if (attrs)
        for (const Var* a = v.next_attr(); a; a = a->next_attr())
        {
            j.sep(); j.open('{');
            put_one(j, *a);
            j.key("at").open('[').close(']');
            j.close('}');
        }
    j.close(']');
    j.close('}');
}

// KIND code sc bl rf
Varinfo take_info(Args& a, const Tables& tables)
{
    std::string kind = a.s();
    Varcode code = (Varcode)a.n();
    int sc = (int)a.n();
    unsigned bl = (unsigned)a.n();
    int rf = (int)a.n();
    if (kind == "q") return tables.btable->query_altered(code, sc, bl, rf);
    if (kind == "m") return tables.get_bitmap(code, std::string(bl / 8, '+'));
    if (kind == "c") return tables.get_chardata(code, bl / 8);
    if (kind == "u") return tables.get_unknown(code, bl);
    fprintf(stderr, "driver: bad info kind %s\n", kind.c_str());
    exit(3);
}

// INFO VALUE NATTS ATTR...; VALUE: n (unset) i<int> x<hex>
Var take_var(Args& a, const Tables& tables)
{
    Var v(take_info(a, tables));
    std::string val = a.s();
    if (val[0] == 'i')
        v.seti((int)strtol(val.c_str() + 1, nullptr, 10));
    else if (val[0] == 'x')
    {
        Args h; h.t.push_back(val.size() == 1 ? "-" : val.substr(1));
        std::string b = h.hex();
        v.setc(b.c_str());
    }
    else if (val[0] == 'y')
    {
        // binary, with exactly the bytes given
        Args h; h.t.push_back(val.size() == 1 ? "-" : val.substr(1));
        v.sets(h.hex());
    }
    long na = a.n();
    for (long k = 0; k < na; ++k)
        v.seta(take_var(a, tables));
    return v;
}

}

int main()
{
    using namespace drv;
    std::string line;
    unsigned limit = 20;
    if (const char* e = getenv("DRV_TIMEOUT")) limit = (unsigned)atoi(e);
    while (std::getline(std::cin, line))
    {
        Args a;
        std::istringstream in(line);
        std::string tok;
        while (in >> tok) a.t.push_back(tok);
        if (a.t.size() < 2) continue;
        std::string id = a.s();
        std::string op = a.s();
        printf("S %s\n", id.c_str());
        fflush(stdout);
        auto h = handlers().find(op);
        if (h == handlers().end()) { fprintf(stderr, "driver: unknown op %s\n", op.c_str()); return 3; }
        alarm(limit);
        std::string r = h->second(a);
        alarm(0);
        printf("R %s %s\n", id.c_str(), r.c_str());
        fflush(stdout);
    }
    return 0;
}
