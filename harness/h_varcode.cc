// Descriptor codes and lists of descriptors
#include "common.h"
#include <wreport/opcodes.h>
#include <memory>

using namespace wreport;

namespace drv {

// vcode FIRST COUNT
static Reg r_vcode("vcode", [](Args& a) {
    long c0 = a.n(), cnt = a.n();
    J j; j.open('{'); j.ks("st", "ok");
    j.key("obs").open('[');
    for (long c = c0; c < c0 + cnt; ++c)
    {
        j.sep(); j.open('{');
        std::string f = varcode_format((Varcode)c);
        char d[16];
        snprintf(d, 16, "%ld%02ld%03ld", c >> 14, (c >> 8) & 63, c & 255);
        Varcode v = (Varcode)c;
        j.key("f").bytes(f);
        j.kn("p", varcode_parse(f.c_str())).kn("q", varcode_parse(d));
        j.kn("v", WR_VAR(c >> 14, (c >> 8) & 63, c & 255));
        j.key("x").open('['); j.num(WR_VAR_F(v)).num(WR_VAR_X(v)).num(WR_VAR_Y(v)); j.close(']');
        j.close('}');
    }
    return j.close(']').close('}').o;
});

// vtext HEX...
static Reg r_vtext("vtext", [](Args& a) {
    J j; j.open('{'); j.ks("st", "ok");
    j.key("obs").open('[');
    while (!a.end())
    {
        std::string t = a.hex();
        // exactly as long as it is, to see reads past the end
        std::unique_ptr<char[]> p(new char[t.size() + 1]);
        memcpy(p.get(), t.c_str(), t.size() + 1);
        long n = 0;
        j.sep(); j.open('{');
        if (guarded(j, [&] { n = varcode_parse(p.get()); }) == "ok") j.kn("n", n);
        j.close('}');
    }
    return j.close(']').close('}').o;
});

// vtype HEX...
static Reg r_vtype("vtype", [](Args& a) {
    J j; j.open('{'); j.ks("st", "ok");
    j.key("obs").open('[');
    while (!a.end())
    {
        std::string t = a.hex(), r;
        j.sep(); j.open('{');
        if (guarded(j, [&] { r = vartype_format(vartype_parse(t.c_str())); }) == "ok") j.ks("t", r);
        j.close('}');
    }
    return j.close(']').close('}').o;
});

// vlist N CODE... (OP I J)...
static Reg r_vlist("vlist", [](Args& a) {
    std::vector<Varcode> v;
    for (long n = a.n(); n > 0; --n) v.push_back((Varcode)a.n());
    // no more memory than what the list takes
    v.shrink_to_fit();
    Opcodes l(v);
    J j; j.open('{'); j.ks("st", "ok");
    j.key("obs").open('[');
    while (!a.end())
    {
        std::string op = a.s();
        unsigned i = (unsigned)a.n(), k = (unsigned)a.n();
        long n = 0;
        Opcodes r(l.end, l.end);
        j.sep(); j.open('{');
        std::string st = guarded(j, [&] {
            if (op == "at") n = l[i];
            else if (op == "size") n = l.size();
            else if (op == "empty") n = l.empty();
            else if (op == "head") n = l.head();
            else if (op == "pop") n = l.pop_left();
            else if (op == "popn") r = l.pop_left(i);
            else if (op == "next") r = l.next();
            else if (op == "sub") r = l.sub(i);
            else if (op == "sub2") r = l.sub(i, k);
            else if (op == "nextgo") l = r = l.next();
            else if (op == "subgo") l = r = l.sub(i);
            else if (op == "sub2go") l = r = l.sub(i, k);
            else if (op == "popngo") l = r = l.pop_left(i);
            else { fprintf(stderr, "driver: bad op %s\n", op.c_str()); exit(3); }
        });
        if (st == "ok")
        {
            j.kn("n", n);
            j.key("r").open('[');
            for (const Varcode* p = r.begin; p != r.end; ++p) j.num(*p);
            j.close(']');
        }
        j.key("l").open('[');
        for (const Varcode* p = l.begin; p != l.end; ++p) j.num(*p);
        j.close(']');
        char* b = nullptr; size_t z = 0;
        FILE* f = open_memstream(&b, &z);
        l.print(f);
        fclose(f);
        j.key("p").bytes(std::string(b, z));
        free(b);
        j.close('}');
    }
    return j.close(']').close('}').o;
});

}
