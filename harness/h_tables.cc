// Loading tables, asking for descriptors, and choosing among installed tables
#include "common.h"
#include "fork.h"
#include "wreport/internals/tabledir.h"
#include <cmath>

using namespace wreport;

namespace drv {

static void put_info(J& j, Varinfo i)
{
    j.sep(); j.open('{');
    j.kn("c", i->code);
    j.ks("y", type_letter(i->type));
    j.key("ds").bytes(i->desc);
    j.key("un").bytes(i->unit);
    j.kn("sc", i->scale);
    j.key("rf").wide(i->bit_ref);
    j.kn("bl", i->bit_len);
    j.kn("len", i->len);
    j.key("lo").wide(i->imin);
    j.key("hi").wide(i->imax);
    // the floating point limits, as scaled integers
    j.key("dlo").wide(llroundl((long double)i->dmin * powl(10, i->scale)));
    j.key("dhi").wide(llroundl((long double)i->dmax * powl(10, i->scale)));
    j.close('}');
}

static const Vartable* load_b(const std::string& kind, const std::string& path)
{
    return kind == "b" ? Vartable::load_bufr(path) : Vartable::load_crex(path);
}

// The codes to ask for: all of them, or those given and some more
static std::vector<unsigned> codes(Args& a)
{
    std::vector<bool> m(65536);
    unsigned n = 0;
    while (!a.end()) { m[a.n() & 0xffff] = true; ++n; }
    unsigned step = n ? 431 : 1;
    for (unsigned c = 0; c < 65536; c += step) m[c] = true;
    std::vector<unsigned> res;
    for (unsigned c = 0; c < 65536; ++c) if (m[c]) res.push_back(c);
    return res;
}

// bload b|c PATH [CODES]
static Reg r_bload("bload", [](Args& a) {
    std::string kind = a.s(), path = a.s();
    J j; j.open('{');
    const Vartable* t = nullptr;
    auto st = guarded(j, [&] {
        // again after a failure
        try { t = load_b(kind, path); } catch (std::exception&) { t = load_b(kind, path); }
    });
    if (st == "ok")
    {
        std::vector<Varinfo> q;
        J g;
        j.key("q").open('[');
        std::vector<bool> ask(65536);
        for (unsigned c: codes(a)) ask[c] = true;
        for (unsigned c = 0; c < 65536; ++c)
            if (ask[c] || t->contains((Varcode)c)) try { put_info(j, t->query((Varcode)c)); } catch (error_notfound&) {}
        j.close(']');
        j.key("ct").open('[');
        for (unsigned c = 0; c < 65536; ++c)
            if (t->contains((Varcode)c)) j.num(c);
        j.close(']');
        j.key("it").open('[');
        t->iterate([&](Varinfo i) { put_info(j, i); return true; });
        j.close(']');
    }
    return j.close('}').o;
});

// dload b|c PATH [CODES]
static Reg r_dload("dload", [](Args& a) {
    std::string kind = a.s(), path = a.s();
    J j; j.open('{');
    const DTable* t = nullptr;
    auto load = [&] { t = kind == "b" ? DTable::load_bufr(path) : DTable::load_crex(path); };
    auto st = guarded(j, [&] { try { load(); } catch (std::exception&) { load(); } });
    if (st == "ok")
    {
        j.key("q").open('[');
        for (unsigned c: codes(a))
            try {
                Opcodes o = t->query((Varcode)c);
                J g; g.open('{');
                g.kn("c", c);
                g.key("d").open('[');
                for (unsigned i = 0; i < o.size(); ++i) g.num(o[i]);
                g.close(']').close('}');
                j.raw(g.o);
            } catch (error_notfound&) {}
        j.close(']');
    }
    return j.close('}').o;
});

// alt b|c PATH (q CODE | a CODE SC BL RF)...
static Reg r_alt("alt", [](Args& a) {
    std::string kind = a.s(), path = a.s();
    const Vartable* t = load_b(kind, path);
    return forked([&] {
        J j; j.open('{');
        j.ks("st", "ok");
        std::vector<Varinfo> given;
        j.key("obs").open('[');
        while (!a.end())
        {
            std::string op = a.s();
            Varcode c = (Varcode)a.n();
            int sc = 0, rf = 0; unsigned bl = 0;
            if (op == "a") { sc = (int)a.n(); bl = (unsigned)a.n(); rf = (int)a.n(); }
            Varinfo i = nullptr;
            j.sep(); j.open('{');
            auto st = guarded(j, [&] { i = op == "q" ? t->query(c) : t->query_altered(c, sc, bl, rf); });
            if (st == "ok") { given.push_back(i); j.key("i"); put_info(j, i); }
            j.close('}');
        }
        j.close(']');
        j.key("end").open('[');
        for (auto i: given) put_info(j, i);
        j.close(']');
        j.key("it").open('[');
        size_t total = 0;
        bool all = t->iterate([&](Varinfo i) { ++total; put_info(j, i); return true; });
        j.close(']');
        // stop after each of a few entries
        j.key("cut").open('[');
        for (size_t m: {(size_t)1, total / 3, total / 2, total - 1, total})
        {
            if (m < 1 || m > total) continue;
            size_t seen = 0;
            bool r = t->iterate([&](Varinfo i) { return ++seen < m; });
            j.sep(); j.open('[');
            j.num((long)m); j.num((long)seen); j.num((all ? 2 : 0) + (r ? 1 : 0));
            j.close(']');
        }
        j.close(']');
        return j.close('}').o;
    });
});

// find NPROC (EXTRA|- TABLES|- NOPS OP...)...
//   OP: b mt mtv ce sc lv | c ed mt mtv ce sc lv bv | n NAME | m NAME | a DIR
static Reg r_find("find", [](Args& a) {
    J j; j.open('{');
    j.ks("st", "ok");
    j.key("obs").open('[');
    long nproc = a.n();
    for (long p = 0; p < nproc; ++p)
    {
        std::string extra = a.s(), tables = a.s();
        long nops = a.n();
        std::vector<std::vector<std::string>> ops;
        for (long i = 0; i < nops; ++i)
        {
            std::string op = a.s();
            std::vector<std::string> o{op};
            unsigned n = op == "b" ? 5 : op == "c" ? 7 : 1;
            for (unsigned k = 0; k < n; ++k) o.push_back(a.s());
            ops.push_back(o);
        }
        std::string r = forked([&] {
            if (extra == "-") unsetenv("WREPORT_EXTRA_TABLES"); else setenv("WREPORT_EXTRA_TABLES", extra.c_str(), 1);
            if (tables == "-") unsetenv("WREPORT_TABLES"); else setenv("WREPORT_TABLES", tables.c_str(), 1);
            J g;
            for (auto& o: ops)
            {
                auto n = [&](unsigned k) { return (unsigned)strtoul(o[k].c_str(), nullptr, 10); };
                std::string path;
                J h; h.open('{');
                guarded(h, [&] {
                    if (o[0] == "b")
                    {
                        BufrTableID id(n(3), n(4), n(1), n(2), n(5));
                        Tables t; t.load_bufr(id);
                        path = t.btable->path();
                        h.ks("dpath", t.dtable->path());
                        h.ks("get", Vartable::get_bufr(id)->path());
                    }
                    else if (o[0] == "c")
                    {
                        CrexTableID id(n(1), n(4), n(5), n(2), n(3), n(7), n(6));
                        Tables t; t.load_crex(id);
                        path = t.btable->path();
                        h.ks("dpath", t.dtable->path());
                        h.ks("get", Vartable::get_crex(id)->path());
                    }
                    else if (o[0] == "a")
                    {
                        tabledir::Tabledirs::get().add_directory(o[1]);
                        path = "/";
                    }
                    else
                        path = o[0] == "n" ? Vartable::get_bufr(o[1])->path() : Vartable::get_crex(o[1])->path();
                    h.ks("path", path);
                });
                h.close('}');
                g.raw(h.o);
            }
            return g.o;
        });
        if (r.empty() && nops) continue;
        j.raw(r);
    }
    j.close(']');
    return j.close('}').o;
});

}
