// Histories of bulletins as objects
#include "h_bulletin.h"
#include <wreport/bulletin/dds-validator.h>
#include <wreport/bulletin/dds-scanfeatures.h>

using namespace wreport;

namespace drv {

void put_full(J& j, const Var& v, bool attrs);

static void put_content(J& j, const Bulletin& b)
{
    auto bb = dynamic_cast<const BufrBulletin*>(&b);
    auto cb = dynamic_cast<const CrexBulletin*>(&b);
    j.open('{');
    j.ks("kind", bb ? "bufr" : "crex");
    j.key("h").open('{');
    j.kn("mt", b.master_table_number).kn("ce", b.originating_centre).kn("sc", b.originating_subcentre)
     .kn("upd", b.update_sequence_number).kn("cat", b.data_category).kn("sub", b.data_subcategory)
     .kn("lsub", b.data_subcategory_local)
     .kn("mtv", bb ? bb->master_table_version_number : cb->master_table_version_number)
     .kn("mtl", bb ? bb->master_table_version_number_local : cb->master_table_version_number_local)
     .kn("yr", b.rep_year).kn("mo", b.rep_month).kn("dy", b.rep_day).kn("hh", b.rep_hour)
     .kn("mi", b.rep_minute).kn("ss", b.rep_second)
     .kn("ed", bb ? bb->edition_number : cb->edition_number)
     .kn("bv", cb ? cb->master_table_version_number_bufr : 0)
     .kn("cd", cb && cb->has_check_digit).kn("comp", bb && bb->compression);
    j.close('}');
    j.key("opt").bytes(bb ? bb->optional_section : std::string());
    put_desc(j, b.datadesc);
    j.key("outs").open('[');
    for (const auto& s: b.subsets)
    {
        j.sep(); j.open('[');
        for (const auto& v: s) put_full(j, v, true);
        j.close(']');
    }
    j.close(']');
    j.kn("tabs", b.tables.loaded());
    j.close('}');
}

static std::string content(const Bulletin* b)
{
    if (!b) return "{\"none\":1}";
    J j;
    put_content(j, *b);
    return j.o;
}

static void set_field(Bulletin& b, const std::string& f, long n)
{
    auto bb = dynamic_cast<BufrBulletin*>(&b);
    auto cb = dynamic_cast<CrexBulletin*>(&b);
    if (f == "mt") b.master_table_number = (uint8_t)n;
    else if (f == "ce") b.originating_centre = (uint16_t)n;
    else if (f == "sc") b.originating_subcentre = (uint16_t)n;
    else if (f == "upd") b.update_sequence_number = (uint8_t)n;
    else if (f == "cat") b.data_category = (uint8_t)n;
    else if (f == "sub") b.data_subcategory = (uint8_t)n;
    else if (f == "lsub") b.data_subcategory_local = (uint8_t)n;
    else if (f == "mtv") (bb ? bb->master_table_version_number : cb->master_table_version_number) = (uint8_t)n;
    else if (f == "mtl") (bb ? bb->master_table_version_number_local : cb->master_table_version_number_local) = (uint8_t)n;
    else if (f == "yr") b.rep_year = (uint16_t)n;
    else if (f == "mo") b.rep_month = (uint8_t)n;
    else if (f == "dy") b.rep_day = (uint8_t)n;
    else if (f == "hh") b.rep_hour = (uint8_t)n;
    else if (f == "mi") b.rep_minute = (uint8_t)n;
    else if (f == "ss") b.rep_second = (uint8_t)n;
    else if (f == "ed") (bb ? bb->edition_number : cb->edition_number) = (uint8_t)n;
    else if (f == "bv" && cb) cb->master_table_version_number_bufr = (uint8_t)n;
    else if (f == "cd" && cb) cb->has_check_digit = n != 0;
    else if (f == "comp" && bb) bb->compression = n != 0;
    else { fprintf(stderr, "driver: bad field %s\n", f.c_str()); exit(3); }
}

struct Mem
{
    char* p = nullptr; size_t n = 0;
    FILE* f;
    Mem() { f = open_memstream(&p, &n); }
    ~Mem() { if (f) fclose(f); free(p); }
    std::string text() { fclose(f); f = nullptr; return std::string(p, n); }
};

static std::string digest(const std::string& s)
{
    unsigned long long h = 1469598103934665603ULL;
    for (unsigned char c: s) { h ^= c; h *= 1099511628211ULL; }
    char b[60];
    snprintf(b, 60, "%zu-%016llx", s.size(), h);
    return b;
}

static std::string ask(const Bulletin& b, const std::string& q)
{
    Mem m;
    std::string extra;
    J e; e.open('{');
    std::string st = guarded(e, [&] {
        if (q == "print") b.print(m.f);
        else if (q == "structured") b.print_structured(m.f);
        else if (q == "datadesc") b.print_datadesc(m.f, 2);
        else if (q == "details") b.print_details(m.f);
        else if (q == "encode") extra = b.encode();
        else if (q == "validate")
            for (unsigned i = 0; i < b.subsets.size(); ++i) bulletin::DDSValidator(b, i).run();
        else if (q == "features")
        {
            bulletin::ScanFeatures s(b.tables, Opcodes(b.datadesc));
            s.run();
            for (auto& f: s.features) extra += f + " ";
        }
        else { fprintf(stderr, "driver: bad question %s\n", q.c_str()); exit(3); }
    });
    return st + "-" + digest(m.text() + extra);
}

static std::unique_ptr<Bulletin> decoded(const std::string& kind, const std::string& buf, bool verbose)
{
    std::unique_ptr<Bulletin> b;
    Mem m;
    if (kind == "bufr") { if (verbose) b = BufrBulletin::decode_verbose(buf, m.f); else b = BufrBulletin::decode(buf); }
    else { if (verbose) b = CrexBulletin::decode_verbose(buf, m.f); else b = CrexBulletin::decode(buf); }
    return b;
}

void take_crex(Args& a, CrexBulletin& b);

static Reg r_bul("bul", [](Args& a) {
    // tables to make variables with
    auto shop = BufrBulletin::create();
    shop->master_table_version_number = 14;
    shop->load_tables();
    std::unique_ptr<Bulletin> sl[2];
    std::string last[2] = { content(nullptr), content(nullptr) };
    long nops = a.n();
    J j; j.open('{');
    j.ks("st", "ok");
    j.key("obs").open('[');
    for (long k = 0; k < nops; ++k)
    {
        std::string op = a.s();
        auto& b = sl[a.n() - 1];
        j.sep(); j.open('{');
        J e; e.open('{');
        std::string r;
        if (op == "new")
        {
            std::string kind = a.s();
            r = guarded(e, [&] { if (kind == "bufr") b = BufrBulletin::create(); else b = CrexBulletin::create(); });
        }
        else if (op == "decode" || op == "verbose")
        {
            std::string kind = a.s(), buf = a.hex();
            std::unique_ptr<Bulletin> x;
            r = guarded(e, [&] { x = decoded(kind, buf, op == "verbose"); });
            j.key("b").raw(content(x.get()));
            if (op == "decode") b = std::move(x);
        }
        else if (op == "load")
        {
            std::string kind = a.s();
            r = guarded(e, [&] {
                if (kind == "bufr") { auto x = BufrBulletin::create(); take_bufr(a, *x); b = std::move(x); }
                else { auto x = CrexBulletin::create(); take_crex(a, *x); b = std::move(x); }
            });
            j.key("b").raw(content(b.get()));
        }
        else if (op == "clear") r = guarded(e, [&] { b->clear(); });
        else if (op == "tables") r = guarded(e, [&] { b->load_tables(); });
        else if (op == "set") { std::string f = a.s(); set_field(*b, f, a.n()); r = "ok"; }
        else if (op == "opt") { dynamic_cast<BufrBulletin&>(*b).optional_section = a.hex(); r = "ok"; }
        else if (op == "desc")
        {
            b->datadesc.clear();
            long n = a.n();
            for (long i = 0; i < n; ++i) b->datadesc.push_back((Varcode)a.n());
            r = "ok";
        }
        else if (op == "obtain") { unsigned i = (unsigned)a.n(); r = guarded(e, [&] { b->obtain_subset(i); }); }
        else if (op == "subset") { unsigned i = (unsigned)a.n(); r = guarded(e, [&] { b->subset(i); }); }
        else if (op == "add")
        {
            unsigned i = (unsigned)a.n(); bool move = a.n() != 0;
            Var v = take_var(a, shop->tables);
            J w; put_full(w, v, true); j.key("v").raw(w.o);
            r = guarded(e, [&] { if (move) b->subsets.at(i).store_variable(std::move(v)); else b->subsets.at(i).store_variable(v); });
        }
        else if (op == "undef") { unsigned i = (unsigned)a.n(); Varcode c = (Varcode)a.n(); r = guarded(e, [&] { b->subsets.at(i).store_variable_undef(c); }); }
        else if (op == "int") { unsigned i = (unsigned)a.n(); Varcode c = (Varcode)a.n(); int n = (int)a.n(); r = guarded(e, [&] { b->subsets.at(i).store_variable_i(c, n); }); }
        else if (op == "pop") { auto& s = b->subsets.at(a.n()); if (!s.empty()) s.pop_back(); r = "ok"; }
        else if (op == "put" || op == "attr")
        {
            unsigned i = (unsigned)a.n(), p = (unsigned)a.n();
            Var v = take_var(a, shop->tables);
            J w; put_full(w, v, true); j.key("v").raw(w.o);
            r = guarded(e, [&] { if (op == "put") b->subsets.at(i).at(p) = v; else b->subsets.at(i).at(p).seta(v); });
        }
        else if (op == "poke")
        {
            unsigned i = (unsigned)a.n(), p = (unsigned)a.n();
            std::string y = a.s();
            Var& v = b->subsets.at(i).at(p);
            if (y == "u") { v.unset(); r = "ok"; }
            else if (y == "i") { int n = (int)a.n(); r = guarded(e, [&] { v.seti(n); }); }
            else { std::string t = a.hex(); r = guarded(e, [&] { v.setc(t.c_str()); }); }
        }
        else if (op == "noattr") { unsigned i = (unsigned)a.n(), p = (unsigned)a.n(); Varcode c = (Varcode)a.n(); r = guarded(e, [&] { b->subsets.at(i).at(p).unseta(c); }); }
        else if (op == "map")
        {
            unsigned i = (unsigned)a.n(); Varcode c = (Varcode)a.n(); unsigned n = (unsigned)a.n(); Varcode at = (Varcode)a.n();
            r = guarded(e, [&] { j.kn("n", b->subsets.at(i).append_dpb(c, n, at)); });
        }
        else if (op == "fixedmap")
        {
            unsigned i = (unsigned)a.n(); Varcode c = (Varcode)a.n(); unsigned n = (unsigned)a.n();
            r = guarded(e, [&] { b->subsets.at(i).append_fixed_dpb(c, (int)n); });
        }
        else if (op == "copysub")
        {
            unsigned i = (unsigned)a.n(), p = (unsigned)a.n();
            r = guarded(e, [&] { b->obtain_subset(p); b->subsets[p] = b->subsets.at(i); });
        }
        else if (op == "diff")
        {
            auto& o = sl[a.n() - 1];
            r = guarded(e, [&] { j.kn("n", b->diff(*o)); j.kn("m", o->diff(*b)); });
        }
        else { j.ks("ans", ask(*b, op)); r = "ok"; }
        j.ks("r", r);
        j.key("sl").open('[');
        for (int i = 0; i < 2; ++i)
        {
            std::string now = content(sl[i].get());
            j.sep(); j.open('{');
            j.kn("same", now == last[i]);
            if (now != last[i]) j.key("b").raw(now);
            j.close('}');
            last[i] = now;
        }
        j.close(']');
        j.close('}');
    }
    j.close(']');
    return j.close('}').o;
});

}
