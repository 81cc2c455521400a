// What the library says about the messages in a file, for comparison with what wrep says
#include "common.h"
#include <wreport/bulletin/dds-scanfeatures.h>

using namespace wreport;

namespace drv {

static std::string printed(std::function<void(FILE*)> f, bool& failed)
{
    char* buf = nullptr; size_t len = 0;
    FILE* out = open_memstream(&buf, &len);
    J g; g.open('{');
    failed = guarded(g, [&] { f(out); }) != "ok";
    fclose(out);
    std::string res(buf, len);
    free(buf);
    return res;
}

static std::unique_ptr<Bulletin> decode(bool crex, bool head, const std::string& d, const char* name, long off)
{
    if (crex) return CrexBulletin::decode(d, name, off);
    if (head) return BufrBulletin::decode_header(d, name, off);
    return BufrBulletin::decode(d, name, off);
}

// wfile KIND ACTION NAME DATA
static Reg r_wfile("wfile", [](Args& a) {
    J j; j.open('{');
    j.ks("st", "ok");
    bool crex = a.s() == "rc";
    char act = a.s()[0];
    std::string name = a.hex(), data = a.hex(), buf;
    FILE* f = tmpfile();
    if (!f) { fprintf(stderr, "driver: no temporary file\n"); exit(3); }
    if (!data.empty()) fwrite(data.data(), data.size(), 1, f);
    rewind(f);
    j.key("ms").open('[');
    while (true)
    {
        off_t off = -1;
        bool found = false;
        J g; g.open('{');
        if (guarded(g, [&] { found = crex ? CrexBulletin::read(f, buf, name.c_str(), &off) : BufrBulletin::read(f, buf, name.c_str(), &off); }) != "ok" || !found)
            break;
        bool head = act == 'D' || act == 'T' || act == 'F';
        std::unique_ptr<Bulletin> b;
        bool bad = false, undecoded;
        std::string tx;
        j.sep(); j.open('{');
        j.kn("off", off).key("d").bytes(buf);
        if (act == 't' && !crex)
            tx = printed([&](FILE* o) { BufrBulletin::decode_verbose(buf, o, name.c_str(), off); }, bad);
        else
        {
            J g1; g1.open('{');
            bad = guarded(g1, [&] { b = decode(crex, head, buf, name.c_str(), off); }) != "ok";
        }
        undecoded = bad;
        std::vector<std::string> feats;
        if (b)
            switch (act)
            {
                case 'd': tx = printed([&](FILE* o) { b->print(o); }, bad); break;
                case 's': tx = printed([&](FILE* o) { b->print_structured(o); }, bad); break;
                case 'D': tx = printed([&](FILE* o) { b->print_datadesc(o); }, bad); break;
                case 'F': printed([&](FILE* o) {
                              bulletin::ScanFeatures scan(b->tables, b->datadesc);
                              scan.run();
                              for (const auto& x: scan.features) feats.push_back(x);
                          }, bad); break;
            }
        j.key("tx").bytes(tx).kn("bad", bad).kn("undecoded", undecoded);
        j.key("feats").open('[');
        for (const auto& x: feats) j.bytes(x);
        j.close(']');
        j.key("h").open('[');
        if (BufrBulletin* m = dynamic_cast<BufrBulletin*>(b.get()))
            j.num(m->originating_centre).num(m->originating_subcentre).num(m->master_table_version_number).num(m->master_table_version_number_local);
        else if (CrexBulletin* m = dynamic_cast<CrexBulletin*>(b.get()))
            j.num(m->master_table_number).num(m->edition_number).num(m->master_table_version_number);
        j.close(']');
        j.key("subs").open('[');
        if (b && act == 'p')
            for (const auto& s: b->subsets)
            {
                j.sep(); j.open('[');
                for (const auto& v: s) { j.sep(); j.open('{'); j.kn("c", v.code()).key("tx").bytes(v.format()); j.close('}'); }
                j.close(']');
            }
        j.close(']');
        j.close('}');
    }
    j.close(']');
    fclose(f);
    return j.close('}').o;
});

}
