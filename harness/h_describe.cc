// What is said of lists of descriptors
#include "common.h"
#include "h_bulletin.h"
#include <wreport/bulletin.h>
#include <wreport/bulletin/dds-scanfeatures.h>
#include <cstdlib>

using namespace wreport;

namespace drv {

// describe INDENT CODE...
static Reg r_describe("describe", [](Args& a) {
    auto b = BufrBulletin::create();
    b->master_table_version_number = 14;
    b->load_tables();
    long indent = a.n();
    while (!a.end()) b->datadesc.push_back((Varcode)a.n());
    J j; j.open('{'); j.ks("st", "ok");
    {
        bulletin::ScanFeatures s(b->tables, Opcodes(b->datadesc));
        j.key("feat").open('{');
        guarded(j, [&] { s.run(); });
        j.key("l").open('[');
        for (auto& f: s.features) j.str(f);
        j.close(']').close('}');
    }
    {
        char* p = nullptr; size_t n = 0;
        FILE* f = open_memstream(&p, &n);
        j.key("list").open('{');
        guarded(j, [&] { b->print_datadesc(f, (unsigned)indent); });
        fclose(f);
        j.key("l").open('[');
        std::string t(p, n);
        free(p);
        size_t i = 0;
        while (i < t.size())
        {
            size_t e = t.find('\n', i);
            if (e == std::string::npos) { j.str(t.substr(i) + "..."); break; }
            j.str(t.substr(i, e - i));
            i = e + 1;
        }
        j.close(']').close('}');
    }
    return j.close('}').o;
});

}
