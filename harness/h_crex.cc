// CREX decoding and encoding
#include "h_bulletin.h"

using namespace wreport;

namespace drv {

void take_crex(Args& a, CrexBulletin& b);
static void put_crex_header(J& j, const CrexBulletin& b)
{
    j.key("h").open('{');
    j.kn("mt", b.master_table_number).kn("ed", b.edition_number).kn("mtv", b.master_table_version_number)
     .kn("cat", b.data_category).kn("sub", b.data_subcategory).kn("lsub", b.data_subcategory_local);
    j.close('}');
    j.kn("cd", b.has_check_digit ? 1 : 0);
    put_desc(j, b.datadesc);
    j.ks("bt", b.tables.btable ? b.tables.btable->pathname() : "");
    j.ks("dt", b.tables.dtable ? b.tables.dtable->pathname() : "");
}

void take_crex(Args& a, CrexBulletin& b)
{
    b.master_table_number = (uint8_t)a.n();
    b.edition_number = (uint8_t)a.n();
    b.master_table_version_number = (uint8_t)a.n();
    b.data_category = (uint8_t)a.n();
    b.data_subcategory = (uint8_t)a.n();
    b.data_subcategory_local = (uint8_t)a.n();
    b.master_table_version_number_bufr = 0;
    b.has_check_digit = a.n() != 0;
    long nd = a.n();
    for (long k = 0; k < nd; ++k) b.datadesc.push_back((Varcode)a.n());
    b.load_tables();
    take_subsets(a, b);
}

static Reg r_cdec("cdec", [](Args& a) {
    J j; j.open('{');
    std::string buf = a.hex();
    std::unique_ptr<CrexBulletin> b;
    if (guarded(j, [&] { b = CrexBulletin::decode(buf); }) == "ok")
    {
        put_crex_header(j, *b);
        put_subsets(j, *b);
    }
    return j.close('}').o;
});

static Reg r_chdr("chdr", [](Args& a) {
    J j; j.open('{');
    std::string buf = a.hex();
    std::unique_ptr<CrexBulletin> b;
    if (guarded(j, [&] { b = CrexBulletin::decode_header(buf); }) == "ok")
        put_crex_header(j, *b);
    return j.close('}').o;
});

static Reg r_cenc("cenc", [](Args& a) {
    J j; j.open('{');
    auto b = CrexBulletin::create();
    std::string out;
    bool built = false;
    auto st = guarded(j, [&] { take_crex(a, *b); built = true; out = b->encode(); });
    j.ks("stage", built ? "encode" : "build");
    if (built) put_subsets(j, *b);
    if (st == "ok") j.key("d").bytes(out);
    return j.close('}').o;
});

}
