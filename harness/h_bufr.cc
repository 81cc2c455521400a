// BUFR decoding and encoding
#include "h_bulletin.h"

using namespace wreport;

namespace drv {

void put_bufr_header(J& j, const BufrBulletin& b)
{
    j.kn("ed", b.edition_number);
    j.key("h").open('{');
    j.kn("mt", b.master_table_number).kn("ce", b.originating_centre).kn("sc", b.originating_subcentre)
     .kn("upd", b.update_sequence_number).kn("cat", b.data_category).kn("sub", b.data_subcategory)
     .kn("lsub", b.data_subcategory_local).kn("mtv", b.master_table_version_number)
     .kn("mtl", b.master_table_version_number_local)
     .kn("yr", b.rep_year).kn("mo", b.rep_month).kn("dy", b.rep_day).kn("hh", b.rep_hour)
     .kn("mi", b.rep_minute).kn("ss", b.rep_second);
    j.close('}');
    j.key("opt").bytes(b.optional_section);
    j.kn("comp", b.compression ? 1 : 0);
    put_desc(j, b.datadesc);
    j.key("sec").open('[');
    for (int k = 0; k < 6; ++k) j.num(b.section_end[k]);
    j.close(']');
    j.ks("bt", b.tables.btable ? b.tables.btable->pathname() : "");
    j.ks("dt", b.tables.dtable ? b.tables.dtable->pathname() : "");
}

void put_desc(J& j, const std::vector<Varcode>& d)
{
    j.key("desc").open('[');
    for (auto c: d) j.num(c);
    j.close(']');
}

void put_subsets(J& j, const Bulletin& b)
{
    j.key("outs").open('[');
    for (const auto& s: b.subsets)
    {
        j.sep(); j.open('[');
        for (const auto& v: s) put_var(j, v);
        j.close(']');
    }
    j.close(']');
}

void take_subsets(Args& a, Bulletin& b)
{
    long ns = a.n();
    for (long s = 0; s < ns; ++s)
    {
        Subset& sub = b.obtain_subset((unsigned)s);
        long nv = a.n();
        for (long v = 0; v < nv; ++v)
            sub.store_variable(take_var(a, b.tables));
    }
}

void take_bufr(Args& a, BufrBulletin& b)
{
    b.edition_number = (uint8_t)a.n();
    b.master_table_number = (uint8_t)a.n();
    b.originating_centre = (uint16_t)a.n();
    b.originating_subcentre = (uint16_t)a.n();
    b.update_sequence_number = (uint8_t)a.n();
    b.data_category = (uint8_t)a.n();
    b.data_subcategory = (uint8_t)a.n();
    b.data_subcategory_local = (uint8_t)a.n();
    b.master_table_version_number = (uint8_t)a.n();
    b.master_table_version_number_local = (uint8_t)a.n();
    b.rep_year = (uint16_t)a.n();
    b.rep_month = (uint8_t)a.n();
    b.rep_day = (uint8_t)a.n();
    b.rep_hour = (uint8_t)a.n();
    b.rep_minute = (uint8_t)a.n();
    b.rep_second = (uint8_t)a.n();
    b.optional_section = a.hex();
    long nd = a.n();
    for (long k = 0; k < nd; ++k) b.datadesc.push_back((Varcode)a.n());
    b.load_tables();
    take_subsets(a, b);
}

static Reg r_dec("dec", [](Args& a) {
    J j; j.open('{');
    auto opts = BufrCodecOptions::create();
    opts->decode_adds_undef_attrs = a.n() != 0;
    std::string buf = a.hex();
    std::unique_ptr<BufrBulletin> b;
    if (guarded(j, [&] { b = BufrBulletin::decode(buf, *opts); }) == "ok")
    {
        put_bufr_header(j, *b);
        put_subsets(j, *b);
    }
    return j.close('}').o;
});

static Reg r_hdr("hdr", [](Args& a) {
    J j; j.open('{');
    std::string buf = a.hex();
    std::unique_ptr<BufrBulletin> b;
    if (guarded(j, [&] { b = BufrBulletin::decode_header(buf); }) == "ok")
        put_bufr_header(j, *b);
    return j.close('}').o;
});

// stage "build": the variables could not be built (not an outcome of the encoder)
static Reg r_enc("enc", [](Args& a) {
    J j; j.open('{');
    auto b = BufrBulletin::create();
    std::string out;
    bool built = false;
    auto st = guarded(j, [&] { take_bufr(a, *b); built = true; out = b->encode(); });
    j.ks("stage", built ? "encode" : "build");
    if (built) { put_subsets(j, *b); j.ks("bt", b->tables.btable->pathname()); }
    if (st == "ok") { j.key("d").bytes(out); }
    return j.close('}').o;
});

}
