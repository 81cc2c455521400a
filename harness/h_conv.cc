// Unit and code table conversions
#include "common.h"
#include <wreport/conv.h>

using namespace wreport;

namespace drv {

static std::string text(double v)
{
    char b[40];
    snprintf(b, 40, "%.17g", v);
    return b;
}

// conv (FROM TO VALUE)...: units in hexadecimal
static Reg r_conv("conv", [](Args& a) {
    J j; j.open('{');
    j.ks("st", "ok");
    j.key("obs").open('[');
    while (!a.end())
    {
        std::string from = a.hex(), to = a.hex();
        double v = a.d(), r = 0;
        j.sep(); j.open('{');
        if (guarded(j, [&] { r = convert_units(from.c_str(), to.c_str(), v); }) == "ok") j.ks("r", text(r));
        j.close('}');
    }
    return j.close(']').close('}').o;
});

// convset PATH (set|new|copy SRC DST VALUE)...: variables of the table, set from one another
static Reg r_convset("convset", [](Args& a) {
    auto t = Vartable::load_bufr(a.s());
    J j; j.open('{');
    j.ks("st", "ok");
    j.key("obs").open('[');
    while (!a.end())
    {
        std::string op = a.s();
        Varinfo s = t->query((Varcode)a.n()), d = t->query((Varcode)a.n());
        Var src(s, (int)a.n());
        std::unique_ptr<Var> dst;
        j.sep(); j.open('{');
        if (guarded(j, [&] {
            if (op == "new") dst.reset(new Var(d, src));
            else {
                dst.reset(new Var(d));
                if (op == "set") dst->setval(src); else dst->set(src);
            }
        }) == "ok")
        {
            if (dst->isset()) j.kn("v", dst->enqi()); else j.ks("v", "unset");
        }
        j.close('}');
    }
    return j.close(']').close('}').o;
});

// convcode (FUNCTION VALUE)...
static Reg r_convcode("convcode", [](Args& a) {
    static const std::map<std::string, std::function<double(double)>> fns = {
        {"0500>", [](double v) { return convert_WMO0500_to_BUFR20012((int)v); }},
        {"0509>", [](double v) { return convert_WMO0509_to_BUFR20012((int)v); }},
        {"0515>", [](double v) { return convert_WMO0515_to_BUFR20012((int)v); }},
        {"0513>", [](double v) { return convert_WMO0513_to_BUFR20012((int)v); }},
        {"4677>", [](double v) { return convert_WMO4677_to_BUFR20003((int)v); }},
        {"4561>", [](double v) { return convert_WMO4561_to_BUFR20004((int)v); }},
        {"<0500", [](double v) { return convert_BUFR20012_to_WMO0500((int)v); }},
        {"<0509", [](double v) { return convert_BUFR20012_to_WMO0509((int)v); }},
        {"<0515", [](double v) { return convert_BUFR20012_to_WMO0515((int)v); }},
        {"<0513", [](double v) { return convert_BUFR20012_to_WMO0513((int)v); }},
        {"<4677", [](double v) { return convert_BUFR20003_to_WMO4677((int)v); }},
        {"<4561", [](double v) { return convert_BUFR20004_to_WMO4561((int)v); }},
        {"08001>", [](double v) { return convert_BUFR08001_to_BUFR08042((unsigned)v); }},
        {"<08042", [](double v) { return convert_BUFR08042_to_BUFR08001((unsigned)v); }},
        {"aof>", [](double v) { return convert_AOFVSS_to_BUFR08042((unsigned)v); }},
        {"oct>", [](double v) { return convert_octants_to_degrees((int)v); }},
        // tenths of degrees
        {"<oct", [](double v) { return convert_degrees_to_octants(v / 10); }},
        // the same, as unit conversions
        {"octu>", [](double v) { return convert_units("octants", "DEGREE TRUE", v); }},
        {"<octu", [](double v) { return convert_units("DEGREE TRUE", "octants", v / 10); }},
        {"icao>", [](double v) { return convert_icao_to_press(v); }},
    };
    J j; j.open('{');
    j.ks("st", "ok");
    j.key("obs").open('[');
    while (!a.end())
    {
        auto& f = fns.at(a.s());
        double v = a.d(), r = 0;
        j.sep(); j.open('{');
        if (guarded(j, [&] { r = f(v); }) == "ok") j.ks("r", text(r));
        j.close('}');
    }
    return j.close(']').close('}').o;
});

}
