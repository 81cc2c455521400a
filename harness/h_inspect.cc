// Validation and inspection of bulletins
#include "h_bulletin.h"
#include <wreport/bulletin/dds-validator.h>

using namespace wreport;

namespace drv {

// validate every subset, then encode
static Reg r_val("val", [](Args& a) {
    J j; j.open('{');
    auto b = BufrBulletin::create();
    bool built = false;
    unsigned at = 0;
    guarded(j, [&] {
        take_bufr(a, *b);
        built = true;
        for (at = 1; at <= b->subsets.size(); ++at)
        {
            bulletin::DDSValidator v(*b, at - 1);
            v.run();
        }
    });
    j.kn("at", at);
    j.ks("stage", built ? "validate" : "build");
    if (built)
    {
        put_subsets(j, *b);
        J e; e.open('{');
        j.ks("enc", guarded(e, [&] { b->encode(); }));
    }
    return j.close('}').o;
});

static std::string validate(const Bulletin& b)
{
    J e; e.open('{');
    return guarded(e, [&] {
        for (unsigned i = 0; i < b.subsets.size(); ++i)
            bulletin::DDSValidator(b, i).run();
    });
}

static Reg r_cval("cval", [](Args& a) {
    J j; j.open('{');
    std::string buf = a.hex();
    std::unique_ptr<CrexBulletin> b;
    if (guarded(j, [&] { b = CrexBulletin::decode(buf); }) == "ok")
    {
        j.ks("val", validate(*b));
        Subset& s = b->subsets.back();
        j.kn("n", s.size());
        if (!s.empty()) s.pop_back();
        j.ks("cut", validate(*b));
    }
    return j.close('}').o;
});

}
