// Writing messages to a stream and reading them back
#include "common.h"

using namespace wreport;

namespace drv {

static Reg r_stream("stream", [](Args& a) {
    J j; j.open('{');
    FILE* f = tmpfile();
    if (!f) { fprintf(stderr, "driver: no temporary file\n"); exit(3); }
    j.ks("st", "ok");
    j.key("res").open('[');
    // optionally without fname and offset arguments
    long how = a.n();
    std::string buf = "left from before";
    bool reading = false;
    while (!a.end())
    {
        std::string op = a.s();
        j.sep(); j.open('{');
        if (op == "raw" || op == "wb" || op == "wc")
        {
            std::string d = a.hex();
            guarded(j, [&] {
                if (op == "raw") { if (!d.empty()) fwrite(d.data(), d.size(), 1, f); }
                else if (op == "wb") BufrBulletin::write(d, f, how & 1 ? "name" : nullptr);
                else CrexBulletin::write(d, f, how & 1 ? "name" : nullptr);
            });
            j.close('}');
            continue;
        }
        if (!reading) { rewind(f); reading = true; }
        off_t off = -1;
        bool found = false;
        std::string what;
        J g; g.open('{');
        auto st = guarded(g, [&] {
            if (op == "rb")
                found = BufrBulletin::read(f, buf, how & 1 ? "name" : nullptr, how & 2 ? nullptr : &off);
            else
                found = CrexBulletin::read(f, buf, how & 1 ? "name" : nullptr, how & 2 ? nullptr : &off);
        });
        j.ks("st", st == "ok" ? (found ? "ok" : "end") : st);
        if (st == "ok" && found)
        {
            // without an offset argument, work it out from the position in the stream
            if (how & 2) off = ftello(f) - (off_t)buf.size();
            j.kn("off", off);
            j.key("m").bytes(buf);
        }
        j.close('}');
        if (st != "ok") break;
    }
    j.close(']');
    fclose(f);
    return j.close('}').o;
});

}
