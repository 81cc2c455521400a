// Histories of subsets: "subset" OP... ; one command is a whole history
#include "h_policy.h"
#include <memory>

using namespace wreport;

namespace drv {

// OP: name a b sil cla hook [arguments]
static Reg r_subset("subset", [](Args& a) {
    Tables tables[3], none;
    tables[0].load_bufr(BufrTableID(0, 0, 0, 14, 0));
    tables[1].load_bufr(BufrTableID(0, 0, 0, 13, 0));
    tables[2].load_crex(CrexTableID(1, 0, 0, 0, 14, 14, 0));
    std::unique_ptr<Var> vars[2];
    std::unique_ptr<Subset> subs[3];
    J j; j.open('{');
    j.ks("st", "ok");
    j.key("obs").open('[');
    while (!a.end())
    {
        std::string op = a.s();
        size_t x = a.n() - 1, y = a.n();
        bool sil = a.n(), cla = a.n();
        std::string hk = a.s();
        std::unique_ptr<Var> nv;
        std::unique_ptr<Subset> ns;
        bool loose = op[1] != '-';
        auto& v = loose ? vars[x] : nv;
        auto& u = loose ? ns : subs[x];
        auto& z = y && y <= 2 ? vars[y - 1] : nv;
        auto& w = y ? subs[y - 1] : ns;
        Varinfo info = nullptr;
        if (op.substr(0, 3) == "new" || op == "s-undefi")
        {
            std::string kind = a.s();
            Varcode code = (Varcode)a.n();
            int sc = (int)a.n(); unsigned bl = (unsigned)a.n(); int rf = (int)a.n();
            if (kind == "u") info = tables[0].get_unknown(code, bl);
            else if (kind == "x") info = tables[2].btable->query(code);
            else info = tables[0].btable->query_altered(code, sc, bl, rf);
        }
        unsigned t = 0, k = 0; Varcode c = 0, cc = 0; long n = 0; double d = 0; std::string tx;
        if (op == "s-new") t = (unsigned)a.n() - 1;
        if (op == "s-dpb" || op == "s-fix") cc = (Varcode)a.n();
        if (op == "s-dpb" || op == "s-fix" || op[0] == 'e') k = (unsigned)a.n();
        if (op == "s-dpb" || op == "s-code" || op == "s-i" || op == "s-d" || op == "s-c" || op == "s-undef") c = (Varcode)a.n();
        if (op == "s-i" || op == "newi" || op == "seti") n = a.n();
        if (op == "s-d" || op == "newd" || op == "setd") d = a.d();
        if (op == "s-c" || op == "news" || op == "sets") tx = a.hex();
        if (op[0] == 'e') k = u->empty() ? 0 : k % u->size();
        Policy p(sil, cla, hk);
        long rn = 0; int rb = 0;
        j.sep(); j.open('{');
        j.key("r").open('{');
        guarded(j, [&] {
            if (op == "new") v.reset(new Var(info));
            else if (op == "newi") { std::unique_ptr<Var> q(new Var(info, (int)n)); v = std::move(q); }
            else if (op == "newd") { std::unique_ptr<Var> q(new Var(info, d)); v = std::move(q); }
            else if (op == "news") { std::unique_ptr<Var> q(new Var(info, tx)); v = std::move(q); }
            else if (op == "newv") { std::unique_ptr<Var> q(new Var(info, *z)); v = std::move(q); }
            else if (op == "copy") { std::unique_ptr<Var> q(new Var(*z)); v = std::move(q); }
            else if (op == "seti") v->seti((int)n);
            else if (op == "setd") v->setd(d);
            else if (op == "sets") v->sets(tx);
            else if (op == "unset") v->unset();
            else if (op == "seta") v->seta(*z);
            else if (op == "s-new") u.reset(new Subset(tables[t]));
            else if (op == "s-bad") { std::unique_ptr<Subset> q(new Subset(none)); u = std::move(q); }
            else if (op == "s-copy") { std::unique_ptr<Subset> q(new Subset(*w)); u = std::move(q); }
            else if (op == "s-assign") *u = *w;
            else if (op == "s-move") { std::unique_ptr<Subset> q(new Subset(std::move(*w))); w->clear(); u = std::move(q); }
            else if (op == "s-massign") { *u = std::move(*w); if (&u != &w) w->clear(); }
            else if (op == "s-clear") u->clear();
            else if (op == "s-var") u->store_variable(*z);
            else if (op == "s-varm") { u->store_variable(std::move(*z)); z->unset(); z->clear_attrs(); }
            else if (op == "s-undefi") u->store_variable_undef(info);
            else if (op == "s-code") u->store_variable(c, *z);
            else if (op == "s-i") u->store_variable_i(c, (int)n);
            else if (op == "s-d") u->store_variable_d(c, d);
            else if (op == "s-c") u->store_variable_c(c, tx.c_str());
            else if (op == "s-undef") u->store_variable_undef(c);
            else if (op == "s-dpb") rn = u->append_dpb(cc, k, c);
            else if (op == "s-fix") u->append_fixed_dpb(cc, (int)k);
            else if (op == "s-diff") { rb = u->diff(*w) != 0; if ((w->diff(*u) != 0) != (bool)rb) rb = 3; }
            else if (op == "e-seta") { if (!u->empty()) (*u)[k].seta(*z); }
            else if (op == "e-unset") { if (!u->empty()) (*u)[k].unset(); }
            else if (op == "e-get") { if (!u->empty()) z.reset(new Var((*u)[k])); }
            else { fprintf(stderr, "driver: unknown subset op %s\n", op.c_str()); exit(3); }
        });
        j.key("n").wide(rn);
        j.kn("b", rb).kn("hk", p.hook.count);
        j.close('}');
        j.key("v").open('[');
        for (auto& q: vars)
            if (q) put_full(j, *q, true); else j.raw("{\"c\":-1}");
        j.close(']');
        j.key("u").open('[');
        for (auto& q: subs)
        {
            j.sep(); j.open('{');
            int which = 0;
            for (int m = 0; m < 3; ++m) if (q && q->tables == &tables[m]) which = m + 1;
            j.kn("t", q ? which : 0);
            j.key("vs").open('[');
            if (q) for (const auto& e: *q) put_full(j, e, true);
            j.close(']');
            j.close('}');
        }
        j.close(']');
        j.close('}');
    }
    j.close(']');
    return j.close('}').o;
});

}
