// Histories of variables: "var" OP... ; one command is a whole history
#include "common.h"
#include "h_lua.h"
#include "h_policy.h"
#include <memory>
#include <cmath>

using namespace wreport;

namespace drv {

void put_full(J& j, const Var& v, bool attrs)
{
    Varinfo i = v.info();
    j.sep();
    j.open('{');
    j.kn("c", i->code).ks("y", type_letter(i->type)).kn("sc", i->scale).kn("bl", i->bit_len);
    j.key("rf").wide(i->bit_ref);
    j.kn("len", i->len).ks("un", i->unit).kn("set", v.isset() ? 1 : 0);
    bool numeric = i->type == Vartype::Integer || i->type == Vartype::Decimal;
    j.key("v").wide(v.isset() && numeric ? v.enqi() : 0);
    j.key("tx").bytes(v.isset() && !numeric ? v.enqs() : "");
    j.key("at").open('[');
    if (attrs)
        for (const Var* a = v.next_attr(); a; a = a->next_attr())
            put_full(j, *a, false);
    j.close(']');
    j.close('}');
}

namespace {

void put_double(J& j, double d)
{
    char b[40]; snprintf(b, 40, "%.15g", d);
    j.ks("dbl", b);
}

}

// var TABLE OP...; TABLE: b (BUFR) or x (CREX) name
// OP: name a b sil cla hook [arguments]
static Reg r_var("var", [](Args& a) {
    const Vartable* bt = Vartable::get_bufr(a.s());
    const Vartable* ct = Vartable::get_crex("B0000000000000014000");
    Tables tables;
    tables.load_bufr(BufrTableID(0, 0, 0, 14, 0));
    std::unique_ptr<Var> slots[4];
    Lua lua;
    J j; j.open('{');
    j.ks("st", "ok");
    j.key("obs").open('[');
    while (!a.end())
    {
        std::string op = a.s();
        size_t x = a.n() - 1;
        size_t y = a.n();
        bool sil = a.n(), cla = a.n();
        std::string hk = a.s();
        auto& v = slots[x];
        std::unique_ptr<Var> none;
        auto& w = y ? slots[y - 1] : none;
        Varinfo info = nullptr;
        std::string refused;
        if (op.substr(0, 3) == "new")
        {
            std::string kind = a.s();
            Varcode code = (Varcode)a.n();
            int sc = (int)a.n(); unsigned bl = (unsigned)a.n(); int rf = (int)a.n();
            J dummy; dummy.open('{');
            if (guarded(dummy, [&] {
                if (kind == "u") info = tables.get_unknown(code, bl);
                else if (kind == "x") info = ct->query(code);
                else info = bt->query_altered(code, sc, bl, rf);
            }) != "ok") refused = "yes";
        }
        std::string tx; long n = 0; double d = 0; Varcode c = 0;
        if (op == "newi" || op == "seti" || op == "enqid") n = a.n();
        if (op == "newd" || op == "setd" || op == "enqdd") d = a.d();
        if (op == "newc" || op == "news" || op == "setc" || op == "sets" || op == "setct" || op == "setf" || op == "enqcd" || op == "enqsd" || op == "format") tx = a.hex();
        // Setting binary data reads as many bytes as the variable has
        if (op == "newc" || op == "setc" || op == "setct") tx += std::string(300, 0);
        if (op == "setaa" || op == "unseta" || op == "enqa") c = (Varcode)a.n();
        Policy p(sil, cla, hk);
        // results
        long rn = 0; double rd = 0; std::string rt; int rb = 0; const Var* rv = nullptr;
        j.sep(); j.open('{');
        j.key("r").open('{');
        if (!refused.empty())
        {
            j.ks("st", "err").ks("err", "altered");
        }
        else guarded(j, [&] {
            if (op == "new") v.reset(new Var(info));
            else if (op == "newi") { std::unique_ptr<Var> t(new Var(info, (int)n)); v = std::move(t); }
            else if (op == "newd") { std::unique_ptr<Var> t(new Var(info, d)); v = std::move(t); }
            else if (op == "newc") { std::unique_ptr<Var> t(new Var(info, tx.c_str())); v = std::move(t); }
            else if (op == "news") { std::unique_ptr<Var> t(new Var(info, tx)); v = std::move(t); }
            else if (op == "newv") { std::unique_ptr<Var> t(new Var(info, *w)); v = std::move(t); }
            else if (op == "copy") { std::unique_ptr<Var> t(new Var(*w)); v = std::move(t); }
            else if (op == "move") { std::unique_ptr<Var> t(new Var(std::move(*w))); w->unset(); w->clear_attrs(); v = std::move(t); }
            else if (op == "assign") *v = *w;
            else if (op == "massign") { *v = std::move(*w); if (&v != &w) { w->unset(); w->clear_attrs(); } }
            else if (op == "seti") v->seti((int)n);
            else if (op == "setd") v->setd(d);
            else if (op == "setc") v->setc(tx.c_str());
            else if (op == "sets") v->sets(tx);
            else if (op == "setct") v->setc_truncate(tx.c_str());
            else if (op == "setf") v->setf(tx.c_str());
            else if (op == "setfmt") {
                // The text of something that is not a number is not the formatted form of any number
                auto numeric = [](const Var& t) { return t.info()->type == Vartype::Integer || t.info()->type == Vartype::Decimal; };
                std::string t = w->format();
                if (!w->isset() || numeric(*w) || !numeric(*v)) v->setf(t.c_str());
            }
            else if (op == "setval") v->setval(*w);
            else if (op == "setattrs") v->setattrs(*w);
            else if (op == "setvar") v->set(*w);
            else if (op == "unset") v->unset();
            else if (op == "clear") v->clear_attrs();
            else if (op == "seta") v->seta(*w);
            else if (op == "setam") { v->seta(std::move(*w)); w->unset(); w->clear_attrs(); }
            else if (op == "setap") v->seta(std::unique_ptr<Var>(new Var(*w)));
            else if (op == "setaa") { if (const Var* f = w->enqa(c)) v->seta(*f); }
            else if (op == "unseta") v->unseta(c);
            else if (op == "enqi") rn = v->enqi();
            else if (op == "enqid") rn = v->enq((int)n);
            else if (op == "enqd") rd = v->enqd();
            else if (op == "enqdd") rd = v->enq(d);
            else if (op == "enqc") { const char* t = v->enqc(); rt = v->info()->type == Vartype::Binary ? std::string(t, v->info()->len) : t; }
            else if (op == "enqs") rt = v->enqs();
            else if (op == "enqcd") { const char* t = v->enq(tx.c_str()); rt = v->isset() && v->info()->type == Vartype::Binary ? std::string(t, v->info()->len) : t; }
            else if (op == "enqsd") rt = v->enq(tx);
            else if (op == "isset") rb = v->isset();
            else if (op == "format")
            {
                rt = v->format(tx.c_str());
                // Writing it to a file gives the same
                char* buf = nullptr; size_t len = 0;
                FILE* f = open_memstream(&buf, &len);
                v->format(f, tx.c_str());
                fclose(f);
                if (std::string(buf, len) != rt) rt += std::string("|") + std::string(buf, len);
                free(buf);
            }
            else if (op == "eq") { rb = *v == *w; if ((*v != *w) == (bool)rb) rb = 2; if ((*w == *v) != (bool)rb) rb = 3; }
            else if (op == "veq") { rb = v->value_equals(*w); if (w->value_equals(*v) != (bool)rb) rb = 3; }
            else if (op == "diff") { rb = v->diff(*w) != 0; if ((w->diff(*v) != 0) != (bool)rb) rb = 3; }
            else if (op == "enqa") { rv = v->enqa(c); rb = rv != nullptr; }
            else if (op.substr(0, 4) == "lua-" || op.substr(0, 4) == "luc-")
            {
                LuaResult l = lua.run(*v, op.substr(4), op[2] == 'c');
                if (l.failed) throw error_consistency("Lua error");
                rn = l.n; rd = l.d; rt = l.tx; rb = l.kind;
            }
            else { fprintf(stderr, "driver: unknown var op %s\n", op.c_str()); exit(3); }
        });
        j.key("n").wide(rn);
        put_double(j, rd);
        j.key("tx").bytes(rt).kn("b", rb).kn("hk", p.hook.count);
        j.key("va");
        if (rv) put_full(j, *rv, false); else j.raw("{\"c\":-1}");
        j.close('}');
        j.key("s").open('[');
        for (auto& s: slots)
            if (s) put_full(j, *s, true); else j.raw("{\"c\":-1}");
        j.close(']');
        j.close('}');
    }
    j.close(']');
    return j.close('}').o;
});

}
