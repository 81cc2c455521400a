// Histories of scopes that change options, in several threads
#include "common.h"
#include <wreport/notes.h>
#include <cstring>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <sstream>
#include <thread>

using namespace wreport;

namespace drv {

namespace {

struct Cmd { long t; std::string op, o; long v; };

struct Hooker : public options::DomainErrorHook
{
    int n = 0;
    void handle_domain_error_int(Var&, int32_t) override { ++n; }
    void handle_domain_error_double(Var&, double) override { ++n; }
};

// Where the notes and the domain errors of a thread may go
struct Targets
{
    Hooker hooks[4];
    std::ostringstream nts[4];
};

struct Seen
{
    std::string json;
    void look(Targets& g, Varinfo info, bool as_double)
    {
        J j; j.open('{');
        j.kn("sil", options::var_silent_domain_errors).kn("cla", options::var_clamp_domain_errors);
        long h = 0;
        if (options::var_hook_domain_errors)
        {
            h = -1;
            for (int i = 1; i < 4; ++i) if (options::var_hook_domain_errors == &g.hooks[i]) h = i;
        }
        j.kn("hk", h);
        long t = 0;
        if (notes::get_target())
        {
            t = -1;
            for (int i = 1; i < 4; ++i) if (notes::get_target() == &g.nts[i]) t = i;
        }
        if (notes::logs() != (t != 0)) t = -2;
        j.kn("nt", t);
        // A value out of range
        for (auto& x: g.hooks) x.n = 0;
        Var v(info, 1);
        std::string pol; long who = 0;
        try {
            if (as_double) v.setd(1e9); else v.seti(1000000000);
            pol = v.isset() ? (v.enqi() == info->imax ? "clamped" : v.enqi() == 1 ? "kept" : "other") : "unset";
        } catch (error_domain&) { pol = v.isset() ? "other" : "error"; }
        for (int i = 0; i < 4; ++i) if (g.hooks[i].n)
        {
            who = pol == "kept" && g.hooks[i].n == 1 && !who ? i : -1;
            pol = "hook";
        }
        j.key("pol").open('['); j.str(pol); j.num(who); j.close(']');
        // A note
        size_t before[4];
        for (int i = 0; i < 4; ++i) before[i] = g.nts[i].str().size();
        notes::logf("a note %d\n", 1);
        notes::log() << "another" << std::endl;
        long where = 0;
        for (int i = 0; i < 4; ++i)
            if (size_t n = g.nts[i].str().size() - before[i])
                where = where || n != strlen("a note 1\nanother\n") ? -1 : i;
        j.kn("note", where);
        json = j.close('}').o;
    }
};

struct Runner
{
    std::function<bool(Cmd&)> next;
    std::function<void()> done;
    Targets& g;
    long left = 0;
    explicit Runner(Targets& g) : g(g) {}

    // Run commands until the scope ends
    void scope()
    {
        Cmd c;
        while (next(c))
        {
            if (c.op == "close" || c.op == "end") return;
            if (c.op == "throw")
            {
                left = c.v;
                throw error_consistency("leaving scopes");
            }
            if (c.op == "open")
            {
                try {
                    if (c.o == "sil")
                    {
                        options::LocalOverride<bool> o(options::var_silent_domain_errors, c.v);
                        done(); scope();
                    } else if (c.o == "cla") {
                        auto o = options::local_override(options::var_clamp_domain_errors, (bool)c.v);
                        done(); scope();
                    } else if (c.o == "hk") {
                        options::DomainErrorHook* h = c.v ? &g.hooks[c.v] : nullptr;
                        options::LocalOverride<options::DomainErrorHook*> o(options::var_hook_domain_errors, h);
                        done(); scope();
                    } else {
                        notes::Collect o(g.nts[c.v]);
                        done(); scope();
                    }
                } catch (error_consistency&) {
                    if (--left > 0) throw;
                }
                done();
                continue;
            }
            if (c.op == "assign")
            {
                if (c.o == "sil") options::var_silent_domain_errors = c.v;
                else if (c.o == "cla") options::var_clamp_domain_errors = c.v;
                else if (c.o == "hk") options::var_hook_domain_errors = c.v ? &g.hooks[c.v] : nullptr;
                else notes::set_target(g.nts[c.v]);
            }
            done();
        }
    }
};

struct Worker
{
    std::thread thread;
    std::mutex m;
    std::condition_variable cv;
    Cmd cmd;
    int state = 0;      // 0 idle, 1 command to do, 2 done, 3 over
    Targets& g;
    Varinfo info;
    explicit Worker(Targets& g, Varinfo info) : g(g), info(info)
    {
        thread = std::thread([this] { run(); });
    }
    Seen seen;
    bool first = true;
    void run()
    {
        Runner r(g);
        r.next = [this](Cmd& c) {
            std::unique_lock<std::mutex> l(m);
            while (true)
            {
                cv.wait(l, [this] { return state == 1; });
                c = cmd;
                if (c.op != "look") return true;
                seen.look(g, info, c.v);
                state = 2;
                cv.notify_all();
            }
        };
        r.done = [this] { std::unique_lock<std::mutex> l(m); state = 2; cv.notify_all(); };
        r.scope();
        r.done();
    }
    void ask(const Cmd& c)
    {
        std::unique_lock<std::mutex> l(m);
        cmd = c;
        state = 1;
        cv.notify_all();
        cv.wait(l, [this] { return state == 2; });
    }
};

std::vector<Cmd> take(Args& a)
{
    std::vector<Cmd> r;
    while (!a.end())
    {
        Cmd c;
        c.t = a.n(); c.op = a.s(); c.o = a.s(); c.v = a.n();
        r.push_back(c);
    }
    return r;
}

}

// opts (THREAD OP OPTION VALUE)...: one step at a time. All threads are made for the occasion
static Reg r_opts("opts", [](Args& a) {
    auto info = Vartable::get_bufr("B0000000000000014000")->query(WR_VAR(0, 12, 101));
    Targets g;
    std::map<long, std::unique_ptr<Worker>> ws;
    ws[0].reset(new Worker(g, info));
    J j; j.open('{');
    j.ks("st", "ok");
    j.key("obs").open('[');
    unsigned n = 0;
    for (auto& c: take(a))
    {
        ++n;
        if (c.op == "start") ws[c.t].reset(new Worker(g, info));
        else ws[c.t]->ask(c);
        if (c.op == "end") { ws[c.t]->thread.join(); ws.erase(c.t); }
        j.sep(); j.open('[');
        for (auto& w: ws)
        {
            w.second->ask(Cmd{w.first, "look", "", (long)(n % 2)});
            j.sep(); j.open('{');
            j.kn("t", w.first);
            j.key("x").raw(w.second->seen.json);
            j.close('}');
        }
        j.close(']');
    }
    j.close(']');
    for (auto& w: ws)
    {
        // leave everything
        w.second->m.lock();
        w.second->m.unlock();
    }
    j.close('}');
    while (!ws.empty())
    {
        auto& w = ws.begin()->second;
        w->ask(Cmd{0, "end", "", 0});
        w->thread.join();
        ws.erase(ws.begin());
    }
    return j.o;
});

// optsfree (THREAD OP OPTION VALUE)...: threads run at the same time, each with its own steps
static Reg r_optsfree("optsfree", [](Args& a) {
    auto info = Vartable::get_bufr("B0000000000000014000")->query(WR_VAR(0, 12, 101));
    std::map<long, std::vector<Cmd>> todo;
    for (auto& c: take(a)) if (c.op != "start") todo[c.t].push_back(c);
    std::map<long, std::vector<std::string>> seen;
    std::vector<std::thread> ts;
    for (auto& t: todo) seen[t.first];
    std::mutex m; std::condition_variable cv; bool go = false;
    for (auto& t: todo)
    {
        auto& cmds = t.second; auto& out = seen[t.first];
        ts.emplace_back([&] {
            { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return go; }); }
            Targets g;
            Runner r(g);
            size_t i = 0;
            r.next = [&](Cmd& c) { if (i >= cmds.size()) { c.op = "end"; return true; } c = cmds[i++]; return true; };
            r.done = [&] { Seen s; s.look(g, info, i % 2); out.push_back(s.json); std::this_thread::yield(); };
            r.scope();
        });
    }
    { std::unique_lock<std::mutex> l(m); go = true; cv.notify_all(); }
    for (auto& t: ts) t.join();
    J j; j.open('{');
    j.ks("st", "ok");
    j.key("threads").open('{');
    for (auto& s: seen)
    {
        j.key(std::to_string(s.first).c_str()).open('[');
        for (auto& x: s.second) j.raw(x);
        j.close(']');
    }
    return j.close('}').close('}').o;
});

}
