// event dispatchers: scripted histories and concurrent use
#include "drv.hpp"
#include "chaos.hpp"
#include <mutex>
#include <thread>
#include "ldaplusplus/events/Events.hpp"
using namespace drv;
using namespace ldaplusplus::events;

namespace {
struct Ev : Event {
    Ev(int n, int from = 0) : Event("ev"), n(n), from(from) {}
    int n, from;
};
struct World;
struct Op { char k; int a; };
struct World {
    std::shared_ptr<EventDispatcherInterface> d;
    ThreadSafeEventDispatcher *safe = nullptr;
    std::vector<std::shared_ptr<EventListenerInterface>> ls;
    std::vector<std::vector<Op>> react;   // what listener l does, one operation per notification
    std::vector<size_t> pos;
    std::vector<double> log;
    int depth = 0, locked = 0;
    void run(Op o) {
        switch (o.k) {
            case 'a': d->add_listener(ls[o.a]); break;
            case 'r': d->remove_listener(ls[o.a]); break;
            case 'd': d->dispatch(std::make_shared<Ev>(o.a)); break;
            case 'o': { std::thread t([&] { d->dispatch(std::make_shared<Ev>(o.a)); }); t.join(); break; }
            case 'p': if (safe) safe->process_events(); break;
        }
    }
    std::shared_ptr<EventListenerInterface> listener(int l) {
        return std::make_shared<FunctionEventListener>([this, l](std::shared_ptr<Event> e) {
            if (chaos::held) locked++;
            if (log.size() > 20000) { std::fflush(stdout); std::_Exit(3); }
            log.push_back(l);
            log.push_back(std::static_pointer_cast<Ev>(e)->n);
            if (pos[l] < react[l].size()) run(react[l][pos[l]++]);
        });
    }
};
std::shared_ptr<EventDispatcherInterface> make(const std::string &k, ThreadSafeEventDispatcher **s) {
    if (k == "plain") return std::make_shared<EventDispatcher>();
    if (k == "safe") { auto p = std::make_shared<ThreadSafeEventDispatcher>(); *s = p.get(); return p; }
    auto p = std::make_shared<SameThreadEventDispatcher>(); *s = p.get(); return p;
}
Op op() { std::string w = word(); return Op{w[0], std::atoi(w.c_str() + 1)}; }
}

COMMAND("events") {
    World w;
    w.d = make(word(), &w.safe);
    long n = integer();
    for (long l = 0; l < n; l++) {
        w.ls.push_back(w.listener(l));
        w.pos.push_back(0);
        w.react.emplace_back();
        long k = integer();
        while (k--) w.react.back().push_back(op());
    }
    long k = integer();
    while (k--) w.run(op());
    VectorXd v(w.log.size());
    for (size_t i = 0; i < w.log.size(); i++) v[i] = w.log[i];
    out("log", v);
    out("locked", w.locked);
    w.d.reset();
}

// <kind> threads events: every thread dispatches, adds and removes while this one processes
COMMAND("evstress") {
    std::string kind = word();
    ThreadSafeEventDispatcher *safe = nullptr;
    auto d = make(kind, &safe);
    long nt = integer(), ne = integer();
    chaos::level = integer();
    std::vector<std::vector<int>> got(nt);
    int locked = 0, after = 0;
    auto keep = std::make_shared<FunctionEventListener>([&](std::shared_ptr<Event> e) {
        auto v = std::static_pointer_cast<Ev>(e);
        if (chaos::held) locked++;
        got[v->from].push_back(v->n);
    });
    d->add_listener(keep);
    std::atomic<int> running(nt);
    std::vector<std::thread> ts;
    std::vector<std::vector<std::shared_ptr<EventListenerInterface>>> tmp(nt);
    std::vector<std::shared_ptr<std::atomic<bool>>> gone;
    for (long t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            for (long i = 0; i < ne; i++) {
                d->dispatch(std::make_shared<Ev>(i, t));
                auto l = std::make_shared<FunctionEventListener>([](std::shared_ptr<Event>) {});
                d->add_listener(l);
                if (i % 2) d->remove_listener(l); else tmp[t].push_back(l);
            }
            for (auto &l : tmp[t]) d->remove_listener(l);
            running--;
        });
    unsigned spins = 0;
    while (running > 0) { safe->process_events(); std::this_thread::yield(); if (++spins % 32 == 0) std::this_thread::sleep_for(std::chrono::microseconds(50)); }
    for (auto &t : ts) t.join();
    safe->process_events();
    // everything that was added temporarily is gone: a further event reaches the permanent listener alone
    long seen = 0;
    std::vector<std::shared_ptr<EventListenerInterface>> none;
    chaos::level = 0;
    long before = 0;
    for (auto &g : got) before += g.size();
    d->dispatch(std::make_shared<Ev>(ne, 0));
    safe->process_events();
    for (auto &g : got) seen += g.size();
    out("more", seen - before);
    out("locked", locked);
    long bad = 0;
    for (long t = 0; t < nt; t++) {
        if ((long)got[t].size() != ne + (t == 0)) { bad++; continue; }
        for (size_t i = 0; i < got[t].size(); i++) if (got[t][i] != (int)i) bad++;
    }
    out("bad", bad);
    (void)after;
}
