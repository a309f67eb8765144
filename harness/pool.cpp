// Interprets a thread pool scenario against the real UThreadPool and records what the tasks and their submitters see.
#include "CGraph.h"
#include "driver.h"
#include "vsched.h"
#include <atomic>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <thread>

using namespace CGraph;
static constexpr int THROWN = -99, BROKEN = -98;

static std::mutex g_m;
static std::condition_variable g_cv;
static std::map<int, int> g_mark;
static int g_put = 0, g_end = 0;
static std::map<int, std::future<int>> g_fut;
static std::map<int, std::future<void>> g_vfut;
static UThreadPool* g_pool;
static const J* g_sc = nullptr;
static std::map<int, std::unique_ptr<std::thread>> g_user;

static void ops(const std::vector<J>& l);

static const J& task(int t) { return g_sc->at("tasks").a[(size_t)t - 1]; }

static int body(int t) {
    ev("tb", 0, t, "", g_pool->getThreadIndex((CSize)std::hash<std::thread::id>{}(std::this_thread::get_id())));
    const J& j = task(t);
    ops(j.arr("ops"));
    int r = (int)j.i("ret", 0);
    ev("te", 0, t, "", r);
    { std::lock_guard<std::mutex> l(g_m); g_end++; g_cv.notify_all(); }
    if (r == THROWN) throw std::runtime_error("thrown by the scenario");
    return r;
}
static void put(int t, const char* kind, long n) {
    ev("put", 0, t, kind, n);
    std::lock_guard<std::mutex> l(g_m);
    g_put++;
}
static void keep(int t, std::future<int> f) { std::lock_guard<std::mutex> l(g_m); g_fut[t] = std::move(f); }

static void op(const J& o) {
    const std::string k = o.str("o");
    if (k == "work") vs::work((int)o.i("n", 1));
    else if (k == "sleep") std::this_thread::sleep_for(std::chrono::milliseconds(o.i("n")));
    else if (k == "mark") { std::lock_guard<std::mutex> l(g_m); g_mark[(int)o.i("m")]++; g_cv.notify_all(); }
    else if (k == "waitmark") {
        int m = (int)o.i("m"), n = (int)o.i("n", 1);
        std::unique_lock<std::mutex> l(g_m);
        g_cv.wait(l, [&] { return g_mark[m] >= n; });
    }
    else if (k == "commit") {
        int t = (int)o.i("t"), i = (int)o.i("i", -1);
        put(t, i == -101 ? "long" : "n", i);
        keep(t, g_pool->commit([t] { return body(t); }, i));
        ev("putr", 0, t);
    }
    else if (k == "exec") {
        int t = (int)o.i("t"), i = (int)o.i("i", -1);
        put(t, i == -101 ? "long" : "n", i);
        g_pool->execute([t] { (void)body(t); }, i);
        ev("putr", 0, t);
    }
    else if (k == "bulk") {
        const auto& ts = o.arr("ts");
        int i = (int)o.i("i");
        for (auto& x : ts) put((int)x.num(), "n", i);
        for (size_t q = 0; q < ts.size(); q++) {
            int t = (int)ts[q].num();
            bool front = q == 0, back = q + 1 == ts.size();
            if (o.i("f")) keep(t, g_pool->commitWithTid([t] { return body(t); }, i, front || back, front));
            else g_pool->executeWithTid([t] { (void)body(t); }, i, front || back, front);
        }
        for (auto& x : ts) ev("putr", 0, (int)x.num());
    }
    else if (k == "prio") {
        int t = (int)o.i("t"), n = (int)o.i("n");
        put(t, "p", n);
        keep(t, g_pool->commitWithPriority([t] { return body(t); }, n));
        ev("putr", 0, t);
    }
    else if (k == "get") {
        int t = (int)o.i("t"), r;
        std::future<int> f;
        {
            std::unique_lock<std::mutex> l(g_m);
            g_cv.wait(l, [&] { return g_fut.count(t) > 0 || true; });
            if (!g_fut.count(t)) return;
            f = std::move(g_fut[t]);
            g_fut.erase(t);
        }
        ev("call", 0, t, "get");
        try { r = f.get(); }
        catch (const std::future_error&) { r = BROKEN; }
        catch (const std::exception&) { r = THROWN; }
        ev("ret", 0, t, "get", r);
    }
    else if (k == "submit") {
        int g = (int)o.i("g");
        const auto& ts = o.arr("ts");
        long ttl = o.i("ttl", -1), gttl = o.i("gttl", -1);
        bool fin = o.i("fin", 1);
        for (auto& x : ts) put((int)x.num(), "n", -1);
        long lim = CGRAPH_MAX_BLOCK_TTL;
        if (ttl >= 0) lim = std::min(lim, ttl);
        if (gttl >= 0) lim = std::min(lim, gttl);
        ev("gcall", 0, g, "", lim);
        CStatus st;
        auto cb = [g](const CStatus& s) { ev("gfin", 0, g, "", s.getCode()); };
        if (o.i("one")) {
            int t = (int)ts[0].num();
            auto f = [t] { (void)body(t); };
            if (fin) st = g_pool->submit(f, ttl >= 0 ? ttl : CGRAPH_MAX_BLOCK_TTL, cb);
            else st = g_pool->submit(f, ttl >= 0 ? ttl : CGRAPH_MAX_BLOCK_TTL);
        } else {
            UTaskGroup tg;
            for (auto& x : ts) { int t = (int)x.num(); tg.addTask([t] { (void)body(t); }); }
            if (gttl >= 0) tg.setTtl(gttl);
            if (fin) tg.setOnFinished(cb);
            if (tg.getSize() != ts.size()) ev("bad", 0, g, "group size", (long)tg.getSize());
            st = ttl >= 0 ? g_pool->submit(tg, ttl) : g_pool->submit(tg);
        }
        ev("gret", 0, g, "", st.getCode());
    }
    else if (k == "release") {
        ev("call", 0, 0, "release", o.i("n"));
        CStatus st = g_pool->releaseSecondaryThread((int)o.i("n"));
        ev("ret", 0, 0, "release", st.getCode(), (int)o.i("n"));
    }
    else if (k == "init") { ev("call", 0, 0, "init"); CStatus st = g_pool->init(); ev("ret", 0, 0, "init", st.getCode()); }
    else if (k == "destroy") { ev("call", 0, 0, "destroy"); CStatus st = g_pool->destroy(); ev("ret", 0, 0, "destroy", st.getCode()); }
    else if (k == "setcfg") { ev("call", 0, 0, "setcfg"); CStatus st = g_pool->setConfig(g_pool->getConfig()); ev("ret", 0, 0, "setcfg", st.getCode()); }
    else if (k == "isinit") ev("isinit", 0, 0, "", g_pool->isInit());
    else if (k == "all") {       // everything submitted so far (by anybody) is executed
        std::unique_lock<std::mutex> l(g_m);
        g_cv.wait(l, [] { return g_end >= g_put; });
        l.unlock();
        ev("all");
    }
    else if (k == "spawn") {
        int u = (int)o.i("u");
        const J* l = &g_sc->at("users").a[(size_t)u];
        auto t = std::make_unique<std::thread>([l] { ops(l->a); });
        std::lock_guard<std::mutex> lk(g_m);
        g_user[u] = std::move(t);
    }
    else if (k == "join") { g_user[(int)o.i("u")]->join(); }
    else { fprintf(stderr, "unknown op %s\n", k.c_str()); abort(); }
}
static void ops(const std::vector<J>& l) { for (auto& o : l) op(o); }

static void run(const J& sc) {
    g_sc = &sc;
    UThreadPoolConfig c;
    const J& j = sc.at("cfg");
    c.default_thread_size_ = (int)j.i("d", 2);
    c.secondary_thread_size_ = (int)j.i("sec", 0);
    c.max_thread_size_ = (int)j.i("max", 8);
    c.max_task_steal_range_ = (int)j.i("range", 7);
    c.max_local_batch_size_ = c.max_pool_batch_size_ = c.max_steal_batch_size_ = (int)j.i("bs", 2);
    c.primary_thread_busy_epoch_ = (int)j.i("epoch", 3);
    c.batch_task_enable_ = j.i("batch", 0);
    c.monitor_enable_ = j.i("mon", 0);
    c.monitor_span_ = 1;
    c.secondary_thread_ttl_ = (int)j.i("ttl", 2);
    c.deliver_running_primary_thread_enable_ = j.i("deliver", 0);
    g_pool = new UThreadPool(true, c);
    ev("ret", 0, 0, "new");
    ops(sc.at("users").a[0].a);
    ev("call", 0, 0, "delete");
    delete g_pool;
    ev("ret", 0, 0, "delete");
    for (auto& u : g_user) if (u.second->joinable()) u.second->join();
}

int main(int argc, char** argv) { return driver_main(argc, argv, run); }
