// Interprets a scenario (JSON) against the real CGraph and records what user code can observe, one event per hook.
#include "CGraph.h"
#include "driver.h"
#include "vsched.h"
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <thread>
#include <sys/mman.h>
#include <unistd.h>

using namespace CGraph;

static constexpr int THROWN = -99;

// ---------------------------------------------------------------- shared harness state
static std::mutex g_m;
static std::condition_variable g_cv;
static std::map<int, int> g_mark;
static void set_mark(int k) { std::lock_guard<std::mutex> l(g_m); g_mark[k]++; g_cv.notify_all(); }
static void wait_mark(int k, int cnt) { std::unique_lock<std::mutex> l(g_m); g_cv.wait(l, [&] { return g_mark[k] >= cnt; }); }
// n parties meet: everybody waits until the n-th has come (used to show that independent work really overlaps)
static std::map<int, int> g_meet;
static void meet(int k, int n) {
    std::unique_lock<std::mutex> l(g_m);
    int round = g_meet[k]++ / n;
    g_cv.notify_all();
    g_cv.wait(l, [&] { return g_meet[k] >= (round + 1) * n; });
}

struct EC;                       // configuration and run-time counters of one element
struct Pipe;
static std::vector<std::unique_ptr<Pipe>> g_pipes;
static std::vector<std::unique_ptr<UThreadPool>> g_pools;

// what scripts may use of the object they run in
struct Ctx {
    virtual ~Ctx() = default;
    virtual int notify(const std::string&, int, int) { return 0; }
    virtual std::shared_future<void> anotify(const std::string&, int) { return {}; }
    virtual int stage(const std::string&) { return 0; }
    virtual int pcreate(const std::string&, int) { return 0; }
    virtual GParam* pget(const std::string&, int) { return nullptr; }
    virtual int premove(const std::string&) { return 0; }
    virtual std::vector<std::string> pkeys() { return {}; }
    virtual std::vector<std::string> pcon() { return {}; }
    virtual int spawn(const UTaskGroup&, long) { return 0; }
    virtual bool timeout() { return false; }
    virtual int thridx() { return 0; }
};
static void exec_ops(Ctx& c, int p, int e, const std::vector<J>& ops);

template <int K>
struct P : public GParam {
    int v = 0, ns = 0;
    CStatus setup() override;
    CVoid reset(const CStatus& st) override { ev("preset", 0, K, getKey().c_str(), st.getCode(), v); }
    CStatus init() override { ev("pinit", 0, K, getKey().c_str()); return CStatus(); }
    CStatus destroy() override { ev("pdestroy", 0, K, getKey().c_str()); return CStatus(); }
    ~P() override { ev("pdtor", 0, K, getKey().c_str()); }
};
static const J* g_sc;

struct EC {
    int p = 0, id = 0;
    std::string k;
    const J* j = nullptr;
    int par = 0;
    GElementPtr el = nullptr;
    std::vector<int> ch;
    // how often each hook has been called since the last init
    std::atomic<int> nrun{0}, nhold{0}, nchoose{0}, nmatch{0}, nresh{0}, nprep{0}, nchk{0};
    std::atomic<int> ninit{0}, ndestroy{0};
    static int pick(const std::vector<J>& v, int i, int def) {
        if (v.empty()) return def;
        return (int)v[(size_t)i < v.size() ? (size_t)i : v.size() - 1].num();
    }
    int scr(const char* name, std::atomic<int>& cnt, int def) { int i = cnt++; return pick(j->arr(name), i, def); }
};

static CStatus mk(int code) { return code == 0 ? CStatus() : CStatus(code, "e"); }
static CStatus finish(int code) {
    if (code == THROWN) throw CException("thrown by the scenario");
    return mk(code);
}
template <int K>
CStatus P<K>::setup() {
    auto* j = g_sc->find("psetup");          // {"k1": [0, -7, ...]}
    int r = j ? EC::pick(j->arr(getKey().c_str()), ns++, 0) : 0;
    ev("psetup", 0, K, getKey().c_str(), r, v);
    return finish(r);
}

struct Pipe {
    int p = 0;
    const J* j = nullptr;
    GPipelinePtr pl = nullptr;
    std::map<int, std::unique_ptr<EC>> els;
    std::vector<std::future<CStatus>> futs;
    bool loaded = false;
};

static int g_cur = 0;                      // the pipeline being built or loaded
struct HB;
static std::vector<HB*>* g_fresh = nullptr; // elements made while one is loaded
struct HB {
    EC* c = nullptr;
    HB() { if (g_fresh) g_fresh->push_back(this); }
    virtual ~HB() { if (g_fresh) g_fresh->erase(std::remove(g_fresh->begin(), g_fresh->end(), this), g_fresh->end()); }
};

template <class B>
struct H : public B, public HB, public Ctx {
    ~H() override { if (c) ev("dtor", c->p, c->id); }
    CStatus prepareRun() override {
        int r = c->scr("prep", c->nprep, 0);
        ev("prep", c->p, c->id, "", r);
        return finish(r);
    }
    CStatus checkRunResult() override {
        int r = c->scr("chk", c->nchk, 0);
        ev("chk", c->p, c->id, "", r);
        return finish(r);
    }
    CBool isMatch() override {
        int r = c->scr("match", c->nmatch, 0);
        ev("match", c->p, c->id, "", r);
        return r != 0;
    }
    int stage(const std::string& k) override { return this->enterStage(k).getCode(); }
    int notify(const std::string& k, int ty, int st) override {
        return B::notify(k, (GEventType)ty, (GEventAsyncStrategy)st).getCode();
    }
    std::shared_future<void> anotify(const std::string& k, int st) override { return B::asyncNotify(k, (GEventAsyncStrategy)st); }
    int pcreate(const std::string& k, int t) override {
        return (t == 2 ? this->template createGParam<P<2>>(k) : this->template createGParam<P<1>>(k, t == 3)).getCode();
    }
    GParam* pget(const std::string& k, int t) override {
        if (t == 2) return this->template getGParam<P<2>>(k);
        return this->template getGParam<P<1>>(k);
    }
    int premove(const std::string& k) override { return this->removeGParam(k).getCode(); }
    std::vector<std::string> pkeys() override { return this->getGParamKeys(); }
    std::vector<std::string> pcon() override { return this->getConcernedGParamKeys(); }
    bool timeout() override { return this->isTimeout(); }
    int thridx() override { return this->getThreadIndex(); }
};
template <class B>
struct HH : public H<B> {          // the kinds whose isHold may be overridden
    CBool isHold() override {
        EC* c = this->c;
        int r = c->scr("hold", c->nhold, 0);
        ev("hold", c->p, c->id, "", r);
        return r != 0;
    }
};

static CStatus body(Ctx& x, EC* c) {
    int i = c->nrun++;
    ev("rb", c->p, c->id, "", i);
    int r;
    try {
        exec_ops(x, c->p, c->id, c->j->arr("run"));
        r = EC::pick(c->j->arr("res"), i, 0);
    } catch (const CException&) {
        r = THROWN;
    }
    ev("re", c->p, c->id, "", r);
    return finish(r);
}
static CStatus node_init(Ctx& x, EC* c) {
    ev("ib", c->p, c->id);
    c->nrun = c->nhold = c->nchoose = c->nmatch = c->nresh = c->nprep = c->nchk = 0;
    exec_ops(x, c->p, c->id, c->j->arr("iops"));
    int r = EC::pick(c->j->arr("init"), c->ninit++, 0);
    ev("ie", c->p, c->id, "", r);
    return finish(r);
}
static CStatus node_destroy(Ctx& x, EC* c) {
    ev("db", c->p, c->id);
    exec_ops(x, c->p, c->id, c->j->arr("dops"));
    int r = EC::pick(c->j->arr("destroy"), c->ndestroy++, 0);
    ev("de", c->p, c->id, "", r);
    return finish(r);
}

struct Node : public HH<GNode> {
    CStatus init() override { return node_init(*this, c); }
    CStatus run() override { return body(*this, c); }
    CStatus destroy() override { return node_destroy(*this, c); }
    int spawn(const UTaskGroup& g, long ttl) override { return GNode::spawn(g, ttl).getCode(); }
};
struct PipeCtx : Ctx {             // what scripts of the main program may do with the pipeline's parameters
    GPipelinePtr pl;
    int pcreate(const std::string& k, int t) override { return (t == 2 ? pl->createGParam<P<2>>(k) : pl->createGParam<P<1>>(k, t == 3)).getCode(); }
    GParam* pget(const std::string& k, int t) override { return t == 2 ? (GParam*)pl->getGParam<P<2>>(k) : (GParam*)pl->getGParam<P<1>>(k); }
    int premove(const std::string& k) override { return pl->removeGParam(k).getCode(); }
    std::vector<std::string> pkeys() override { return pl->getGParamKeys(); }
};
struct Clu : public HH<GCluster> {};
struct Reg : public HH<GRegion> {};
struct Cond : public HH<GCondition> {
    CIndex choose() override {
        int r = c->scr("idx", c->nchoose, 0);
        ev("choose", c->p, c->id, "", r);
        return r;
    }
};
template <GMultiConditionType T>
struct MC : public HH<GMultiCondition<T>> {};
using MCS = MC<GMultiConditionType::SERIAL>;
using MCP = MC<GMultiConditionType::PARALLEL>;
struct Mut : public HH<GMutable> {
    CStatus reshape(GElementPtrArr& es) override {
        auto& scripts = c->j->arr("reshape");
        int i = c->nresh++;
        if (scripts.empty()) { ev("reshape", c->p, c->id, "", 0); return CStatus(); }
        size_t n = (size_t)i < scripts.size() ? (size_t)i : scripts.size() - 1;
        auto& s = scripts[n];
        // {"edges":[[i,j],...],"solo":[i,...],"res":code}: i, j are positions among the children
        for (auto& x : s.arr("solo")) (*es[(size_t)x.num()])--;
        for (auto& x : s.arr("edges")) *es[(size_t)x.a[0].num()] > es[(size_t)x.a[1].num()];
        for (auto& x : s.arr("loops")) *es[(size_t)x.a[0].num()] * (CSize)x.a[1].num();
        int r = (int)s.i("res", 0);
        ev("reshape", c->p, c->id, "", r, (int)n + 1);
        return finish(r);
    }
};
struct Some : public H<GSome> {
    CSize getWaitNum() override { ev("waitnum", c->p, c->id, "", c->j->i("some", 1)); return (CSize)c->j->i("some", 1); }
};
struct Fence : public HH<GFence> {};
struct Coord1 : public HH<GCoordinator<1>> {};
struct CoordM1 : public HH<GCoordinator<-1>> {};
struct Func : public HH<GFunction> {};

static EC* ec_of(int p, const std::string& name);
template <class B>
struct AspectOf : public B {
    int p = g_cur, e = -1, i = 0;
    ~AspectOf() override { ev("adtor", p, e, "", 0, i); }
    EC* ec() {
        if (e >= 0) return g_pipes[(size_t)p]->els[e].get();
        EC* c = ec_of(p, this->getName());      // of a loaded pipeline
        if (c) e = c->id;
        return c;
    }
    int script(const char* k) {
        EC* c = ec();
        if (!c) return -1;
        auto* a = c->j->find("aerr");       // {"at":"br","i":2,"n":-104,"from":k}: this hook of this aspect fails
        if (a && a->str("at") == k && a->i("i") == i && cnt++ >= a->i("from", 0)) return (int)a->i("n");
        return 0;
    }
    int cnt = 0;
    CStatus st(const char* k) { int r = script(k); ev("asp", p, e, k, r, i); return finish(r); }
    CStatus beginInit() override { return st("bi"); }
    CVoid finishInit(const CStatus& s) override { ec(); ev("asp", p, e, "fi", s.getCode(), i); }
    CStatus beginRun() override { return st("br"); }
    CVoid finishRun(const CStatus& s) override { ec(); ev("asp", p, e, "fr", s.getCode(), i); }
    CStatus beginDestroy() override { return st("bd"); }
    CVoid finishDestroy(const CStatus& s) override { ec(); ev("asp", p, e, "fd", s.getCode(), i); }
    CVoid enterCrashed() override { ec(); ev("asp", p, e, "cr", 0, i); }
    CVoid enterTimeout() override { ec(); ev("asp", p, e, "to", 0, i); }
};
struct LogAspect : public AspectOf<GTemplateAspect<int, int, int>> {
    LogAspect(int p_, int e_, int i_) { p = p_; e = e_; i = i_; }
};
template <int I>
struct SAspect : public AspectOf<GAspect> { SAspect() { i = I; } };      // the ones that can be stored

static const J* find_j(int p, const char* list, int id);
template <class B>
struct DaemonOf : public B {
    int p = g_cur;
    const J* j = nullptr;
    CVoid daemonTask(GDaemonParamPtr) override {
        ev("dmb", p, (int)j->i("id"));
        struct C : Ctx {
            DaemonOf* d;
            int notify(const std::string& k, int ty, int st) override { return d->B::notify(k, (GEventType)ty, (GEventAsyncStrategy)st).getCode(); }
        } c;
        c.d = this;
        exec_ops(c, p, 0, j->arr("ops"));
        ev("dme", p, (int)j->i("id"));
    }
    int nm = 0;
    CMSec modify(GDaemonParamPtr) override { int r = EC::pick(j->arr("mod"), nm++, 0); ev("dmm", p, (int)j->i("id"), "", r); return (CMSec)r; }
    ~DaemonOf() override { ev("ddtor", p, (int)j->i("id")); }
};
struct LogDaemon : public DaemonOf<GTemplateDaemon<int, const J*>> {
    LogDaemon(int p_, const J* j_) { p = p_; j = j_; }
};
template <int I>
struct SDaemon : public DaemonOf<GDaemon> { SDaemon() { this->j = find_j(p, "daemons", I); } };

struct EvParam : public GEventParam {
    int p = 0;
    const J* j = nullptr;
    CVoid clone(GPassedParam* o) override { auto* x = dynamic_cast<EvParam*>(o); p = x->p; j = x->j; }
};
struct LogEvent : public GEvent {
    int id = -1, p = g_cur;
    std::atomic<int> n{0};
    CStatus init() override { ev("evinit", p, id); return CStatus(); }
    CStatus destroy() override { ev("evdestroy", p, id); return CStatus(); }
    CVoid trigger(GEventParamPtr pp) override {
        auto* x = dynamic_cast<EvParam*>(pp);
        const J* j = x ? x->j : find_j(p, "events", id);
        id = (int)j->i("id");
        if (x) p = x->p;
        int i = n++;
        ev("tb", p, id, "", i);
        struct C : Ctx {
            LogEvent* e;
            GParam* pget(const std::string& k, int t) override { return t == 2 ? (GParam*)e->getGParam<P<2>>(k) : (GParam*)e->getGParam<P<1>>(k); }
            std::vector<std::string> pcon() override { return e->getConcernedGParamKeys(); }
        } c;
        c.e = this;
        exec_ops(c, p, 1000 + id, j->arr("ops"));
        ev("te", p, id, "", i);
    }
};
template <int I>
struct SEvent : public LogEvent { SEvent() { id = I; } };
struct StParam : public GStageParam {
    int p = 0, id = 0;
    CVoid clone(GPassedParam* o) override { auto* x = dynamic_cast<StParam*>(o); p = x->p; id = x->id; }
};
struct LogStage : public GStage {
    int p = g_cur, id = -1;
    CVoid launch(GStageParamPtr pp) override {
        auto* x = dynamic_cast<StParam*>(pp);
        if (x) p = x->p, id = x->id;
        ev("slb", p, id); vs::work(2); ev("sle", p, id);
    }
};
template <int I>
struct SStage : public LogStage { SStage() { id = I; } };

// ---------------------------------------------------------------- scripts run inside elements, events, daemons
static thread_local std::vector<std::shared_future<void>>* t_futs = nullptr;
static void exec_ops(Ctx& c, int p, int e, const std::vector<J>& ops) {
    std::vector<std::shared_future<void>> futs;
    for (auto& o : ops) {
        std::string k = o.str("o");
        long n = o.i("n");
        if (k == "work") vs::work((int)n);
        else if (k == "sleep") usleep((useconds_t)n * 1000);
        else if (k == "mark") { ev("mark", p, e, "", n); set_mark((int)n); }
        else if (k == "waitmark") wait_mark((int)n, (int)o.i("cnt", 1));
        else if (k == "meet") meet((int)n, (int)o.i("cnt", 2));
        else if (k == "stage") {
            std::string key = std::to_string(n);
            ev("sb", p, e, key.c_str(), n);
            int r = c.stage(key);
            ev("se", p, e, key.c_str(), n, r);
        } else if (k == "notify") {      // ty: 0 sync 1 async, st: strategy
            ev("nb", p, (int)n, e && e < 1000 ? "e" : "d", o.i("st"), (int)o.i("ty"));
            int r = c.notify(std::to_string(n), (int)o.i("ty"), (int)o.i("st"));
            ev("ne", p, (int)n, "", r, (int)o.i("ty"));
        } else if (k == "anotify") {
            ev("nb", p, (int)n, e && e < 1000 ? "e" : "d", o.i("st"), 1);
            try {
                auto f = c.anotify(std::to_string(n), (int)o.i("st"));
                ev("ne", p, (int)n, "", 0, 1);
                if (o.i("wait")) { f.wait(); ev("nw", p, (int)n); }
            } catch (const CException&) { ev("ne", p, (int)n, "", -1, 1); }
        } else if (k[0] == 'p') {         // parameters: one event before and one after each operation
            std::string key = o.str("key"), nm = k + ":" + key, out;
            ev("pb", p, e, nm.c_str(), n);
            int r = 0;
            if (k == "pcreate") r = c.pcreate(key, (int)n);
            else if (k == "pget") r = c.pget(key, (int)n) != nullptr;
            else if (k == "pinc") {       // read-modify-write under the parameter's lock
                auto* x = dynamic_cast<P<1>*>(c.pget(key, 1));
                if (!x) r = -1;
                else {
                    CGRAPH_PARAM_WRITE_CODE_BLOCK(x);
                    int v = x->v;
                    vs::work(3);
                    x->v = v + 1;
                    r = v + 1;
                }
            } else if (k == "premove") r = c.premove(key);
            else if (k == "pkeys") {
                for (auto& x : c.pkeys()) out += x + " ";
            } else if (k == "pcon") {
                for (auto& x : c.pcon()) out += x + " ";
            } else if (k == "ptrace") {
                auto* x = c.pget(key, 1);
                if (!x) r = -1;
                else try { for (auto& y : x->getBacktrace()) out += y + " "; } catch (const CException&) { r = -2; }
            } else { ev("badop", p, e, k.c_str()); continue; }
            ev("pe", p, e, (nm + ":" + out).c_str(), r, (int)n);
        } else if (k == "untilto") {     // cooperative: leave when told that the time is over
            int i = 0;
            while (!c.timeout() && i++ < (int)n) usleep(1000);
            ev("isto", p, e);
            ev("sawto", p, e, "", c.timeout());
        } else if (k == "isto") {
            ev("isto", p, e);
            ev("sawto", p, e, "", c.timeout());
        }
        else if (k == "thridx") ev("thridx", p, e, "", c.thridx());
        else if (k == "spawn") {         // a task group of n tasks
            UTaskGroup g;
            for (int i = 0; i < n; i++) g.addTask([p, e, i] { ev("tkb", p, e, "", i); vs::work(2); ev("tke", p, e, "", i); });
            int r = c.spawn(g, o.i("ttl", 1000000));
            ev("spawned", p, e, "", r, (int)n);
        } else if (k == "cancel" || k == "suspend" || k == "resume") {
            ev("call", p, 99, k.c_str());
            auto* pl = g_pipes[(size_t)p]->pl;
            CStatus s = k == "cancel" ? pl->cancel() : k == "suspend" ? pl->suspend() : pl->resume();
            ev("ret", p, 99, k.c_str(), s.getCode());
        } else ev("badop", p, e, k.c_str());
    }
}

// ---------------------------------------------------------------- building
static UThreadPoolConfig mkcfg(const J& c) {
    UThreadPoolConfig u;
    u.default_thread_size_ = (int)c.i("d", 2);
    u.secondary_thread_size_ = (int)c.i("s", 0);
    u.max_thread_size_ = (int)c.i("max", std::max(8L, c.i("d", 2) + c.i("s", 0)));
    u.max_task_steal_range_ = (int)c.i("range", 7);
    u.max_local_batch_size_ = u.max_pool_batch_size_ = u.max_steal_batch_size_ = (int)c.i("bs", 2);
    u.pipeline_wait_busy_epoch_ = (int)c.i("wepoch", 0);
    u.primary_thread_busy_epoch_ = (int)c.i("epoch", 3);
    u.primary_thread_empty_interval_ = (CMSec)c.i("empty", 1000);
    u.secondary_thread_ttl_ = (CSec)c.i("ttl", 10);
    u.monitor_enable_ = c.i("mon", 0);
    u.monitor_span_ = (CSec)c.i("span", 5);
    u.batch_task_enable_ = c.i("batch", 0);
    u.queue_emtpy_interval_ = (CMSec)c.i("qint", 1000);
    u.deliver_running_primary_thread_enable_ = c.i("deliver", 0);
    return u;
}

static GElementPtr mkchild(Pipe& P_, EC* c, const GElementPtrSet& deps, const GElementPtrArr& kids) {
    auto* pl = P_.pl;
    std::string nm = c->j->str("name", ("e" + std::to_string(c->id)).c_str());
    CSize loop = (CSize)c->j->i("loop", 1);
    const std::string& k = c->k;
    auto set = [&](auto* x) -> GElementPtr { x->c = c; return x; };
    if (k == "node") return set(pl->createGNode<Node>(GNodeInfo(deps, nm, loop)));
    if (k == "cluster") return set(pl->createGGroup<Clu>(kids, deps, nm, loop));
    if (k == "region") {
        auto* r = pl->createGGroup<Reg>(kids, deps, nm, loop);
        if (c->j->has("eng")) r->setGEngineType((GEngineType)c->j->i("eng"));
        return set(r);
    }
    if (k == "cond") return set(pl->createGGroup<Cond>(kids, deps, nm, loop));
    if (k == "mcs") return set(pl->createGGroup<MCS>(kids, deps, nm, loop));
    if (k == "mcp") return set(pl->createGGroup<MCP>(kids, deps, nm, loop));
    if (k == "mutable") return set(pl->createGGroup<Mut>(kids, deps, nm, loop));
    if (k == "some") return set(pl->createGGroup<Some>(kids, deps, nm, loop));
    return nullptr;
}
static CStatus reg_adapter(Pipe& P_, EC* c, const GElementPtrSet& deps) {
    auto* pl = P_.pl;
    std::string nm = "e" + std::to_string(c->id);
    CSize loop = (CSize)c->j->i("loop", 1);
    CStatus s;
    auto go = [&](auto* tag) {
        using T = std::remove_pointer_t<decltype(tag)>;
        s = pl->registerGElement<T>(&c->el, deps, nm, loop);
        if (c->el) static_cast<T*>(c->el)->c = c;
    };
    if (c->k == "fence") {
        go((Fence*)nullptr);
        for (auto& x : c->j->arr("waits")) static_cast<Fence*>(c->el)->waitGElement(P_.els[(int)x.num()]->el);
    } else if (c->k == "coord") {
        if (c->j->i("size", 1) > 0) go((Coord1*)nullptr); else go((CoordM1*)nullptr);
    } else if (c->k == "func") {
        go((Func*)nullptr);
        auto* f = static_cast<Func*>(c->el);
        f->setFunction(CFunctionType::INIT, [f, c] { return node_init(*f, c); });
        f->setFunction(CFunctionType::RUN, [f, c] { return body(*f, c); });
        f->setFunction(CFunctionType::DESTROY, [f, c] { return node_destroy(*f, c); });
    }
    return s;
}

static void build_pipe(Pipe& P_) {
    const J& j = *P_.j;
    int p = P_.p;
    g_cur = p;
    bool stored = g_sc->i("stored", 0);
    bool late = j.i("late", 0);           // levels are set after registration
    P_.pl = GPipelineFactory::create();
    for (auto& e : j.arr("els")) {
        auto c = std::make_unique<EC>();
        c->p = p; c->id = (int)e.i("id"); c->k = e.str("k"); c->j = &e; c->par = (int)e.i("par", 0);
        P_.els[c->id] = std::move(c);
    }
    for (auto& x : P_.els) if (x.second->par > 0) P_.els[x.second->par]->ch.push_back(x.first);
    if (P_.loaded) return;                 // its contents will be loaded
    if (j.i("shared", -1) >= 0) P_.pl->setSharedThreadPool(g_pools[(size_t)j.i("shared")].get());
    else if (j.has("cfg")) P_.pl->setUniqueThreadPoolConfig(mkcfg(j.at("cfg")));
    if (j.has("eng")) P_.pl->setGEngineType((GEngineType)j.i("eng"));
    auto props = [&](EC* c) {
        const J& e = *c->j;
        if (e.has("lvl") && !late) c->el->setLevel((CLevel)e.i("lvl"));
        if (e.has("vis")) c->el->setVisible(e.i("vis"));
        if (e.has("bind")) c->el->setBindingIndex((CIndex)e.i("bind"));
        if (e.i("to", 0) > 0) c->el->setTimeout((CMSec)e.i("to"), (GElementTimeoutStrategy)e.i("tos", 0));
        if (e.i("macro", 0)) c->el->setMacro(true);
        for (int i = 1; i <= (int)e.i("asp", 0); i++)
            if (stored) (i == 1 ? c->el->addGAspect<SAspect<1>>() : i == 2 ? c->el->addGAspect<SAspect<2>>() : c->el->addGAspect<SAspect<3>>());
            else c->el->addGAspect<LogAspect, int, int, int>(p, c->id, i);
    };
    // children first; inside one parent in the given order (edges point to elements already made)
    std::function<void(EC*)> make = [&](EC* c) {
        GElementPtrArr kids;
        for (int k : c->ch) { make(P_.els[k].get()); kids.push_back(P_.els[k]->el); }
        GElementPtrSet deps;
        for (auto& d : c->j->arr("dep")) if (P_.els[(int)d.num()]->el) deps.insert(P_.els[(int)d.num()]->el);
        bool adapter = c->k == "fence" || c->k == "coord" || c->k == "func";
        if (adapter) {
            CStatus s = reg_adapter(P_, c, deps);
            if (c->el) props(c);
            if (s.isErr()) ev("regerr", p, c->id, s.getInfo().c_str(), s.getCode());
            return;
        }
        if (c->par > 0) {
            // dependencies inside a group can only be given between created elements of the same group
            c->el = mkchild(P_, c, {}, kids);
        } else {
            if (c->k == "node" && (late || !c->j->has("lvl"))) {
                std::string nm = "e" + std::to_string(c->id);
                CStatus s = P_.pl->registerGElement<Node>(&c->el, deps, nm, (CSize)c->j->i("loop", 1));
                static_cast<Node*>(c->el)->c = c;
                if (s.isErr()) ev("regerr", p, c->id, s.getInfo().c_str(), s.getCode());
            } else {
                c->el = mkchild(P_, c, {}, kids);
                if (c->j->has("lvl") && !late) c->el->setLevel((CLevel)c->j->i("lvl"));
                std::string nm = "e" + std::to_string(c->id);
                CSize loop = (CSize)c->j->i("loop", 1);
                CStatus s = c->k == "node" ? P_.pl->registerGNode(&c->el, deps, nm, loop)
                                           : P_.pl->registerGGroup(&c->el, deps, nm, loop);
                if (s.isErr()) ev("regerr", p, c->id, s.getInfo().c_str(), s.getCode());
            }
        }
        props(c);
    };
    for (auto& e : j.arr("els")) if (e.i("par", 0) == 0) make(P_.els[(int)e.i("id")].get());
    // edges inside groups, and edges to elements made later (cycles), go in afterwards
    for (auto& x : P_.els) {
        EC* c = x.second.get();
        GElementPtrSet deps;
        for (auto& d : c->j->arr("dep")) deps.insert(P_.els[(int)d.num()]->el);
        if (!deps.empty()) {
            CStatus s = c->el->addDependGElements(deps);
            if (s.isErr()) ev("regerr", p, c->id, s.getInfo().c_str(), s.getCode());
        }
    }
    if (late) for (auto& x : P_.els) if (x.second->j->has("lvl")) x.second->el->setLevel((CLevel)x.second->j->i("lvl"));
    for (auto& d : j.arr("daemons")) {
        long id = d.i("id");
        CMSec ms = (CMSec)d.i("ms");
        if (!stored) P_.pl->addGDaemon<LogDaemon, int, const J*>(ms, (int)p, &d);
        else if (id == 1) P_.pl->addGDaemon<SDaemon<1>>(ms);
        else if (id == 2) P_.pl->addGDaemon<SDaemon<2>>(ms);
        else P_.pl->addGDaemon<SDaemon<3>>(ms);
    }
    for (auto& e : j.arr("events")) {
        EvParam q; q.p = p; q.j = &e;
        std::string k = std::to_string(e.i("id"));
        if (!stored) P_.pl->addGEvent<LogEvent, EvParam>(k, &q);
        else if (k == "1") P_.pl->addGEvent<SEvent<1>>(k);
        else P_.pl->addGEvent<SEvent<2>>(k);
    }
    for (auto& e : j.arr("stages")) {
        StParam q; q.p = p; q.id = (int)e.i("id");
        std::string k = std::to_string(q.id);
        CInt n = (CInt)e.i("n");
        try {
            if (!stored) P_.pl->addGStage<LogStage, StParam>(k, n, &q);
            else if (k == "1") P_.pl->addGStage<SStage<1>>(k, n);
            else if (k == "2") P_.pl->addGStage<SStage<2>>(k, n);
            else P_.pl->addGStage<SStage<99>>(k, n);
        } catch (const CException&) { ev("stagerr", p, q.id); }
    }
}

// ---------------------------------------------------------------- saving and loading
static EC* ec_of(int p, const std::string& name) {
    int id = name.size() > 1 && name[0] == 'e' ? atoi(name.c_str() + 1) : -1;
    auto& m = g_pipes[(size_t)p]->els;
    return m.count(id) ? m[id].get() : nullptr;
}
static const J* find_j(int p, const char* list, int id) {
    for (auto& x : g_pipes[(size_t)p]->j->arr(list)) if (x.i("id") == id) return &x;
    return nullptr;
}
static std::map<long, int> g_file;           // files in memory
static std::string file(long n) {
    if (!g_file.count(n)) g_file[n] = memfd_create("stored", 0);
    return "/proc/self/fd/" + std::to_string(g_file[n]);
}
static void meta_types() {
    CGRAPH_REGISTER_META_TYPE(Node);
    CGRAPH_REGISTER_META_TYPE(Clu);
    CGRAPH_REGISTER_META_TYPE(Reg);
    CGRAPH_REGISTER_META_TYPE(Cond);
    CGRAPH_REGISTER_META_TYPE(MCS);
    CGRAPH_REGISTER_META_TYPE(MCP);
    CGRAPH_REGISTER_META_TYPE(Mut);
    CGRAPH_REGISTER_META_TYPE(Some);
    CGRAPH_REGISTER_META_TYPE(SAspect<1>);
    CGRAPH_REGISTER_META_TYPE(SAspect<2>);
    CGRAPH_REGISTER_META_TYPE(SAspect<3>);
    CGRAPH_REGISTER_META_TYPE(SDaemon<1>);
    CGRAPH_REGISTER_META_TYPE(SDaemon<2>);
    CGRAPH_REGISTER_META_TYPE(SDaemon<3>);
    CGRAPH_REGISTER_META_TYPE(SEvent<1>);
    CGRAPH_REGISTER_META_TYPE(SEvent<2>);
    CGRAPH_REGISTER_META_TYPE(SStage<1>);
    CGRAPH_REGISTER_META_TYPE(SStage<2>);
    CGRAPH_REGISTER_META_TYPE(SStage<99>);
    CGRAPH_REGISTER_META_TYPE(P<1>);
    CGRAPH_REGISTER_META_TYPE(P<2>);
}
static CStatus load_pipe(Pipe& P_, const std::string& path) {
    std::vector<HB*> fresh;
    g_cur = P_.p;
    g_fresh = &fresh;
    CStatus s = P_.pl->load(path);
    g_fresh = nullptr;
    if (s.isErr()) return s;
    for (auto* h : fresh) {
        auto* el = dynamic_cast<GElementPtr>(h);
        EC* c = el ? ec_of(P_.p, el->getName()) : nullptr;
        if (!c || c->el) { ev("badload", P_.p, c ? c->id : -1); continue; }
        c->el = el;
        h->c = c;
    }
    return s;
}

// ---------------------------------------------------------------- thread programs
static std::map<int, std::thread> g_thr;
static std::unique_ptr<GPipelineManager> g_mgr;
static thread_local int t_got = -1;       // the pipeline this thread has fetched

static int idof(Pipe& P_, GElementPtr e) {
    for (auto& x : P_.els) if (x.second->el == e) return x.first;
    return -1;
}
static std::string drawing(Pipe& P_, const std::string& text) {
    std::map<std::string, int> by;
    for (auto& x : P_.els) { std::ostringstream os; os << 'p' << x.second->el; by[os.str()] = x.first; }
    std::string nodes, arrows, line;
    auto id = [&](const std::string& w) { return std::to_string(by.count(w) ? by[w] : -1); };
    std::istringstream is(text);
    while (std::getline(is, line)) {
        auto cut = [](const std::string& w) { return w.substr(0, w.find_first_of(" [;")); };
        if (line.compare(0, 3, "p0x")) continue;
        auto a = line.find(" -> ");
        if (a != std::string::npos) arrows += id(cut(line)) + ">" + id(cut(line.substr(a + 4))) + " ";
        else if (line.find("[label=\"") != std::string::npos) {
            std::string w = cut(line), l = line.substr(line.find("[label=\"") + 8);
            l = l.substr(0, l.find('"'));
            bool ok = by.count(w) && l == P_.els[by[w]]->el->getName();
            nodes += (ok ? id(w) : "-1") + " ";
        }
    }
    return nodes + "|" + arrows;
}

static void program(int ti) {
    for (auto& o : g_sc->arr("threads")[(size_t)ti].a) {
        std::string k = o.str("o");
        int p = (int)o.i("p", 0);
        if (o.i("own", 0) && (p = t_got) < 0) continue;
        long n = o.i("n", 0);
        Pipe* P_ = (size_t)p < g_pipes.size() ? g_pipes[(size_t)p].get() : nullptr;
        if (k == "work") { vs::work((int)n); continue; }
        if (k == "sleep") { usleep((useconds_t)n * 1000); continue; }
        if (k == "waitmark") { wait_mark((int)n, (int)o.i("cnt", 1)); continue; }
        if (k == "mark") { set_mark((int)n); continue; }
        if (k == "spawn") { int i = (int)n; g_thr[i] = std::thread([i] { program(i); }); continue; }
        if (k == "join") { g_thr[(int)n].join(); continue; }
        if (k == "build") { build_pipe(*P_); continue; }
        if (k == "do") { PipeCtx c; c.pl = P_->pl; exec_ops(c, p, 0, o.arr("ops")); continue; }
        if (k == "await" && !P_->futs[(size_t)n].valid()) continue;
        ev("call", p, ti, k.c_str(), n);
        int r = 0;
        int aux = 0;
        std::string msg;
        try {
            CStatus s;
            if (k == "init") s = P_->pl->init();
            else if (k == "run") s = P_->pl->run();
            else if (k == "destroy") s = P_->pl->destroy();
            else if (k == "process") s = P_->pl->process((CSize)n);
            else if (k == "cancel") s = P_->pl->cancel();
            else if (k == "suspend") s = P_->pl->suspend();
            else if (k == "resume") s = P_->pl->resume();
            else if (k == "arun") { P_->futs.emplace_back(); P_->futs.back() = P_->pl->asyncRun(); }
            else if (k == "aproc") { P_->futs.emplace_back(); P_->futs.back() = P_->pl->asyncProcess((CSize)n); }
            else if (k == "await") { s = P_->futs[(size_t)n].get(); }
            else if (k == "serial") s = P_->pl->makeSerial();
            else if (k == "perf") { std::ostringstream os; s = P_->pl->perf(os); }
            else if (k == "dump") { std::ostringstream os; s = P_->pl->dump(os); }
            else if (k == "dumpx") {        // the drawing: element labels and arrows
                std::ostringstream os;
                s = P_->pl->dump(os);
                msg = drawing(*P_, os.str());
            } else if (k == "rel") {
                auto x = P_->els[(int)o.i("e")]->el->getRelation();
                auto list = [&](const std::vector<GElementPtr>& v) { for (auto* y : v) msg += std::to_string(idof(*P_, y)) + " "; msg += "|"; };
                list(x.predecessors_); list(x.successors_); list(x.children_);
                aux = x.belong_ ? idof(*P_, x.belong_) : 0;
            } else if (k == "separate") aux = P_->pl->checkSeparate(P_->els[(int)o.i("e")]->el, P_->els[(int)n]->el);
            else if (k == "trim") aux = (int)P_->pl->trim();
            else if (k == "maxpara") aux = (int)P_->pl->getMaxPara();
            else if (k == "state") aux = (int)P_->pl->getCurState();
            else if (k == "remove") { s = GPipelineFactory::remove(P_->pl); P_->pl = nullptr; }
            else if (k == "clear") { s = GPipelineFactory::clear(); }
            else if (k == "save") s = P_->pl->save(file(n));
            else if (k == "load") s = load_pipe(*P_, file(n));
            else if (k == "savebad") s = P_->pl->save("/proc/self/nosuch/file");
            else if (k == "loadbad") s = P_->pl->load("/proc/self/nosuch/file");
            else if (k == "cut") {           // keep n thousandths of file e
                file(o.i("e"));
                int fd = g_file[o.i("e")];
                long len = lseek(fd, 0, SEEK_END);
                if (ftruncate(fd, len * n / 1000)) {}
                aux = (int)len;
            }
            else if (k == "mgr_new") g_mgr.reset(new GPipelineManager());
            else if (k == "mgr_add") s = g_mgr->add(P_->pl);
            else if (k == "mgr_init") s = g_mgr->init();
            else if (k == "mgr_run") s = g_mgr->run();
            else if (k == "mgr_fetch") {
                auto* x = g_mgr->fetch();
                t_got = -1;
                for (auto& q : g_pipes) if (x && q->pl == x) t_got = q->p;
                aux = x ? t_got + 1 : 0;
            } else if (k == "mgr_frun") s = P_->pl->run();
            else if (k == "mgr_release") { s = g_mgr->release(P_->pl); if (p == t_got) t_got = -1; }
            else if (k == "mgr_destroy") s = g_mgr->destroy();
            else if (k == "mgr_remove") s = g_mgr->remove(P_->pl);
            else if (k == "mgr_clear") s = g_mgr->clear();
            else if (k == "mgr_size") aux = (int)g_mgr->getSize();
            else if (k == "mgr_find") aux = g_mgr->find(P_->pl);
            else if (k == "setloop") P_->els[(int)o.i("e")]->el->setLoop((CSize)n);
            else if (k == "adddep") s = P_->els[(int)o.i("e")]->el->addDependGElements({P_->els[(int)n]->el});
            else if (k == "rmdep") s = P_->els[(int)o.i("e")]->el->removeDepend(P_->els[(int)n]->el);
            else if (k == "pooldestroy") s = g_pools[(size_t)n]->destroy();
            else if (k == "poolinit") s = g_pools[(size_t)n]->init();
            else msg = "badop";
            r = s.getCode();
        } catch (const CException&) { r = THROWN; }
        if (k == "rel" || k == "separate" || k == "adddep" || k == "rmdep") msg = std::to_string(o.i("e")) + "|" + std::to_string(n) + "|" + msg;
        ev("ret", p, ti, (msg.empty() ? k : k + ":" + msg).c_str(), r, aux);
    }
}

static void run(const J& sc) {
    g_sc = &sc;
    if (sc.i("stored", 0)) meta_types();
    for (auto& c : sc.arr("pools")) {
        g_pools.emplace_back(new UThreadPool(true, mkcfg(c)));
    }
    int p = 0;
    for (auto& j : sc.arr("pipes")) {
        auto x = std::make_unique<Pipe>();
        x->p = p++;
        x->loaded = j.has("like");
        x->j = x->loaded ? &sc.arr("pipes")[(size_t)j.i("like")] : &j;
        g_pipes.push_back(std::move(x));
        build_pipe(*g_pipes.back());
    }
    program(0);
    g_mgr.reset();
    if (sc.i("clear", 1)) {
        GPipelineFactory::clear();
        g_pools.clear();
    }
}

int main(int argc, char** argv) { return driver_main(argc, argv, run); }
