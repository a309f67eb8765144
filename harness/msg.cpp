// Interprets a message scenario (send/recv topics and pub/sub connections) against the real message manager.
#include "CGraph.h"
#include "driver.h"
#include "vsched.h"
#include <atomic>
#include <map>
#include <memory>
#include <thread>

using namespace CGraph;

struct MsgA : public GMessageParam { int v = 0; };
struct MsgB : public GMessageParam { int v = 0; int w = 0; };

static const J* g_sc;
static std::map<int, std::unique_ptr<std::thread>> g_user;
static int g_conn[256];
static std::atomic<int> g_live{0};

static void ops(int u, const std::vector<J>& l);
static std::string topic(int t) { return "t" + std::to_string(t); }
static GMessagePushStrategy strat(int s) { return s == 0 ? GMessagePushStrategy::WAIT : s == 1 ? GMessagePushStrategy::REPLACE : GMessagePushStrategy::DROP; }
static int code(const CStatus& s) { return s.isOK() ? 0 : -1; }

static int recv(int u, int t, long to) {
    ev("call", u, t, "recv", to < 0 ? CGRAPH_MAX_BLOCK_TTL : to);
    std::shared_ptr<MsgA> m;
    CStatus s;
    if (to < 0) { s = CGRAPH_RECV_MPARAM(MsgA, topic(t), m) }
    else { s = CGRAPH_RECV_MPARAM_WITH_TIMEOUT(MsgA, topic(t), m, to) }
    ev("ret", u, t, "recv", code(s), s.isOK() ? (m ? m->v : -7) : 0);
    return code(s);
}
static int sub(int u, int c, long to) {
    ev("call", u, c, "sub", to < 0 ? CGRAPH_MAX_BLOCK_TTL : to);
    std::shared_ptr<MsgA> m;
    CStatus s;
    if (to < 0) { s = CGRAPH_SUB_MPARAM(MsgA, g_conn[c], m) }
    else { s = CGRAPH_SUB_MPARAM_WITH_TIMEOUT(MsgA, g_conn[c], m, to) }
    ev("ret", u, c, "sub", code(s), s.isOK() ? (m ? m->v : -7) : 0);
    return code(s);
}

static void op(int u, const J& o) {
    const std::string k = o.str("o");
    int t = (int)o.i("t"), c = (int)o.i("c"), n = (int)o.i("n"), a = (int)o.i("a");
    if (k == "work") vs::work(n ? n : 1);
    else if (k == "sleep") std::this_thread::sleep_for(std::chrono::milliseconds(n));
    else if (k == "create") {
        ev("call", u, t, "create", n, a);
        CStatus s;
        if (a == 0) { s = CGRAPH_CREATE_MESSAGE_TOPIC(MsgA, topic(t), n) } else { s = CGRAPH_CREATE_MESSAGE_TOPIC(MsgB, topic(t), n) }
        ev("ret", u, t, "create", code(s));
    }
    else if (k == "remove") { ev("call", u, t, "remove"); CStatus s = CGRAPH_REMOVE_MESSAGE_TOPIC(topic(t)) ev("ret", u, t, "remove", code(s)); }
    else if (k == "send") {
        auto m = std::make_shared<MsgA>();
        m->v = n;
        ev("call", u, t, "send", n, a);
        CStatus s = CGRAPH_SEND_MPARAM(MsgA, topic(t), m, strat(a))
        ev("ret", u, t, "send", code(s));
    }
    else if (k == "recv") recv(u, t, o.i("to", -1));
    else if (k == "bind") {
        ev("call", u, t, "bind", n, c);
        CIndex id = CGRAPH_BIND_MESSAGE_TOPIC(MsgA, topic(t), n)
        g_conn[c] = (int)id;
        ev("ret", u, t, "bind", 0, (int)id);
    }
    else if (k == "detach") { ev("call", u, t, "detach", 0, c); CStatus s = CGRAPH_DETACH_CONN_ID(topic(t), g_conn[c]) ev("ret", u, t, "detach", code(s)); }
    else if (k == "pub") {
        auto m = std::make_shared<MsgA>();
        m->v = n;
        ev("call", u, t, "pub", n, a);
        CStatus s = CGRAPH_PUB_MPARAM(MsgA, topic(t), m, strat(a))
        ev("ret", u, t, "pub", code(s));
    }
    else if (k == "sub") sub(u, c, o.i("to", -1));
    else if (k == "drop") { ev("call", u, t, "drop"); CStatus s = CGRAPH_DROP_MESSAGE_TOPIC(topic(t)) ev("ret", u, t, "drop", code(s)); }
    else if (k == "clear") { ev("call", u, 0, "clear"); CStatus s = CGRAPH_CLEAR_MESSAGES() ev("ret", u, 0, "clear", code(s)); }
    else if (k == "drain") {       // take everything that comes until all other users are done
        for (;;) {
            bool last = g_live == 0;
            bool got = false;
            for (auto& x : o.arr("ts")) while (recv(u, (int)x.num(), o.i("to", 5)) == 0) got = true;
            for (auto& x : o.arr("cs")) while (sub(u, (int)x.num(), o.i("to", 5)) == 0) got = true;
            if (last && !got) break;
        }
    }
    else if (k == "spawn") {
        const J* l = &g_sc->at("users").a[(size_t)n];
        g_live++;
        g_user[n] = std::make_unique<std::thread>([l, n] { ops(n, l->a); g_live--; });
    }
    else if (k == "join") g_user[n]->join();
    else { fprintf(stderr, "unknown op %s\n", k.c_str()); abort(); }
}
static void ops(int u, const std::vector<J>& l) { for (auto& o : l) op(u, o); }

static void run(const J& sc) {
    g_sc = &sc;
    (void)GMessageManagerSingleton::get();
    ops(0, sc.at("users").a[0].a);
}
int main(int argc, char** argv) { return driver_main(argc, argv, run); }
