// compiled WITHOUT -fsanitize=thread
#include "driver.h"
#include "vsched.h"
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <execinfo.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static char* buf;
static size_t len;
static constexpr size_t CAP = 64u << 20;
static int out_fd = 1;
static char head[512];

static void put(const char* f, ...) __attribute__((format(printf, 1, 2)));
static void put(const char* f, ...) {
    if (len + 4096 > CAP) return;
    va_list ap;
    va_start(ap, f);
    len += vsnprintf(buf + len, 4000, f, ap);
    va_end(ap);
}
static void puts_esc(const char* s) {
    for (; *s && len + 16 < CAP; s++) {
        if (*s == '"' || *s == '\\') buf[len++] = '\\';
        if ((unsigned char)*s >= 32) buf[len++] = *s;
    }
}
static long max_events = 20000;
static long n_events = 0;
static void flush_line();

void ev(const char* name, int p, int e, const char* s, long n, int a) {
    vs::NoPre np;
    put("%s{\"ev\":\"%s\",\"p\":%d,\"e\":%d,\"s\":\"", n_events ? "," : "", name, p, e);
    puts_esc(s);
    put("\",\"n\":%ld,\"a\":%d,\"t\":%d,\"ms\":%ld}", n, a, vs::self(), (long)(vs::now_ns() / 1000000));
    if (++n_events > max_events) {
        put(",{\"ev\":\"fault\",\"p\":0,\"e\":0,\"s\":\"overflow\",\"n\":0,\"t\":0,\"ms\":0}");
        flush_line();
        _exit(3);
    }
}
void ev_raw(const std::string& j) {
    vs::NoPre np;
    if (len + j.size() + 64 < CAP) {
        put("%s", n_events ? "," : "");
        memcpy(buf + len, j.data(), j.size());
        len += j.size();
    }
    n_events++;
}
static void flush_line() {
    put("]}\n");
    size_t o = 0;
    // one O_APPEND write per line: lines of concurrent children do not mix
    while (o < len) {
        ssize_t r = write(out_fd, buf + o, len - o);
        if (r <= 0) break;
        o += r;
    }
}
static volatile bool ended = false;
static void fault_event(const char* kind, const char* detail) {
    put("%s{\"ev\":\"fault\",\"p\":0,\"e\":0,\"s\":\"%s\",\"n\":0,\"t\":%d,\"ms\":%ld,\"d\":\"", n_events ? "," : "",
        kind, vs::self(), (long)(vs::now_ns() / 1000000));
    puts_esc(detail);
    put("\"}");
    if (getenv("VS_BACKTRACE")) {
        void* a[40];
        int n = backtrace(a, 40);
        backtrace_symbols_fd(a, n, 2);
    }
    flush_line();
}
static void on_fault(const char* kind, const char* detail) {
    fault_event(kind, detail);
    _exit(3);
}
static void on_signal(int sg) {
    if (ended) _exit(5);
    ended = true;
    char d[64];
    snprintf(d, sizeof d, "signal %d", sg);
    fault_event(sg == SIGALRM ? "realtime" : "crash", d);
    _exit(4);
}

int driver_main(int argc, char** argv, void (*run)(const J&)) {
    // usage: PROG scenarios.ndjson out.ndjson jobs
    if (argc < 4) { fprintf(stderr, "usage: %s scenarios out jobs\n", argv[0]); return 2; }
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1 && !getenv("VS_REEXEC")) {
            setenv("VS_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    out_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (out_fd < 0) { perror(argv[2]); return 2; }
    int jobs = atoi(argv[3]);
    std::ifstream in(argv[1]);
    std::string line;
    int live = 0, bad = 0;
    auto reap = [&] {
        int st;
        if (wait(&st) > 0) { live--; if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 4))) bad++; }
    };
    int devnull = open("/dev/null", O_RDWR);
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        J sc = J::parse(line);
        std::vector<J> seeds = sc.arr("seeds");
        for (auto& sd : seeds) {
            while (live >= jobs) reap();
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); return 2; }
            if (pid == 0) {
                if (!getenv("VS_STDOUT")) dup2(devnull, 1);
                struct rlimit rl = {0, 0};
                setrlimit(RLIMIT_CORE, &rl);
                buf = (char*)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                stack_t ss{};
                ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16;
                sigaltstack(&ss, nullptr);
                for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) {
                    struct sigaction sa{};
                    sa.sa_handler = on_signal;
                    sa.sa_flags = SA_ONSTACK;
                    sigaction(s, &sa, nullptr);
                }
                alarm((unsigned)sc.i("alarm", 60));
                put("{\"id\":\"%s\",\"seed\":%ld,\"ev\":[", sc.str("id").c_str(), sd.num());
                vs::Opt o;
                o.seed = (uint64_t)sd.num();
                o.mode = (int)sc.i("vmode", -1);
                o.early_timeouts = sc.i("early", 0);
                o.spurious = sc.i("spurious", 1);
                o.max_time_ns = (uint64_t)sc.i("max_s", 3600) * 1000000000ull;
                o.max_steps = (uint64_t)sc.i("max_steps", 20000000);
                max_events = sc.i("max_events", 20000);
                vs::on_fault(on_fault);
                vs::start(o);
                run(sc);
                vs::NoPre np;
                ended = true;
                put("%s{\"ev\":\"end\",\"p\":0,\"e\":0,\"s\":\"\",\"n\":%ld,\"t\":%ld,\"ms\":%ld}", n_events ? "," : "",
                    (long)vs::steps(), (long)vs::switches(), (long)(vs::now_ns() / 1000000));
                flush_line();
                _exit(0);
            }
            live++;
        }
    }
    while (live > 0) reap();
    if (bad) { fprintf(stderr, "%d children ended abnormally\n", bad); return 2; }
    return 0;
}
