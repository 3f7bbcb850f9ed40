#include "engine.hpp"
#include <algorithm>
#include <csignal>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

namespace mc {
thread_local char const* soft_err = nullptr;
Stats stats;
thread_local uint64_t local_queries = 0;
Options opt;
thread_local Current* current = nullptr;

namespace {
std::mutex reg_mu;
std::vector<Current*> all_current;
std::atomic<bool> reported{false};
thread_local char altstack[1 << 16];
bool replaying = false;
} // namespace

std::vector<Exploration>& explorations() {
    static std::vector<Exploration> v;
    return v;
}

uint64_t now_ms() {
    return static_cast<uint64_t>(
        std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count()) + 1;
}

Current* register_current() {
    if (!current) {
        current = new Current;
        std::lock_guard<std::mutex> g(reg_mu);
        all_current.push_back(current);
    }
    stack_t ss{};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    return current;
}

static std::string path() { return (opt.out.empty() ? std::string("/tmp") : opt.out) + "/replay-candidate.txt"; }

void candidate(std::string const& exploration, std::string const& history, std::string const& msg) {
    if (reported.exchange(true)) {
        while (true) pause();
    }
    std::ofstream f(path());
    f << history << "! " << msg << "\n";
    f.close();
    printf("CANDIDATE %s\nMESSAGE [%s] %s\n", path().c_str(), exploration.c_str(), msg.c_str());
    fflush(stdout);
    _exit(1);
}

static void emergency(Current const* c, char const* msg) {
    if (reported.exchange(true)) {
        while (true) pause();
    }
    static char p[4096];
    snprintf(p, sizeof p, "%s", path().c_str());
    int fd = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (c && c->dump && c->explorer) c->dump(*c, fd);
    if (write(fd, "! ", 2) + write(fd, msg, strlen(msg)) + write(fd, "\n", 1)) {}
    close(fd);
    static char line[4400];
    int n = snprintf(line, sizeof line, "CANDIDATE %s\nMESSAGE %s\n", p, msg);
    if (write(1, line, n)) {}
    _exit(1);
}

extern "C" void mc_signal(int sig) {
    char const* m = sig == SIGSEGV ? "crash: SIGSEGV" : sig == SIGABRT ? "crash: abort/terminate" : sig == SIGFPE ? "crash: SIGFPE" : sig == SIGBUS ? "crash: SIGBUS" : "crash: SIGILL";
    if (replaying) {
        if (write(1, m, strlen(m)) + write(1, "\n", 1)) {}
        _exit(1);
    }
    emergency(current, m);
}

void install_handlers() {
    struct sigaction sa{};
    sa.sa_handler = mc_signal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
}

static void watchdog() {
    std::thread([] {
        while (true) {
            usleep(500000);
            uint64_t t = now_ms();
            std::vector<Current*> cs;
            {
                std::lock_guard<std::mutex> g(reg_mu);
                cs = all_current;
            }
            for (Current* c : cs) {
                uint64_t s = c->since.load();
                if (s && c->explorer && t > s + 60000) emergency(c, "hang: an operation did not return");
            }
        }
    }).detach();
}

static std::string json_escape(std::string const& s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') r += '\\';
        if (static_cast<unsigned char>(c) < 32) c = ' ';
        r += c;
    }
    return r;
}

int engine_main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--thorough") opt.thorough = true;
        else if (a == "--threads") opt.threads = atoi(val().c_str());
        else if (a == "--budget") opt.budget_s = atof(val().c_str());
        else if (a == "--out") opt.out = val();
        else if (a == "--replay") opt.replay = val();
        else if (a == "--only") opt.only = val();
        else if (a == "--list") {
            for (auto& e : explorations()) printf("%s%s\n", e.name.c_str(), e.thorough_only ? " (thorough)" : "");
            return 0;
        } else {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    install_handlers();
    register_current();
    if (!opt.replay.empty()) {
        replaying = true;
        std::ifstream f(opt.replay);
        std::string name, line;
        std::getline(f, name);
        std::vector<Op> h;
        while (std::getline(f, line)) {
            if (line.empty() || line[0] == '!') continue;
            int k, s, d, v, a, b;
            if (sscanf(line.c_str(), "%d %d %d %d %d %d", &k, &s, &d, &v, &a, &b) == 6) {
                Op o;
                o.k = k; o.s = s; o.d = d; o.v = v; o.a = a; o.b = b;
                h.push_back(o);
            }
        }
        for (auto& e : explorations()) {
            if (e.name != name) continue;
            printf("replaying [%s], %zu operations\n", name.c_str(), h.size());
            try {
                e.replay(h);
            } catch (Violation const& v) {
                printf("REPRODUCED: %s\n", v.msg.c_str());
                return 1;
            } catch (std::exception const& x) {
                printf("REPRODUCED: unexpected exception: %s\n", x.what());
                return 1;
            }
            printf("no violation\n");
            return 0;
        }
        fprintf(stderr, "no exploration named %s\n", name.c_str());
        return 2;
    }
    watchdog();
    std::sort(explorations().begin(), explorations().end(), [](auto const& a, auto const& b) { return a.name < b.name; });
    for (auto& e : explorations()) {
        if (e.thorough_only && !opt.thorough) continue;
        if (!opt.only.empty() && e.name.find(opt.only) == std::string::npos) continue;
        if (opt.elapsed() > opt.budget_s) {
            stats.capped = true;
            stats.lines.push_back(e.name + ": SKIPPED (time budget)");
            printf("%s\n", stats.lines.back().c_str());
            continue;
        }
        e.run();
    }
    if (!opt.out.empty()) {
        std::ofstream f(opt.out + "/stats.json");
        f << "{\"states\":" << stats.states << ",\"transitions\":" << stats.transitions << ",\"probes\":" << stats.probes
          << ",\"replayed\":" << stats.replayed << ",\"queries\":" << stats.queries.load() << ",\"explorations\":" << stats.explorations
          << ",\"closed\":" << stats.closed << ",\"max_depth\":" << stats.max_depth << ",\"tree_depth\":" << stats.tree_depth.load() << ",\"capped\":" << (stats.capped ? "true" : "false")
          << ",\"samples\":[";
        for (size_t i = 0; i < stats.samples.size(); ++i) f << (i ? "," : "") << "\"" << json_escape(stats.samples[i]) << "\"";
        f << "],\"lines\":[";
        for (size_t i = 0; i < stats.lines.size(); ++i) f << (i ? "," : "") << "\"" << json_escape(stats.lines[i]) << "\"";
        f << "]}\n";
    }
    printf("TOTAL states=%llu transitions=%llu probes=%llu queries=%llu time=%.1fs\n", (unsigned long long)stats.states,
           (unsigned long long)stats.transitions, (unsigned long long)stats.probes, (unsigned long long)stats.queries.load(), opt.elapsed());
    return 0;
}
} // namespace mc

int main(int argc, char** argv) { return mc::engine_main(argc, argv); }
