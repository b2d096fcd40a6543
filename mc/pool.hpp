// Runs jobs in forked children, each with a shared result record; crashes and hangs are observed, never fatal.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <functional>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <chrono>

struct Outcome { int status = 0; bool signaled() const { return WIFSIGNALED(status); } int sig() const { return WTERMSIG(status); }
    bool timeout() const { return signaled() && sig() == SIGALRM; } bool clean() const { return WIFEXITED(status) && WEXITSTATUS(status) == 0; } };
inline double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
inline void* shared_mem(size_t n) {
    void* p = mmap(0, n ? n : 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return p;
}
inline void quiet_child() {
    int fd = open("/dev/null", O_RDWR); dup2(fd, 1); dup2(fd, 2);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
// fn(i) runs in a child; order(i) gives launch order; returns the outcome of each job.
inline std::vector<Outcome> run_pool(size_t n, int par, unsigned limit_s, const std::function<void(size_t)>& fn) {
    std::vector<Outcome> out(n);
    std::vector<std::pair<pid_t, size_t>> live;
    size_t next = 0;
    fflush(stdout); fflush(stderr);
    while (next < n || !live.empty()) {
        while (next < n && (int)live.size() < par) {
            pid_t p = fork();
            if (p < 0) { if (live.empty()) { perror("fork"); exit(3); } break; }
            if (!p) { quiet_child(); alarm(limit_s); fn(next); _exit(0); }
            live.push_back({p, next++});
        }
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; perror("waitpid"); exit(3); }
        for (size_t k = 0; k < live.size(); k++) if (live[k].first == p) { out[live[k].second].status = st; live.erase(live.begin() + k); break; }
    }
    return out;
}
inline std::string why(const Outcome& o) {
    char t[80];
    if (o.timeout()) return "did not return";
    if (o.signaled()) { snprintf(t, sizeof t, "killed by signal %d (%s)", o.sig(), strsignal(o.sig())); return t; }
    snprintf(t, sizeof t, "terminated with status %d", WEXITSTATUS(o.status)); return t;
}
inline std::string jesc(const std::string& s) {
    std::string r; char t[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(t, sizeof t, "\\u%04x", c); r += t; } else r += c; }
    return r;
}
