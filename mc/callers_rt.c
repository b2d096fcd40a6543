/* run-time part of the caller programs of C27; never part of link-time optimisation, so everything in it is opaque to the callers */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include "callers_rt.h"

static FILE* out;
static void* so;
void* sym(const char* n) {
    char w[96]; void* p;
    snprintf(w, sizeof w, "wrap__%s", n);
    p = dlsym(so, w);
    return p ? p : dlsym(so, n);
}
void emit(const char* shape, int idx, const void* v, int n, char kind, int eb) {
    const unsigned char* p = (const unsigned char*)v;
    unsigned char b[8];
    fprintf(out, "%s.%d ", shape, idx);
    for (int i = 0; i < n; i += eb) {
        memcpy(b, p + i, eb);
        if (kind == 'f') {                                   /* any NaN is as good as another */
            float f; double d;
            if (eb == 4) { memcpy(&f, b, 4); if (f != f) { uint32_t q = 0x7fc00000; memcpy(b, &q, 4); } }
            else if (eb == 8) { memcpy(&d, b, 8); if (d != d) { uint64_t q = 0x7ff8000000000000; memcpy(b, &q, 8); } }
        }
        for (int j = 0; j < eb; j++) fprintf(out, "%02x", b[j]);
    }
    fputc('\n', out);
}
/* run-time data: element i of pattern seed */
static unsigned char pool[64][1024];
static unsigned turn;
void* src(char kind, int eb, int seed) {
    unsigned char* b = pool[turn++ % 64] + 256;
    static const double F[] = {1.5, -2.25, 0.0, 3e5, -7.75, 0.0078125, -1e-3, 65536.5, 2.0, -0.5};
    for (int i = -256; i < 768; i += eb) {
        int k = (i + 256) / eb;
        if (kind == 'f' && eb == 4) { float f = (float)(F[(k + 3 * seed) % 10] * (1 + k / 10)); memcpy(b + i, &f, 4); }
        else if (kind == 'f') { double d = F[(k + 3 * seed) % 10] * (1 + k / 10); memcpy(b + i, &d, 8); }
        else { uint64_t x = (uint64_t)(k + 1 + 31 * seed) * (seed % 3 == 2 ? 0x9e3779b97f4a7c15ull : 0x0101010101010101ull * 5 + 3); memcpy(b + i, &x, eb); }
    }
    return b;
}
void* launder(void* p) { __asm__ volatile("" : "+r"(p) : : "memory"); return p; }
int opaque(int n) { __asm__ volatile("" : "+r"(n)); return n; }

static void all(void) {
    for (int i = 0; i < nentries; i++) {
        fflush(out);
        pid_t c = fork();
        if (!c) {
            alarm(20);
            fprintf(out, "> %s\n", entries[i].name);
            if (entries[i].quiet) { int d = open("/dev/null", O_WRONLY); dup2(d, 2); }
            entries[i].f();
            fprintf(out, "< %s\n", entries[i].name);
            fflush(out); _exit(0);
        }
        int st = 0;
        waitpid(c, &st, 0);
        if (st) { fprintf(out, "! %s %s %d\n", entries[i].name, WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); }
    }
    fflush(out);
}
static const char* phase(void) { const char* p = getenv("CALLER_PHASE"); return p ? p : "main"; }
static void start(void) {
    out = stdout;
    if (getenv("CALLER_SO")) { so = dlopen(getenv("CALLER_SO"), RTLD_NOW); if (!so) { fprintf(stderr, "%s\n", dlerror()); _exit(9); } }
    init_all();
}
/* every valid call made once in this process, showing nothing */
static void silent(void) {
    FILE* o = out;
    out = fopen("/dev/null", "w");
    for (int i = 0; i < nentries; i++) if (!entries[i].quiet) entries[i].f();
    fclose(out); out = o;
}
/* main: in main; early: before main; resumed: in main, after the same calls before main; late: during exit, after the same calls in main */
__attribute__((constructor(101))) static void early(void) {
    if (!strcmp(phase(), "early")) { start(); all(); _exit(0); }
    if (!strcmp(phase(), "resumed")) { start(); silent(); }
}
__attribute__((destructor(101))) static void late(void) { if (!strcmp(phase(), "late")) { all(); _exit(0); } }
int main(void) {
    if (!strcmp(phase(), "main")) { start(); all(); }
    if (!strcmp(phase(), "resumed")) all();
    if (!strcmp(phase(), "late")) { start(); silent(); }
    return 0;
}
