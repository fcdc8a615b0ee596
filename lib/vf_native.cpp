// Native interpretation of the vf_* primitives: replays a recorded input tape, or searches for a failing one.
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <malloc.h>
#include <setjmp.h>
#include <vector>
#include <new>
extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
int __real_posix_memalign(void**, size_t, size_t);
}

struct Shared {
    volatile uint64_t iters;
    volatile uint64_t accepted;
    volatile uint32_t tapeLen;
    volatile uint32_t failed;
    char failName[256];
    uint8_t tape[1 << 20]; // records: kind(1) ...
};
static Shared* S;
static int g_mode; // 0 replay, 1 search
static uint64_t g_rng;
static std::vector<uint8_t> g_in;
static size_t g_inPos;
// every block handed to the harness (plain arrays: operator new is counted)
struct Blk {
    const char* p;
    uint64_t size, srcPos;
    bool window, owned;
};
static Blk g_blk[1 << 16];
static int g_nblk;
static int64_t g_heapLive;
static std::vector<uint64_t> g_dict;
static bool g_quiet;

static jmp_buf g_jmp;

static uint64_t rnd() {
    g_rng ^= g_rng << 13;
    g_rng ^= g_rng >> 7;
    g_rng ^= g_rng << 17;
    return g_rng * 0x2545F4914F6CDD1Dull >> 8;
}
static void rec(const void* p, size_t n) {
    if (S->tapeLen + n <= sizeof(S->tape)) {
        memcpy(S->tape + S->tapeLen, p, n);
        S->tapeLen += n;
    }
}
static uint64_t randInt(int bits) {
    uint64_t r = rnd();
    uint64_t v;
    switch (r % 9) {
        case 0: v = rnd() % 4; break;
        case 1: v = rnd() % 20; break;
        case 2: v = rnd() % 300; break;
        case 3: v = (1ull << (rnd() % bits)) + (rnd() % 3) - 1; break;
        case 4: v = 0 - (rnd() % 4); break;
        case 5: v = g_dict.empty() ? rnd() : g_dict[rnd() % g_dict.size()] + (rnd() % 3) - 1; break;
        case 6: v = (~0ull >> (64 - bits)) >> (rnd() % bits); break;
        case 7: v = rnd() % 0x12000; break;
        default: v = rnd() ^ (rnd() << 40); break;
    }
    if (bits < 64) v &= (1ull << bits) - 1;
    return v;
}
static uint64_t ndInt(int bits) {
    uint64_t v = 0;
    if (g_mode == 0) {
        if (g_inPos + 9 <= g_in.size() && g_in[g_inPos] == 'i') {
            memcpy(&v, &g_in[g_inPos + 1], 8);
            g_inPos += 9;
        } else if (g_inPos < g_in.size() && g_in[g_inPos] == 'i') {
            g_inPos = g_in.size();
        }
    } else {
        v = randInt(bits);
    }
    uint8_t b[9] = {'i'};
    memcpy(b + 1, &v, 8);
    rec(b, 9);
    return v;
}
static uint64_t lenInt(uint32_t mx) {
    if (g_mode == 0) return ndInt(32);
    uint64_t v;
    uint64_t r = rnd() % 8;
    if (r < 4) v = rnd() % (mx < 6 ? mx + 1 : 7);
    else v = rnd() % ((uint64_t) mx + 1);
    if (r == 7 && mx) v = mx - rnd() % (mx < 3 ? mx + 1 : 3);
    uint8_t b[9] = {'i'};
    memcpy(b + 1, &v, 8);
    rec(b, 9);
    return v;
}
static const char* utf8s[] = {"a", "z", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x7f", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xef\xbf\xbf",
                              "\xf4\x8f\xbf\xbf", "\xf0\x90\x80\x80", "\xed\xa0\x80", "\xc0\x80", "\x80", "\xff", "\n", "\r\n", "\"", "\\"};
static void fill(uint8_t* p, uint64_t n, uint32_t w) {
    uint64_t mode = rnd() % 9;
    if (w > 1) {
        for (uint64_t i = 0; i + w <= n; i += w) {
            uint64_t v = mode < 5 ? rnd() % 5 : randInt(w * 8);
            memcpy(p + i, &v, w);
        }
        return;
    }
    char few[4];
    for (int i = 0; i < 4; i++) few[i] = (rnd() & 1) && !g_dict.empty() ? (char) g_dict[rnd() % g_dict.size()] : (char) (32 + rnd() % 95);
    for (uint64_t i = 0; i < n;) {
        switch (mode) {
            case 0: p[i++] = (uint8_t) rnd(); break;
            case 1: p[i++] = 32 + rnd() % 95; break;
            case 2: p[i++] = "abAB01 \t\n/.-_"[rnd() % 13]; break;
            case 3: p[i++] = few[rnd() % 4]; break;
            case 4: p[i++] = few[rnd() % 2]; break;
            case 5: {
                const char* s = utf8s[rnd() % (sizeof(utf8s) / sizeof(*utf8s))];
                while (*s && i < n) p[i++] = *s++;
                break;
            }
            case 6: p[i++] = '0' + rnd() % 10; break;
            case 7: p[i++] = g_dict.empty() ? (uint8_t) rnd() : (uint8_t) g_dict[rnd() % g_dict.size()]; break;
            default: p[i++] = "0123456789abcdefxyzABCDEFXYZ-+.e"[rnd() % 32]; break;
        }
    }
}
static void fail(const char* name) {
    strncpy(S->failName, name, 255);
    S->failed = 1;
    if (!g_quiet) {
        printf("VF-FAILED %s\n", name);
        fflush(stdout);
    }
    _exit(7);
}
extern "C" {
uint8_t vf_nd8() { return ndInt(8); }
uint16_t vf_nd16() { return ndInt(16); }
uint32_t vf_nd32() { return ndInt(32); }
uint64_t vf_nd64() { return ndInt(64); }
bool vf_bool() { return ndInt(8) & 1; }
uint32_t vf_len(uint32_t mx) { return lenInt(mx); }
void* vf_buf(uint64_t n, uint32_t w) {
    if (n > (1 << 19)) longjmp(g_jmp, 1);
    uint8_t* p = (uint8_t*) __real_malloc(n);
    if (g_nblk >= (1 << 16)) longjmp(g_jmp, 1);
    g_blk[g_nblk++] = {(const char*) p, n, 0, false, true};
    if (g_mode == 0) {
        memset(p, 0, n);
        if (g_inPos < g_in.size() && g_in[g_inPos] == 'b') {
            uint64_t m;
            memcpy(&m, &g_in[g_inPos + 1], 8);
            memcpy(p, &g_in[g_inPos + 9], m < n ? m : n);
            g_inPos += 9 + m;
        }
    } else {
        fill(p, n, w);
    }
    uint8_t b[9] = {'b'};
    memcpy(b + 1, &n, 8);
    rec(b, 9);
    rec(p, n);
    return p;
}
static void* vf_malloc(size_t n) {
    g_heapLive++;
    return __real_malloc(n);
}
static void vf_free(void* p) {
    if (p) g_heapLive--;
    __real_free(p);
}
void* __wrap_malloc(size_t n) { return vf_malloc(n); }
void __wrap_free(void* p) { vf_free(p); }
void* __wrap_realloc(void* p, size_t n) {
    if (!p) g_heapLive++;
    void* q = __real_malloc(n); // always move, so stale pointers are noticed
    if (p) {
        size_t u = malloc_usable_size(p);
        memcpy(q, p, u < n ? u : n);
        __real_free(p);
    }
    return q;
}
int __wrap_posix_memalign(void** p, size_t a, size_t n) {
    g_heapLive++;
    return __real_posix_memalign(p, a, n);
}
void* vf_object(uint64_t n) { void* p = __real_malloc(n); memset(p, 0xcd, n); return p; }
void* vf_heapbuf(uint64_t n, uint32_t w) {
    if (n > (1 << 19)) longjmp(g_jmp, 1);
    void* p = vf_buf(n, w);
    g_nblk--;
    g_heapLive++;
    return p;
}
void vf_readonly(const void*) {}
void vf_assume(bool c) {
    if (!c) longjmp(g_jmp, 1);
}
void vf_assert_(bool c, const char* name) {
    if (!c) fail(name);
}
void vf_cover_(const char*) {}
void vf_trust(bool) {}
void vf_havoc(void* p, uint64_t n, uint32_t w) { fill((uint8_t*) p, n, w); }
const void* vf_window(const void* src, uint64_t pos, uint64_t len) {
    uint8_t* p = (uint8_t*) __real_malloc(len);
    memcpy(p, (const char*) src + pos, len);
    if (g_nblk >= (1 << 16)) longjmp(g_jmp, 1);
    g_blk[g_nblk++] = {(const char*) p, len, pos, true, true};
    return p;
}
static Blk* findBlk(const void* q) {
    const char* p = (const char*) q;
    for (int i = g_nblk; i-- > 0;)
        if (p >= g_blk[i].p && p <= g_blk[i].p + g_blk[i].size) return &g_blk[i];
    return nullptr;
}
uint64_t vf_window_pos(const void* p) {
    Blk* b = findBlk(p);
    return b ? (const char*) p - b->p + b->srcPos : ~0ull;
}
uint64_t vf_size(const void* p) {
    Blk* b = findBlk(p);
    return b ? b->size : 0;
}
uint64_t vf_offset(const void* p) {
    Blk* b = findBlk(p);
    return b ? (const char*) p - b->p : 0;
}
bool vf_same(const void*, const void*) { return true; }
bool vf_is_heap(const void*) { return true; }
uint64_t vf_heap_live() { return g_heapLive; }
bool vf_symbolic() { return false; }
}
void* operator new(size_t n) { return vf_malloc(n); }
void operator delete(void* p) noexcept { vf_free(p); }
void operator delete(void* p, size_t) noexcept { vf_free(p); }

#include <dlfcn.h>
static void (*g_entry)();
static int runOnce() {
    g_heapLive = 0;
    S->tapeLen = 0;
    g_inPos = 0;
    int r = 0;
    if (setjmp(g_jmp) == 0) {
        g_entry();
    } else {
        r = 1;
    }
    for (int i = 0; i < g_nblk; i++) __real_free((void*) g_blk[i].p);
    g_nblk = 0;
    return r;
}
int main(int argc, char** argv) {
    if (argc < 4) return 9;
    g_entry = (void (*)()) dlsym(RTLD_DEFAULT, argv[1]);
    if (!g_entry) {
        fprintf(stderr, "no harness %s\n", argv[1]);
        return 9;
    }
    argv++;
    argc--;
    S = (Shared*) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        FILE* f = fopen(argv[2], "rb");
        if (!f) return 9;
        char buf[65536];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, f)) > 0) g_in.insert(g_in.end(), buf, buf + n);
        fclose(f);
        g_mode = 0;
        alarm(20);
        int r = runOnce();
        printf(r ? "VF-DISCARDED\n" : "VF-PASSED\n");
        return r ? 3 : 0;
    }
    // search SEED SECONDS OUT [dict...]
    uint64_t seed = strtoull(argv[2], 0, 0);
    double secs = atof(argv[3]);
    const char* out = argv[4];
    for (int i = 5; i < argc; i++) g_dict.push_back(strtoull(argv[i], 0, 0));
    g_mode = 1;
    g_quiet = true;
    time_t end = time(0) + (time_t) secs;
    uint64_t round = 0;
    while (time(0) < end) {
        round++;
        pid_t pid = fork();
        if (pid == 0) {
            FILE* nul = freopen("/dev/null", "w", stderr);
            (void) nul;
            g_rng = (seed * 1000003 + round) * 0x9E3779B97F4A7C15ull + 1;
            for (int i = 0; i < 20; i++) rnd();
            for (int i = 0; i < 20000 && time(0) < end; i++) {
                alarm(10);
                S->iters++;
                if (runOnce() == 0) S->accepted++;
            }
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            FILE* f = fopen(out, "wb");
            fwrite((const void*) S->tape, 1, S->tapeLen, f);
            fclose(f);
            printf("VF-FOUND %s after %llu inputs (%llu accepted)\n", S->failed ? S->failName : (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ? "does not terminate" : "crash (assertion, trap or memory error)",
                   (unsigned long long) S->iters, (unsigned long long) S->accepted);
            return 7;
        }
    }
    printf("VF-NOTFOUND %llu inputs %llu accepted\n", (unsigned long long) S->iters, (unsigned long long) S->accepted);
    return 0;
}
