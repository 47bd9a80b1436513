// Native replay runtime: values come from the file named by VF_REPLAY ("name value" per line).
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <map>
#include <vector>
#include <string>
#include <thread>
#include <pthread.h>
#include <fcntl.h>
#include <unistd.h>
#include <cstdarg>
static std::map<std::string, std::vector<uint64_t>>* vals;  // per name: argument evaluation order differs between compilers
static std::map<std::string, size_t>* pos;
static bool noleak;
static std::set<const void*>* live;
static pthread_mutex_t liveM = PTHREAD_MUTEX_INITIALIZER;
static std::vector<std::thread>* threads;
static uint32_t nalloc; static thread_local int inrt;
struct InRt { InRt() { ++inrt; } ~InRt() { --inrt; } };
extern "C" __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static void onMalloc(const volatile void*, size_t) { if (!inrt) ++nalloc; }
static void onFree(const volatile void*) {}
static std::map<std::string, int>* params;
// stdio may be replaced by the harness (--wrap), so talk to the descriptors directly
static void out(const char* fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (n > (int)sizeof b) n = sizeof b; for (int k = 0; k < n;) { ssize_t w = write(1, b + k, (size_t)(n - k)); if (w <= 0) break; k += (int)w; } }
static void fin(int code) { _Exit(code); }
static void fail(const char* kind, const char* msg) { out("VF-FAIL %s: %s\n", kind, msg); fin(66); }
static uint64_t nextv(const char* n) { InRt g; auto& q = (*vals)[n]; size_t& k = (*pos)[n]; return k < q.size() ? q[k++] : 0; }
extern "C" {
uint64_t __vf_sym(const char* n, int bits) { uint64_t v = nextv(n); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint32_t __vf_choose(const char* nm, uint32_t n) { uint32_t v = (uint32_t)nextv(nm); if (v >= n) { out("VF-ASSUME\n"); fin(77); } return v; }
uint64_t __vf_concretize(uint64_t v) { return v; }
void __vf_assume(bool c) { if (!c) { out("VF-ASSUME\n"); fin(77); } }
void __vf_assert(bool c, const char* m) { if (!c) fail("assert", m); }
void __vf_reach(const char*) {}
void __vf_observe(uint64_t v) { InRt g; out("OBS %llu\n", (unsigned long long)v); }
int __vf_param(const char* n, int d) { InRt g; auto it = params->find(n); return it == params->end() ? d : it->second; }
void __vf_noleak() { noleak = true; }
int __vf_is_engine() { return 0; }
void __vf_ctor(const void* p) { InRt g; pthread_mutex_lock(&liveM); bool ok = live->insert(p).second; pthread_mutex_unlock(&liveM); if (!ok) fail("lifetime", "element constructed over a live element"); }
void __vf_dtor(const void* p) { pthread_mutex_lock(&liveM); bool ok = live->erase(p); pthread_mutex_unlock(&liveM); if (!ok) fail("lifetime", "destructor run on storage holding no live element"); }
void __vf_use(const void* p) { pthread_mutex_lock(&liveM); bool ok = live->count(p); pthread_mutex_unlock(&liveM); if (!ok) fail("lifetime", "use of storage holding no live element"); }
uint32_t __vf_allocs() { return nalloc; }
uint32_t __vf_live() { return (uint32_t)live->size(); }
void __vf_spawn(void (*fn)(void*), void* a) { threads->emplace_back(fn, a); }
void __vf_join_all() { for (auto& t : *threads) t.join(); threads->clear(); }
void __vf_spurious(int) {}
struct VfEntry { const char* name; void (*fn)(); };
extern VfEntry vf_entries[];
}
int main(int argc, char** argv) {
    vals = new std::map<std::string, std::vector<uint64_t>>; pos = new std::map<std::string, size_t>; live = new std::set<const void*>; threads = new std::vector<std::thread>; params = new std::map<std::string, int>;
    if (const char* f = getenv("VF_REPLAY")) { int fd = open(f, O_RDONLY); std::string t; char b[4096]; ssize_t r; while (fd >= 0 && (r = read(fd, b, sizeof b)) > 0) t.append(b, (size_t)r); if (fd >= 0) close(fd);
        for (size_t i = 0; i < t.size();) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); size_t q = t.find(' ', i); if (q < e) (*vals)[t.substr(i, q - i)].push_back(strtoull(t.c_str() + q + 1, nullptr, 10)); i = e + 1; } }
    for (int i = 2; i < argc; i++) { std::string a = argv[i]; auto e = a.find('='); if (e != std::string::npos) (*params)[a.substr(0, e)] = atoi(a.c_str() + e + 1); }
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    for (VfEntry* e = vf_entries; e->name; e++) if (!strcmp(e->name, argv[1])) {
        try { e->fn(); } catch (...) { fail("uncaught-exception", "exception left the harness"); }
        if (!noleak && !live->empty()) fail("lifetime", "element(s) never destroyed");
        out("VF-OK\n");
        if (noleak) fin(0);
        delete vals; delete pos; delete live; delete threads; delete params;
        return 0;  // LeakSanitizer runs at exit
    }
    out("VF-NOENTRY\n");
    return 3;
}
