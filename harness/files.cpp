// File: exact lines in, exact bytes out, each stream closed exactly once, under every fault.
// The C stream functions are replaced by a model of one file with symbolic bytes and faults.
#include "efp.hpp"
#include "efp/io.hpp"
#include "vf.h"
#include <cstdio>
#include <cstring>
using namespace efp;
static const int FMAX = 4;
static const int CAP = 700;
struct Stream { bool open; int closes; bool rd, wr, app, eof, err; int pos, back; };
static Stream st[FMAX]; static int nst;
static unsigned char disk[CAP]; static int disklen;  // the one file
static int budget = 1 << 20;                         // bytes the device still accepts / delivers
static bool fail_open, fail_close, fail_flush, fail_seek;
static Stream* live(FILE* f) { Stream* s = (Stream*)(void*)f; bool k = false; for (int i = 0; i < FMAX; ++i) if (s == &st[i]) k = true; VF_ASSERT_MSG(k, "only opened streams are used"); VF_ASSERT_MSG(s->open, "no stream is used after it was closed"); return s; }
static int get1(Stream* s) { if (s->back >= 0) { int c = s->back; s->back = -1; s->pos++; return c; } if (!s->rd) { s->err = true; return EOF; } if (s->pos >= disklen) { s->eof = true; return EOF; } if (budget == 0) { s->err = true; return EOF; } --budget; return disk[s->pos++]; }
static bool put1(Stream* s, int c) { if (!s->wr || budget == 0) { s->err = true; return false; } --budget; if (s->app) s->pos = disklen; VF_ASSERT(s->pos < CAP); disk[s->pos++] = (unsigned char)c; if (s->pos > disklen) disklen = s->pos; return true; }
extern "C" {
FILE* __wrap_fopen(const char* path, const char* mode) {
    VF_ASSERT_MSG(!std::strcmp(path, "/f"), "the path is passed on unchanged");
    if (fail_open) return nullptr;
    VF_ASSERT(nst < FMAX); Stream* s = &st[nst++]; bool plus = std::strchr(mode, '+') != nullptr; s->open = true; s->rd = mode[0] == 'r' || plus; s->wr = mode[0] != 'r' || plus; s->app = mode[0] == 'a'; s->eof = s->err = false; s->back = -1; s->pos = 0; if (mode[0] == 'w') disklen = 0; return (FILE*)(void*)s;
}
int __wrap_fclose(FILE* f) { Stream* s = live(f); s->open = false; s->closes++; return fail_close ? EOF : 0; }
int __wrap_fgetc(FILE* f) { return get1(live(f)); }
int __wrap_getc(FILE* f) { return get1(live(f)); }
int __wrap_fputc(int c, FILE* f) { return put1(live(f), c) ? (unsigned char)c : EOF; }
int __wrap_putc(int c, FILE* f) { return put1(live(f), c) ? (unsigned char)c : EOF; }
int __wrap_getc_unlocked(FILE* f) { return get1(live(f)); }
int __wrap_fgetc_unlocked(FILE* f) { return get1(live(f)); }
int __wrap_putc_unlocked(int c, FILE* f) { return put1(live(f), c) ? (unsigned char)c : EOF; }
int __wrap_fputc_unlocked(int c, FILE* f) { return put1(live(f), c) ? (unsigned char)c : EOF; }
int __wrap_ungetc(int c, FILE* f) { Stream* s = live(f); if (c == EOF || s->back >= 0 || s->pos == 0) return EOF; s->back = (unsigned char)c; s->pos--; s->eof = false; return c; }
size_t __wrap_fwrite(const void* p, size_t sz, size_t n, FILE* f) { Stream* s = live(f); const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < sz; ++j) if (!put1(s, *b++)) return i; return sz ? n : 0; }
size_t __wrap_fread(void* p, size_t sz, size_t n, FILE* f) { Stream* s = live(f); unsigned char* b = (unsigned char*)p; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < sz; ++j) { int c = get1(s); if (c == EOF) return i; *b++ = (unsigned char)c; } return sz ? n : 0; }
int __wrap_fputs(const char* p, FILE* f) { Stream* s = live(f); for (; *p; ++p) if (!put1(s, *p)) return EOF; return 1; }
char* __wrap_fgets(char* b, int n, FILE* f) { Stream* s = live(f); int i = 0; if (n <= 0) return nullptr; while (i < n - 1) { int c = get1(s); if (c == EOF) { if (i == 0 || s->err) return nullptr; break; } b[i++] = (char)c; if (c == '\n') break; } b[i] = 0; return b; }
int __wrap_fflush(FILE* f) { live(f); return fail_flush ? EOF : 0; }
int __wrap_fseek(FILE* f, long off, int wh) { Stream* s = live(f); long at = off + (wh == SEEK_CUR ? s->pos : wh == SEEK_END ? disklen : 0); if (fail_seek || at < 0) return -1; s->pos = (int)at; s->back = -1; s->eof = false; return 0; }
int __wrap_fseeko(FILE* f, long off, int wh) { return __wrap_fseek(f, off, wh); }
void __wrap_rewind(FILE* f) { __wrap_fseek(f, 0, SEEK_SET); live(f)->err = false; }
long __wrap_ftell(FILE* f) { return live(f)->pos; }
long __wrap_ftello(FILE* f) { return live(f)->pos; }
int __wrap_ferror(FILE* f) { return live(f)->err; }
int __wrap_feof(FILE* f) { return live(f)->eof; }
void __wrap_clearerr(FILE* f) { Stream* s = live(f); s->eof = s->err = false; }
int __wrap_setvbuf(FILE* f, char*, int, size_t) { live(f); return 0; }
}
static void closed_once() { for (int i = 0; i < nst; ++i) { VF_ASSERT_MSG(!st[i].open, "every stream opened is closed"); VF_ASSERT_MSG(st[i].closes == 1, "every stream is closed exactly once"); } }
static void contents(int hi) { disklen = vf::pick("len", 0, hi); for (int i = 0; i < disklen; ++i) disk[i] = vf::sym<unsigned char>("byte"); }

VF_ENTRY(file_lines) {
    int hi = __vf_param("len", 4); contents(hi); int deliver = vf::pick("deliver", 0, disklen); budget = deliver;   // reading stops early at a device error
    bool all = vf::pick("all", 0, 1) != 0; fail_open = vf::sym<bool>("fail_open"); bool sp = vf::pick("path", 0, 1) != 0;
    {
        auto mf = sp ? File::open(String("/f"), "r") : File::open("/f", "r");
        VF_ASSERT_MSG(mf.is_nothing() == fail_open, "opening yields a file exactly when the system opens it");
        if (!mf.is_nothing()) {
            File f(mf.move());
            String want[8]; int n = 0; int at = 0; while (at < deliver) { String s; while (at < deliver && disk[at] != '\n') { s.push_back((char)disk[at]); ++at; } if (at < deliver) ++at; want[n++] = s; }
            if (all) { auto ls = f.read_lines(); VF_ASSERT_MSG((int)ls.size() == n, "read_lines yields every line"); for (int i = 0; i < n; ++i) VF_ASSERT_MSG(ls[(size_t)i] == want[i], "read_lines yields the characters between newlines"); }
            else for (int i = 0; i <= n; ++i) { auto l = f.read_line(); VF_ASSERT_MSG(l.is_nothing() == (i == n), "read_line yields a line exactly while there is one"); if (i < n) VF_ASSERT_MSG(l.value() == want[i], "read_line yields the characters up to the newline"); }
            vf::obs((uint64_t)n);
        }
    }
    closed_once(); __vf_reach("done");
}
static unsigned char want[CAP]; static int nwant;
VF_ENTRY(file_writes) {
    static const char* modes[] = {"w", "wb", "w+", "w+b"}; const char* mode = modes[vf::pick("mode", 0, 3)]; int k = __vf_param("k", 2); int moved = vf::pick("moved", 0, 2);
    budget = vf::pick("budget", 0, __vf_param("budget", 5)); int left = budget; bool lim = false; nwant = 0;
    {
        auto mf = File::open("/f", mode); VF_ASSERT(!mf.is_nothing()); File g(mf.move()); File h(efp::move(g)); if (moved == 1) g = efp::move(h); if (moved == 2) { File t(efp::move(h)); h = efp::move(t); } File& f = moved == 1 ? g : h;
        for (int i = 0; i < k; ++i) {
            int how = vf::pick("how", 0, 2); int n = vf::pick("n", 0, 3); char b[4]; for (int j = 0; j < n; ++j) b[j] = vf::sym<char>("c"); b[n] = 0;
            if (how == 0) for (int j = 0; j < n; ++j) __vf_assume(b[j] != 0);
            bool ok = how == 0 ? f.write(b) : how == 1 ? f.write(b, (size_t)n) : f.write(n || vf::pick("empty", 0, 1) ? String(b, (size_t)n) : String());
            VF_ASSERT_MSG(ok == (n <= left), "write succeeds exactly when every byte was accepted");
            if (!ok) lim = true; int took = n < left ? n : left; for (int j = 0; j < took; ++j) want[nwant++] = (unsigned char)b[j]; left -= took;
            VF_ASSERT_MSG(f.tell() == nwant, "tell is the number of bytes written so far");
        }
        VF_ASSERT_MSG(disklen == nwant, "exactly the given bytes are written"); for (int j = 0; j < nwant; ++j) VF_ASSERT_MSG(disk[j] == want[j], "the bytes are written in order, all values included");
    }
    (void)lim; closed_once(); __vf_reach("done");
}
// write, rewind, read back
VF_ENTRY(file_roundtrip) {
    int n = vf::pick("n", 0, 3); String s; for (int j = 0; j < n; ++j) s.push_back(vf::sym<char>("c")); fail_seek = vf::sym<bool>("fail_seek"); fail_flush = vf::sym<bool>("fail_flush");
    { auto mf = File::open("/f", vf::pick("m", 0, 1) ? "w+" : "w+b"); File f(mf.move()); VF_ASSERT(f.write(s)); VF_ASSERT(f.write("\n")); VF_ASSERT_MSG((f.flush() == 0) == !fail_flush, "flush reports failure"); int pos = vf::pick("pos", 0, n); bool ok = f.seek(pos); VF_ASSERT_MSG(ok == !fail_seek, "seek reports failure"); if (ok) { VF_ASSERT(f.tell() == pos); auto l = f.read_line(); VF_ASSERT(!l.is_nothing()); int e = pos; while (e < n && s[(size_t)e] != '\n') ++e; VF_ASSERT_MSG(l.value() == s.substr((size_t)pos, (size_t)(e - pos)), "what was written is read back"); } }
    closed_once(); __vf_reach("done");
}
// ownership of streams through moves, closes that fail, and closed files
VF_ENTRY(file_handles) {
    fail_close = vf::sym<bool>("fail_close"); int k = __vf_param("k", 3);
    {
        auto ma = File::open("/f", "w"); auto mb = File::open("/f", "w+"); File a(ma.move()); File b(mb.move()); int ha = 0, hb = 1;   // stream each holds, -1: none
        for (int i = 0; i < k; ++i) {
            int op = vf::pick("op", 0, 7);
            if (op == 0) { bool r = a.close(); VF_ASSERT_MSG(r == (ha >= 0 && !fail_close), "close reports whether an open file was closed"); if (ha >= 0) VF_ASSERT(!st[ha].open); ha = -1; }
            else if (op == 1) { b = efp::move(a); if (hb >= 0) VF_ASSERT_MSG(!st[hb].open, "the replaced file is closed"); hb = ha; ha = -1; }
            else if (op == 2) { a = efp::move(b); if (ha >= 0) VF_ASSERT_MSG(!st[ha].open, "the replaced file is closed"); ha = hb; hb = -1; }
            else if (op == 3) { File t(efp::move(a)); a = efp::move(t); }
            else if (op == 4) { File t(efp::move(a)); ha = -1; }
            else if (op == 5) { File& r = a; a = efp::move(r); }
            else if (op == 6) { bool w = a.write("x"); VF_ASSERT_MSG(w == (ha >= 0), "writing to a closed file fails"); VF_ASSERT(a.write(String("y")) == (ha >= 0)); VF_ASSERT_MSG((a.flush() == 0) == (ha >= 0), "flushing a closed file fails"); VF_ASSERT_MSG(a.seek(0) == (ha >= 0), "seeking in a closed file fails"); VF_ASSERT_MSG((a.tell() >= 0) == (ha >= 0), "a closed file has no position"); }
            else { if (ha < 0) { VF_ASSERT_MSG(a.read_line().is_nothing(), "a closed file has no lines"); VF_ASSERT(a.read_lines().empty()); } }
            for (int s = 0; s < 2; ++s) VF_ASSERT_MSG(st[s].open == (s == ha || s == hb), "a stream stays open exactly while a file owns it");
        }
    }
    closed_once(); __vf_reach("done");
}
// one line around the sizes where buffers grow, among short ones
static const int sizes[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 600};
VF_ENTRY(file_long_line) {
    int n = sizes[vf::pick("size", 0, 18)], before = vf::pick("before", 0, 1), after = vf::pick("after", 0, 2); disklen = 0; if (before) { disk[disklen++] = 'a'; disk[disklen++] = '\n'; } int at = disklen;
    for (int i = 0; i < n; ++i) { disk[disklen] = vf::sym<unsigned char>("byte"); __vf_assume(disk[disklen] != '\n'); disklen++; } if (after) disk[disklen++] = '\n'; if (after == 2) disk[disklen++] = 'z';
    { auto mf = File::open("/f", vf::pick("m", 0, 1) ? "r" : "rb"); File f(mf.move()); auto ls = f.read_lines(); VF_ASSERT_MSG((int)ls.size() == before + 1 + (after == 2), "read_lines yields every line"); VF_ASSERT_MSG((int)ls[(size_t)before].size() == n, "a long line is one line"); bool same = true; for (int i = 0; i < n; ++i) same = same & ((unsigned char)ls[(size_t)before][(size_t)i] == disk[at + i]); VF_ASSERT_MSG(same, "a long line is read unchanged"); VF_ASSERT(!before || (ls[0].size() == 1 && ls[0][0] == 'a')); VF_ASSERT(after != 2 || (ls[(size_t)before + 1].size() == 1 && ls[(size_t)before + 1][0] == 'z')); }
    closed_once(); __vf_reach("done");
}
VF_ENTRY(file_long_write) {
    static const char* modes[] = {"w", "wb", "a", "a+b", "r+"}; int n = sizes[vf::pick("size", 0, 18)], m = vf::pick("mode", 0, 4), how = vf::pick("how", 0, 2); disk[0] = 'q'; disklen = 1; bool lim = vf::pick("lim", 0, 1) != 0; budget = lim ? n - 1 : n;
    { auto mf = File::open("/f", modes[m]); File f(mf.move()); String s; char z[601]; for (int i = 0; i < n; ++i) { z[i] = vf::sym<char>("c"); if (how == 0) __vf_assume(z[i] != 0); s.push_back(z[i]); } z[n] = 0; bool ok = how == 0 ? f.write(z) : how == 1 ? f.write(z, (size_t)n) : f.write(s); VF_ASSERT_MSG(ok == !lim, "write succeeds exactly when every byte was accepted"); int at = m == 2 || m == 3 ? 1 : 0, k = lim ? n - 1 : n; bool same = disklen == (at + k > 1 || m < 2 ? at + k : 1); for (int i = 0; i < k; ++i) same = same & (disk[at + i] == (unsigned char)z[i]); VF_ASSERT_MSG(same && (!at || disk[0] == 'q'), "exactly the given bytes are written"); VF_ASSERT(f.tell() == at + k); VF_ASSERT(f.close()); }
    closed_once(); __vf_reach("done");
}
// lines read while the file is written by the same object; positions in every mode
VF_ENTRY(file_many_lines) {
    int n = vf::pick("n", 0, 12), len[12]; disklen = 0; for (int i = 0; i < n; ++i) { len[i] = vf::pick("len", 0, 1) * (1 + i % 3); if (i > 3) __vf_assume(len[i] == (i % 2) * (1 + i % 3)); for (int j = 0; j < len[i]; ++j) { disk[disklen] = vf::sym<unsigned char>("byte"); __vf_assume(disk[disklen] != '\n'); disklen++; } disk[disklen++] = '\n'; }
    { auto mf = File::open("/f", "r"); File f(mf.move()); if (vf::pick("first", 0, 1) && n) { auto l = f.read_line(); VF_ASSERT(!l.is_nothing() && (int)l.value().size() == len[0]); VF_ASSERT(f.tell() == len[0] + 1); VF_ASSERT(f.seek(0)); } Vector<String> ls = f.read_lines(); VF_ASSERT_MSG((int)ls.size() == n, "read_lines yields every line"); int at = 0; for (int i = 0; i < n; ++i) { VF_ASSERT((int)ls[(size_t)i].size() == len[i]); for (int j = 0; j < len[i]; ++j) VF_ASSERT_MSG((unsigned char)ls[(size_t)i][(size_t)j] == disk[at + j], "read_lines yields the characters between newlines"); at += len[i] + 1; } VF_ASSERT(f.read_line().is_nothing() && f.read_lines().empty()); VF_ASSERT(f.tell() == disklen); }
    closed_once(); __vf_reach("done");
}
