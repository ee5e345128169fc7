// By-id stores against a map: random histories of operations, checked after every read.
//   run KIND SEED OPS DIR        KIND: fixed anon file named sparse map vector   (+ ":i" for int64 values, ":s" for 12 byte values)
#include <cassert>
#include <climits>
#include <new>
#include <cstdio>
#include <fcntl.h>
#include <fstream>
#include <google/sparsetable>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
// the library's system calls, which can be made to fail: the fault_at-th of those made while armed
static int fault_at = 0; static long ncalls = 0, ninjected = 0;
static bool fault() { if (fault_at <= 0) return false; ++ncalls; if (--fault_at) return false; ++ninjected; errno = ENOMEM; return true; }
static void* vp_mmap(void* a, size_t n, int p, int f, int fd, off_t o) { return fault() ? MAP_FAILED : mmap(a, n, p, f, fd, o); }
static void* vp_mremap(void* a, size_t o, size_t n, int f) { return fault() ? MAP_FAILED : mremap(a, o, n, f); }
static int vp_ftruncate(int fd, off_t n) { return fault() ? -1 : ftruncate(fd, n); }
static int vp_fstat(int fd, struct stat* s) { return fault() ? -1 : fstat(fd, s); }
static int vp_dup(int fd) { return fault() ? -1 : dup(fd); }
static FILE* vp_tmpfile() { return fault() ? NULL : tmpfile(); }
#define mmap(...) vp_mmap(__VA_ARGS__)
#define mremap(...) vp_mremap(__VA_ARGS__)
#define ftruncate(...) vp_ftruncate(__VA_ARGS__)
#define fstat(...) vp_fstat(__VA_ARGS__)
#define dup(...) vp_dup(__VA_ARGS__)
namespace std { using ::vp_tmpfile; }
#define tmpfile() vp_tmpfile()
#include <osmium/osm/types.hpp>
#include <osmium/osm/position.hpp>
#include <osmium/storage/byid/fixed_array.hpp>
#include <osmium/storage/byid/mmap_anon.hpp>
#include <osmium/storage/byid/mmap_file.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/byid/stl_map.hpp>
#include <osmium/storage/byid/vector.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <dirent.h>
#include <memory>

typedef uint64_t u64;
static u64 rs; static u64 rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static u64 rnd(u64 n) { return rnd() % n; }
struct Triple { int a, b, c; Triple() : a(0), b(0), c(0) {} };
inline bool operator==(const Triple& x, const Triple& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
template <class T> T value();
template <> Osmium::OSM::Position value() { return Osmium::OSM::Position(int32_t(rnd()), int32_t(rnd())); }
template <> int64_t value() { return int64_t(rnd()); }
template <> Triple value() { Triple t; t.a = int(rnd()); t.b = int(rnd()); t.c = int(rnd()); return t; }

static long nset = 0, nget = 0, nempty = 0, ngrow = 0, nfail = 0, nclear = 0, nreopen = 0, nguard = 0;
static bool bad = false;
static void BAD(const char* key, u64 id, const std::string& s = "") { if (!bad) printf("BAD %s id=%llu %s\n", key, (unsigned long long)id, s.c_str()); bad = true; }
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n - 1; }
static int maps(const char* what) { FILE* f = fopen("/proc/self/maps", "r"); char b[9000]; int n = 0; while (fgets(b, sizeof b, f)) if (strstr(b, what)) ++n; fclose(f); return n; }

template <class T> struct Run {
    typedef Osmium::Storage::ById::Base<T> B;
    std::string kind, path; B* s; std::map<u64, T> m; u64 last, limit; bool grown_badly;
    // pages of ours that must survive whatever the store unmaps
    std::vector<std::pair<char*, size_t> > guards;
    Run(const std::string& k, const std::string& dir) : kind(k), s(0), last(0), limit(0), grown_badly(false) { path = dir + "/store"; }
    B* make() {
        using namespace Osmium::Storage::ById;
        if (kind == "fixed") { limit = 1 + rnd(200000); return new FixedArray<T>(limit); }
        if (kind == "anon") return new MmapAnon<T>();
        if (kind == "file") return new MmapFile<T>();
        if (kind == "named") return new MmapFile<T>(path, false);
        if (kind == "removed") { B* b = new MmapFile<T>(path, true); if (access(path.c_str(), F_OK) == 0) BAD("not-removed", 0); return b; }
        if (kind == "sparse") return rnd(2) ? new SparseTable<T>() : new SparseTable<T>(rnd(4) ? 1 + rnd(50) : 0);
        if (kind == "map") return new StlMap<T>();
        return new Vector<T>();
    }
    B* make_faulty() {      // sometimes after attempts which fail
        if (kind != "anon" && kind != "file" && kind != "named") return make();
        for (int k = rnd(4); k > 0; --k) {
            int f = fds(); B* b = 0; fault_at = 1 + rnd(4);
            try { b = make(); } catch (std::bad_alloc&) { ++nfail; }
            fault_at = 0;
            delete b;
            if (fds() != f) BAD("file-descriptor-left-open", fds() - f, "by an attempt to make a store");
        }
        return make();
    }
    u64 pick() {
        bool big = kind == "anon" || kind == "file" || kind == "named" || kind == "removed";
        u64 id;
        switch (rnd(9)) {
            case 0: id = rnd(10); break;
            case 1: id = s->size() + rnd(3) - 1; break;
            case 2: id = s->size() > 5 ? s->size() - rnd(5) : 0; break;
            case 3: id = rnd(100000); break;
            case 4: id = m.empty() ? 1 : m.rbegin()->first + 1; break;
            case 5: id = m.empty() ? 0 : m.begin()->first; break;
            case 6: { if (m.empty()) { id = 7; break; } typename std::map<u64, T>::iterator i = m.lower_bound(rnd(m.rbegin()->first + 1)); id = i == m.end() ? 0 : i->first; break; }
            case 7: id = big ? rnd(1u << 26) : rnd(300000); break;
            default: id = rnd(1000);
        }
        if (rnd(300) == 0 && big) id = (1ull << 27) + rnd(1 << 24);
        if (kind == "map" && rnd(5) == 0) id = rnd();
        if (kind == "vector") { id = rnd(4) ? last + rnd(4) : last + (rnd(30) ? rnd(1000) : rnd(1ull << 40)); }
        if (kind == "sparse" && id > 3000000) id %= 3000000;
        if (kind == "fixed") id %= limit;
        if (id == ~0ull) id = 0;
        return id;
    }
    void check(u64 id) {
        typename std::map<u64, T>::const_iterator i = m.find(id);
        if (i != m.end()) { ++nget; if (!((*s)[id] == i->second)) BAD("wrong-value", id); return; }
        if (kind == "sparse" || kind == "vector") { ++nempty; if (!((*s)[id] == T())) BAD("unset-not-empty", id); }
        else if (kind == "map") { ++nempty; try { (void)(*s)[id]; BAD("unset-no-error", id); } catch (std::out_of_range&) {} }
    }
    void all() { for (typename std::map<u64, T>::const_iterator i = m.begin(); i != m.end(); ++i) { ++nget; if (!((*s)[i->first] == i->second)) { BAD("wrong-value", i->first, "in full scan"); return; } } }
    void guard() {     // put something of ours where the store had its memory
        for (int k = 0; k < 3; ++k) {
            size_t n = sizeof(T) * (k == 0 ? 10ull * 1024 * 1024 : k == 1 ? 1 : 4096 / sizeof(T) + 1);
            char* p = (char*)mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (p == MAP_FAILED) continue;
            p[0] = 'g'; p[n - 1] = 'h'; guards.push_back(std::make_pair(p, n)); ++nguard;
        }
    }
    void check_guards() {
        for (size_t i = 0; i < guards.size(); ++i) {
            std::pair<char*, size_t> g = guards[i]; unsigned char v[2];
            if (mincore((void*)((size_t)g.first & ~4095ul), 1, v) != 0 || mincore((void*)((size_t)(g.first + g.second - 1) & ~4095ul), 1, v) != 0) { BAD("foreign-memory-unmapped", 0); return; }
            if (g.first[0] != 'g' || g.first[g.second - 1] != 'h') BAD("foreign-memory-changed", 0);
            munmap(g.first, g.second);
        }
        guards.clear();
    }
    void end(bool clear_first) {
        if (clear_first) {
            int n = 1 + rnd(3);
            for (int i = 0; i < n; ++i) { s->clear(); ++nclear; if (kind != "named" && rnd(2)) guard(); }
            (void)s->used_memory(); (void)s->size();
            if (kind == "sparse" || kind == "vector" || kind == "map") {
                std::map<u64, T> old; old.swap(m);
                int k = 0;
                for (typename std::map<u64, T>::iterator i = old.begin(); i != old.end() && k < 20; ++i, ++k) check(i->first);
                m.swap(old);
            }
        }
        delete s; s = 0;
        check_guards();
    }
    void history(long ops) {
        int f0 = fds(), m0 = maps("store"), t0 = maps("/tmpf") + maps("(deleted)");
        bool mapped = kind == "anon" || kind == "file" || kind == "removed" || kind == "named";
        s = make_faulty();
        for (long i = 0; i < ops && !bad; ++i) {
            u64 r = rnd(100);
            if (r < 55) {
                u64 id = pick(); T v = value<T>(); u64 sz = s->size();
                if (mapped && (id >= sz ? rnd(3) == 0 : rnd(200) == 0)) {       // a system call fails while this value is set
                    bool ok = true; fault_at = 1 + rnd(3);
                    try { s->set(id, v); } catch (std::bad_alloc&) { ok = false; }
                    fault_at = 0;
                    if (!ok) { ++nfail; all(); if (rnd(2)) continue; s->set(id, v); }
                } else s->set(id, v);
                m[id] = v; ++nset; if (kind == "vector") last = id;
                if (s->size() > sz) { ++ngrow; if (kind != "map" && kind != "vector" && kind != "sparse" && m.size() < 5000) all(); }
            } else if (r < 96) { check(pick()); }
            else if (r < 97) (void)s->used_memory();
            else if (r < 98 && (kind == "anon" || kind == "file" || kind == "removed") && rnd(20) == 0) {
                u64 id = 1ull << (50 + rnd(8)); ++nfail;
                try { s->set(id, value<T>()); BAD("impossible-growth", id); } catch (std::bad_alloc&) {}
                all();
            } else if (kind == "named" && rnd(8) == 0) {
                bool c = rnd(2);
                end(c); s = make_faulty(); ++nreopen; all();
            } else if (rnd(60) == 0) all();
        }
        if (!bad) all();
        end(rnd(3) != 0);
        if (kind == "named") { if (!bad) { s = make(); ++nreopen; all(); end(false); } unlink(path.c_str()); }
        if (fds() != f0) BAD("file-descriptor-left-open", fds() - f0);
        if (maps("store") != m0 || maps("/tmpf") + maps("(deleted)") != t0) BAD("mapping-left", 0);
        // an object that is only constructed and destroyed, or cleared at once
        s = make(); m.clear(); end(false); s = make(); end(true); if (kind == "named") unlink(path.c_str());
        if (fds() != f0) BAD("file-descriptor-left-open", fds() - f0);
    }
};
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l); std::string run, kind, dir; u64 seed; long ops; is >> run >> kind >> seed >> ops >> dir;
        printf("BEGIN %s\n", l.c_str()); fflush(stdout);
        rs = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull; for (int i = 0; i < 10; ++i) rnd();
        bad = false; nset = nget = nempty = ngrow = nfail = nclear = nreopen = nguard = 0; ninjected = 0; fault_at = 0;
        std::string res = "ok";
        char t = 'p'; size_t c = kind.find(':'); if (c != std::string::npos) { t = kind[c + 1]; kind = kind.substr(0, c); }
        try {
            if (t == 'i') { Run<int64_t> r(kind, dir); r.history(ops); }
            else if (t == 's') { Run<Triple> r(kind, dir); r.history(ops); }
            else { Run<Osmium::OSM::Position> r(kind, dir); r.history(ops); }
        } catch (std::exception& e) { res = std::string("exc ") + e.what(); }
        printf("C sets %ld gets %ld unset %ld grown %ld failedgrowth %ld clears %ld reopened %ld guards %ld injected %ld\n", nset, nget, nempty, ngrow, nfail, nclear, nreopen, nguard, ninjected);
        printf("END %s\n", res.c_str()); fflush(stdout);
    }
}
