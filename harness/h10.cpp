// Resource accounting: scenarios repeated in one process; descriptors, children, live heap and mappings after every repetition.
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/output/pbf.hpp>
#include <osmium/output/xml.hpp>
#include <osmium/storage/byid/fixed_array.hpp>
#include <osmium/storage/byid/mmap_anon.hpp>
#include <osmium/storage/byid/mmap_file.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/byid/stl_map.hpp>
#include <osmium/storage/byid/vector.hpp>
#include "rec.hpp"
#include <fstream>
#include <map>
#include <dirent.h>
#include <malloc.h>
#include <signal.h>
#include <sys/wait.h>
#include <fcntl.h>
#ifdef VP_LSAN
#include <sanitizer/lsan_interface.h>
#endif
using namespace vp;
typedef std::vector<std::string> args;

// ---------------------------------------------------------------- system calls that fail (linked with --wrap): the NTH call of KIND
#include <sys/mman.h>
#include <sys/stat.h>
#include <cstdarg>
static std::string fkind; static long fnth, fleft; static int ferr; static pid_t fparent; static int* fhits;    // hits in the parent, in children
static bool fails(const char* k) {
    if (fkind.empty() || fkind != k) return false;
    if (--fleft > 0 || (fleft < 0 && strcmp(k, "waitpid"))) return false;
    if (fleft < 0 && fleft < -3) return false;                  // waitpid: interrupted four times in a row
    ++fhits[getpid() != fparent]; errno = ferr; return true;
}
extern "C" {
#define WRAP(ret, name, decl, call, bad) ret __real_##name decl; ret __wrap_##name decl { if (fails(#name)) return bad; return __real_##name call; }
WRAP(int, pipe2, (int* p, int f), (p, f), -1) WRAP(int, pipe, (int* p), (p), -1) WRAP(pid_t, fork, (), (), -1) WRAP(pid_t, vfork, (), (), -1) WRAP(int, dup2, (int a, int b), (a, b), -1) WRAP(int, dup, (int a), (a), -1)
WRAP(FILE*, tmpfile64, (), (), 0) WRAP(int, ftruncate64, (int f, off64_t n), (f, n), -1) WRAP(void*, mmap64, (void* a, size_t n, int p, int fl, int fd, off64_t o), (a, n, p, fl, fd, o), MAP_FAILED)
WRAP(int, fstat64, (int f, struct stat64* s), (f, s), -1) WRAP(ssize_t, read, (int f, void* b, size_t n), (f, b, n), -1) WRAP(pid_t, waitpid, (pid_t p, int* s, int o), (p, s, o), -1)
void* __real_mremap(void* a, size_t o, size_t n, int f, ...); void* __wrap_mremap(void* a, size_t o, size_t n, int f, ...) { if (fails("mremap")) return MAP_FAILED; return __real_mremap(a, o, n, f); }
int __real_open64(const char* p, int f, ...); int __wrap_open64(const char* p, int f, ...) { va_list v; va_start(v, f); int m = (f & O_CREAT) ? va_arg(v, int) : 0; va_end(v); if (fails("open64")) return -1; return __real_open64(p, f, m); }
}

static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static int maps() { FILE* f = fopen("/proc/self/maps", "r"); char b[9000]; int n = 0; while (fgets(b, sizeof b, f)) ++n; fclose(f); return n; }
static std::vector<args> load(const std::string& p) { std::vector<args> v; std::ifstream in(p.c_str()); std::string l; while (std::getline(in, l)) v.push_back(split(l, '\t')); return v; }

template <class H> void feed1(H& out, const args& f) {
    if (f[0] == "I") { Osmium::OSM::Meta m; set_meta(m, f); out.init(m); }
    else if (f[0] == "N") { shared_ptr<Osmium::OSM::Node> n = make_node(f); out.node(n); }
    else if (f[0] == "W") { shared_ptr<Osmium::OSM::Way> n = make_way(f); out.way(n); }
    else if (f[0] == "R") { shared_ptr<Osmium::OSM::Relation> n = make_relation(f); out.relation(n); }
    else if (f[0] == "BN") out.before_nodes(); else if (f[0] == "AN") out.after_nodes();
    else if (f[0] == "BW") out.before_ways(); else if (f[0] == "AW") out.after_ways();
    else if (f[0] == "BR") out.before_relations(); else if (f[0] == "AR") out.after_relations();
    else if (f[0] == "F") out.final();
}
// keeps references to objects while reading
class Keeper : public Osmium::Handler::Base {
public:
    Recorder r; std::vector<shared_ptr<Osmium::OSM::Object const> > kept;
    Keeper() { r.quiet = true; }
    void init(Osmium::OSM::Meta& m) { r.init(m); }
    void before_nodes() { r.before_nodes(); } void after_nodes() { r.after_nodes(); }
    void before_ways() { r.before_ways(); } void after_ways() { r.after_ways(); }
    void before_relations() { r.before_relations(); } void after_relations() { r.after_relations(); }
    void node(const shared_ptr<Osmium::OSM::Node const>& n) { if (r.count % 3 == 0) kept.push_back(n); r.node(n); }
    void way(const shared_ptr<Osmium::OSM::Way const>& n) { if (r.count % 3 == 0) kept.push_back(n); r.way(n); }
    void relation(const shared_ptr<Osmium::OSM::Relation const>& n) { if (r.count % 3 == 0) kept.push_back(n); r.relation(n); }
    void final() { r.final(); }
};
template <class S> void use(S& s) { s.set(1, Osmium::OSM::Position(1, 2)); s.set(100, Osmium::OSM::Position(3, 4)); s.set(30000, Osmium::OSM::Position(3, 4)); }
template <class S> void grow(S& s) { use(s); s.set(11 * 1024 * 1024, Osmium::OSM::Position(3, 4)); s.set(40 * 1024 * 1024, Osmium::OSM::Position(3, 4)); }
struct Stop {};
struct Job { const args& a; std::vector<args> model; Job(const args& a) : a(a) {}
    void operator()() {
        if (a[0] == "read") {           // read TYPE ENC STOP HOW PATH
            Keeper k; k.r.stop_at = atol(a[4].c_str()); k.r.stop_how = atoi(a[5].c_str()); if (!k.r.stop_how) k.r.stop_at = -1;
            Osmium::OSMFile f = mkfile(a[2], a[3], a[6]);
            Osmium::Input::read(f, k);
        } else if (a[0] == "write") {   // write TYPE ENC ABANDON HOW PATH MODEL   HOW: 0 end 1 exception 2 destroyed after open
            model = load(a[7]);
            Osmium::OSMFile f = mkfile(a[2], a[3], a[6]);
            long n = atol(a[4].c_str()); int how = atoi(a[5].c_str());
            if (how == 3) { shared_ptr<Osmium::Output::PBF> p(new Osmium::Output::PBF(f)); for (size_t i = 0; i < model.size() && (n < 0 || long(i) < n); ++i) feed1(*p, model[i]); return; }
            Osmium::Output::Handler out(f);
            for (size_t i = 0; i < model.size(); ++i) {
                if (long(i) == n) { if (how == 1) throw Stop(); return; }
                feed1(out, model[i]);
            }
        } else if (a[0] == "conv") {    // conv TYPE ENC PATH TYPE ENC PATH
            Osmium::OSMFile in = mkfile(a[2], a[3], a[4]); Osmium::OSMFile of = mkfile(a[5], a[6], a[7]);
            Osmium::Output::Handler out(of); Osmium::Input::read(in, out);
        } else if (a[0] == "file") {    // file OPS TYPE ENC PATH OUTPATH
            Osmium::OSMFile f = mkfile(a[3], a[4], a[5]); Osmium::OSMFile g = mkfile(a[3], a[4], a[6]);
            std::vector<shared_ptr<Osmium::OSMFile> > copies;
            for (size_t i = 0; i < a[2].size(); ++i) switch (a[2][i]) {
                case 'o': f.open_for_input(); break;
                case 'w': g.open_for_output(); break;
                case 'c': f.close(); break;
                case 'd': try { g.close(); } catch (Osmium::OSMFile::IOError&) {} break;
                case 'a': f = mkfile(a[3], a[4], a[5]); break;
                case 'b': f = g; f.filename(a[5]); break;
                case 's': { Osmium::OSMFile& same = f; f = same; break; }
                case 'p': copies.push_back(shared_ptr<Osmium::OSMFile>(new Osmium::OSMFile(f))); break;
                case 'q': copies.push_back(shared_ptr<Osmium::OSMFile>(new Osmium::OSMFile(f))); copies.back()->open_for_input(); break;
                case 'x': if (!copies.empty()) copies.pop_back(); break;
            }
        } else if (a[0] == "store") {   // store KIND HOW PATH
            using namespace Osmium::Storage::ById; typedef Osmium::OSM::Position P; const std::string& k = a[2]; bool c = a[3] == "clear";
            if (k == "fixed") { FixedArray<P> s(40000); use(s); if (c) s.clear(); }
            else if (k == "anon") { MmapAnon<P> s; grow(s); if (c) s.clear(); }
            else if (k == "file") { MmapFile<P> s; grow(s); if (c) s.clear(); }
            else if (k == "named") { MmapFile<P> s(a[4], false); grow(s); if (c) s.clear(); }
            else if (k == "huge") { FixedArray<P> s(1ull << 50); use(s); }
            else if (k == "nodir") { MmapFile<P> s("/nonexistent/x", false); use(s); }
            else if (k == "dev") { MmapFile<P> s("/dev/null", false); use(s); }
            else if (k == "fail") { MmapAnon<P> s; use(s); s.set(1ull << 55, P(1, 1)); }
            else if (k == "failfile") { MmapFile<P> s; use(s); s.set(1ull << 55, P(1, 1)); }
            else if (k == "sparse") { SparseTable<P> s; grow(s); if (c) s.clear(); }
            else if (k == "map") { StlMap<P> s; grow(s); if (c) s.clear(); }
            else { Vector<P> s; grow(s); if (c) s.clear(); }
        }
    } };

// several files open at once
struct Script {
    std::vector<args> ops; FILE* out; size_t pos; std::map<int, shared_ptr<Osmium::Output::Handler> > w; std::vector<int> extra; int nread;
    struct Nest : public Recorder { Script& s; long at; Nest(Script& s, long at) : s(s), at(at) {}
        void chk() { if (count == at + 1) { at = -5; s.run(); } }
        void init(Osmium::OSM::Meta& m) { Recorder::init(m); chk(); }
        void before_nodes() { Recorder::before_nodes(); chk(); } void after_nodes() { Recorder::after_nodes(); chk(); }
        void before_ways() { Recorder::before_ways(); chk(); } void after_ways() { Recorder::after_ways(); chk(); }
        void before_relations() { Recorder::before_relations(); chk(); } void after_relations() { Recorder::after_relations(); chk(); }
        void node(const shared_ptr<Osmium::OSM::Node const>& n) { Recorder::node(n); chk(); }
        void way(const shared_ptr<Osmium::OSM::Way const>& n) { Recorder::way(n); chk(); }
        void relation(const shared_ptr<Osmium::OSM::Relation const>& n) { Recorder::relation(n); chk(); }
        void final() { Recorder::final(); }
    };
    struct Rd { Osmium::OSMFile f; Nest& n; Rd(const Osmium::OSMFile& f, Nest& n) : f(f), n(n) {} void operator()() { Osmium::Input::read(f, n); } };
    void run() {
        while (pos < ops.size()) {
            const args a = ops[pos++];
            if (a[0] == "E") return;
            if (a[0] == "W") { Osmium::OSMFile f = mkfile("osm", a[2], a[3]); w[atoi(a[1].c_str())] = shared_ptr<Osmium::Output::Handler>(new Osmium::Output::Handler(f)); }
            else if (a[0] == "M") { feed1(*w[atoi(a[1].c_str())], args(a.begin() + 2, a.end())); }
            else if (a[0] == "D") { w.erase(atoi(a[1].c_str())); }
            else if (a[0] == "X") { for (int n = atoi(a[1].c_str()); n > 0; --n) { int fd = open("/dev/null", O_RDWR); if (fd >= 0) extra.push_back(fd); } }
            else if (a[0] == "x") { for (size_t i = 0; i < extra.size(); ++i) close(extra[i]); extra.clear(); }
            else if (a[0] == "R") {
                int id = atoi(a[1].c_str()); Nest n(*this, atol(a[4].c_str()));
                std::string res = outcome(Rd(mkfile("osm", a[2], a[3]), n));
                fprintf(out, "READ %d\n%sENDREAD %d %s\n", id, n.out.c_str(), id, res.c_str()); fflush(out);
                ++nread;
            }
        }
    }
};
struct ScriptJob { Script& s; ScriptJob(Script& s) : s(s) {} void operator()() { s.run(); s.w.clear(); for (size_t i = 0; i < s.extra.size(); ++i) close(s.extra[i]); s.extra.clear(); } };

static void account(FILE* o, int i, const std::string& res) {
    int st; fkind.clear(); pid_t p = waitpid(-1, &st, WNOHANG);
    const char* ch = p < 0 ? "none" : p == 0 ? "running" : "zombie";
    struct mallinfo2 m = mallinfo2();
    fprintf(o, "ACC %d fds %d children %s heap %zu maps %d hits %d %d res %s\n", i, fds(), ch, m.uordblks + m.hblkhd, maps(), fhits[0], fhits[1], res.c_str()); fhits[0] = fhits[1] = 0; fflush(o);
}
int main(int argc, char** argv) {
    signal(SIGPIPE, SIG_IGN); fparent = getpid();
    fhits = static_cast<int*>(mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (argc > 1) {     // h10 SCRIPT RESULT LOWMASK
        int low = atoi(argv[3]);
        int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); int hi = fcntl(fd, F_DUPFD_CLOEXEC, 200); close(fd);
        FILE* o = fdopen(hi, "w");
        std::vector<args> ops = load(argv[1]);
        for (int i = 0; i < 3; ++i) if (low & (1 << i)) close(i);
        std::string res;
        account(o, -1, "start");
        for (int i = 0; i < 3; ++i) {
            Script* s = new Script; s->ops = ops; s->out = o; s->pos = 0; s->nread = 0;
            res = outcome(ScriptJob(*s));
            delete s;
            account(o, i, res);
        }
        fclose(o);
        _exit(0);
    }
    std::string l;
    while (std::getline(std::cin, l)) {
        args a = split(l, ' ');
        printf("BEGIN %s\n", l.c_str()); fflush(stdout);
        int reps = atoi(a[1].c_str()); args fault(1);
        if (a.back()[0] == '@') { fault = split(a.back().substr(1), ':'); a.pop_back(); }         // @KIND:NTH:ERRNO
        account(stdout, -1, "start");
        for (int i = 0; i < reps; ++i) {
            std::string res;
            if (fault.size() == 3) { fkind = fault[0]; fleft = atol(fault[1].c_str()); ferr = atoi(fault[2].c_str()); }
            { Job j(a); struct Call { Job& j; Call(Job& j) : j(j) {} void operator()() { try { j(); } catch (Stop&) { throw Other(); } } };
              res = outcome(Call(j)); }
            fkind.clear(); account(stdout, i, res);
        }
        int leak = 0;
#ifdef VP_LSAN
        leak = __lsan_do_recoverable_leak_check();
#endif
        printf("LEAK %d\n", leak);
        printf("END ok\n"); fflush(stdout);
    }
    fflush(stdout);
    _exit(0);
}
