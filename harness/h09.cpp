// Writing with injected faults.
//   w FAULT SIGPIPE TYPE ENC OPTS PATH MODEL
// FAULT: none | fsize:N | eio:N | enospc:N | once:K | short:SEED:MAX | close:K | eintr:K
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/output/pbf.hpp>
#include <osmium/output/xml.hpp>
#include "rec.hpp"
#include <fstream>
#include <signal.h>
#include <sys/resource.h>
#include <sys/syscall.h>
using namespace vp;

namespace fault { static int kind = 0; static long n = 0, seed = 1, fired = 0, total = 0, calls = 0, closes = 0; }
static long rnd() { fault::seed = (fault::seed * 1103515245 + 12345) & 0x7fffffff; return fault::seed >> 8; }
extern "C" ssize_t write(int fd, const void* buf, size_t len) {
    using namespace fault;
    if (fd > 2) ++calls;
    if (fd > 2 && kind) {
        if ((kind == 1 || kind == 2) && total + long(len) > n) {
            if (n > total) { ssize_t r = syscall(SYS_write, fd, buf, size_t(n - total)); if (r > 0) total += r; return r; }
            ++fired; errno = kind == 1 ? EIO : ENOSPC; return -1;
        }
        if (kind == 3 && calls == n) { ++fired; errno = ENOSPC; return -1; }
        if (kind == 6 && calls == n) { ++fired; errno = EINTR; return -1; }
        if (kind == 4 && len > 1) { size_t m = 1 + rnd() % n; if (m < len) { len = m; ++fired; } }
    }
    ssize_t r = syscall(SYS_write, fd, buf, len);
    if (fd > 2 && r > 0) total += r;
    return r;
}
extern "C" int close(int fd) {
    using namespace fault;
    int r = syscall(SYS_close, fd);
    if (kind == 5 && fd > 2 && r == 0 && ++closes == n) { ++fired; errno = EIO; return -1; }
    return r;
}
static void setup(const std::string& f) {
    using namespace fault;
    kind = 0; fired = total = calls = closes = 0;
    std::vector<std::string> p = split(f, ':');
    if (p[0] == "fsize") {
        struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = atol(p[1].c_str()); setrlimit(RLIMIT_FSIZE, &l); signal(SIGXFSZ, SIG_IGN);
        return;
    }
    static const char* names[] = { "none", "eio", "enospc", "once", "short", "close", "eintr" };
    for (int i = 0; i < 7; ++i) if (p[0] == names[i]) kind = i;
    if (kind == 4) { seed = atol(p[1].c_str()); n = atol(p[2].c_str()); }
    else if (kind) n = atol(p[1].c_str());
}
static void clear() {
    struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = l.rlim_max; setrlimit(RLIMIT_FSIZE, &l);
    fault::kind = 0;
}
struct Write { const std::vector<std::string>& a; bool& finished; Write(const std::vector<std::string>& a, bool& f) : a(a), finished(f) {}
    template <class H> void feed(H& out) {
        std::ifstream in(a[7].c_str());
        std::string l;
        while (std::getline(in, l)) {
            std::vector<std::string> f = split(l, '\t');
            if (f[0] == "I") { Osmium::OSM::Meta m; set_meta(m, f); out.init(m); }
            else if (f[0] == "N") { shared_ptr<Osmium::OSM::Node> n = make_node(f); out.node(n); }
            else if (f[0] == "W") { shared_ptr<Osmium::OSM::Way> n = make_way(f); out.way(n); }
            else if (f[0] == "R") { shared_ptr<Osmium::OSM::Relation> n = make_relation(f); out.relation(n); }
            else if (f[0] == "BN") out.before_nodes(); else if (f[0] == "AN") out.after_nodes();
            else if (f[0] == "BW") out.before_ways(); else if (f[0] == "AW") out.after_ways();
            else if (f[0] == "BR") out.before_relations(); else if (f[0] == "AR") out.after_relations();
            else if (f[0] == "F") { out.final(); finished = true; }
        }
    }
    void operator()() {
        Osmium::OSMFile f = mkfile(a[3], a[4], a[6]);
        if (a[5] == "conv") { Osmium::OSMFile in(a[7]); Osmium::Output::Handler out(f); Osmium::Input::read(in, out); finished = true; }
        else if (a[5] == "-") { Osmium::Output::Handler out(f); feed(out); }
        else {
            shared_ptr<Osmium::Output::PBF> outp(new Osmium::Output::PBF(f)); Osmium::Output::PBF& out = *outp;
            out.use_compression(a[5].find('z') != std::string::npos); out.use_dense_format(a[5].find('d') != std::string::npos);
            feed(out);
        }
    } };
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        std::vector<std::string> a = split(l, ' ');
        printf("BEGIN %s\n", l.c_str()); fflush(stdout);
        bool finished = false;
        signal(SIGPIPE, a[2] == "ign" ? SIG_IGN : SIG_DFL);
        setup(a[1]);
        std::string res = outcome(Write(a, finished));
        long fired = fault::fired, calls = fault::calls;
        clear();
        printf("FIRED %ld CALLS %ld FINAL %d\n", fired, calls, finished ? 1 : 0);
        printf("END %s\n", res.c_str()); fflush(stdout);
    }
    return 0;
}
