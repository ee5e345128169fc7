// Callback bracketing: handlers of many shapes over the readers; all leaves write into one log.
//   run SHAPE TYPE ENC STOPS PATH      STOPS: "-" or leaf:event:how[,...]
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include "rec.hpp"
using namespace vp;

static std::string g_log;
static long g_events = 0;

struct Core {                      // what every leaf does on an event
    char name; long count; std::vector<std::pair<long, int> > stops;
    Core() : name('0'), count(0) {}
    void ev(const std::string& s) {
        g_log += name; g_log += ' '; g_log += s; g_log += '\n'; ++g_events;
        long c = count++;
        for (size_t i = 0; i < stops.size(); ++i) if (stops[i].first == c) {
            if (stops[i].second == 1) throw Osmium::Handler::StopReading();
            throw Other();
        }
    }
};
template <int MASK> struct Brackets : public Osmium::Handler::Base {
    Core c;
    void init(Osmium::OSM::Meta& m) { c.ev(line(m)); }
    void before_nodes() { c.ev("BN"); }
    void after_nodes() { c.ev("AN"); }
    void before_ways() { c.ev("BW"); }
    void after_ways() { c.ev("AW"); }
    void before_relations() { c.ev("BR"); }
    void after_relations() { c.ev("AR"); }
    void final() { c.ev("F"); }
};
struct L0 : public Brackets<0> {};
struct LN : public Brackets<1> { void node(const shared_ptr<Osmium::OSM::Node const>& o) { c.ev(line(*o)); } };
struct LW : public Brackets<2> { void way(const shared_ptr<Osmium::OSM::Way const>& o) { c.ev(line(*o)); } };
struct LR : public Brackets<4> { void relation(const shared_ptr<Osmium::OSM::Relation const>& o) { c.ev(line(*o)); } };
struct LA : public Brackets<7> {
    void node(const shared_ptr<Osmium::OSM::Node const>& o) { c.ev(line(*o)); }
    void way(const shared_ptr<Osmium::OSM::Way const>& o) { c.ev(line(*o)); }
    void relation(const shared_ptr<Osmium::OSM::Relation const>& o) { c.ev(line(*o)); }
};
struct Objs : public Osmium::Handler::Base {   // only objects
    Core c;
    void node(const shared_ptr<Osmium::OSM::Node const>& o) { c.ev(line(*o)); }
    void way(const shared_ptr<Osmium::OSM::Way const>& o) { c.ev(line(*o)); }
    void relation(const shared_ptr<Osmium::OSM::Relation const>& o) { c.ev(line(*o)); }
};
template <class H> struct DropWays : public Osmium::Handler::Forward<H> {   // a user's forwarder
    DropWays(H& h) : Osmium::Handler::Forward<H>(h) {}
    void way(const shared_ptr<Osmium::OSM::Way>&) const {}
};
typedef std::vector<std::string> args;
static void set(Core& c, char name, const std::string& stops) {
    c.name = name;
    if (stops == "-") return;
    args s = split(stops, ',');
    for (size_t i = 0; i < s.size(); ++i) { args p = split(s[i], ':'); if (p[0][0] == name) c.stops.push_back(std::make_pair(atol(p[1].c_str()), atoi(p[2].c_str()))); }
}
template <class H> struct Read { const args& a; H& h; Read(const args& a, H& h) : a(a), h(h) {}
    void operator()() { Osmium::OSMFile f = mkfile(a[2], a[3], a[5]); Osmium::Input::read(f, h); } };
template <class H> std::string rd(const args& a, H& h) { return outcome(Read<H>(a, h)); }
template <class L> std::string leaf(const args& a) { L l; set(l.c, '0', a[4]); return rd(a, l); }

using Osmium::Handler::Forward; using Osmium::Handler::Sequence;
static std::string job(const args& a) {
    const std::string& s = a[1];
    if (s == "all") return leaf<LA>(a);
    if (s == "nodes") return leaf<LN>(a);
    if (s == "ways") return leaf<LW>(a);
    if (s == "relations") return leaf<LR>(a);
    if (s == "none") return leaf<L0>(a);
    if (s == "objects") return leaf<Objs>(a);
    LA x[4]; for (int i = 0; i < 4; ++i) set(x[i].c, '0' + i, a[4]);
    if (s == "fwd") { Forward<LA> f(x[0]); return rd(a, f); }
    if (s == "fwd3") { typedef Forward<LA> F1; typedef Forward<F1> F2; typedef Forward<F2> F3; F1 f(x[0]); F2 g(f); F3 h(g); return rd(a, h); }
    if (s == "drop") { DropWays<LA> f(x[0]); return rd(a, f); }
    if (s == "seq") { Sequence<LA, LA> q(x[0], x[1]); return rd(a, q); }
    if (s == "seqfwd") { typedef Forward<LA> F; F f(x[0]); Sequence<F, LA> q(f, x[1]); return rd(a, q); }
    if (s == "tree") {
        typedef Sequence<LA, LA> S; typedef Forward<S> F; S p(x[0], x[1]); S q(x[2], x[3]); F f(q);
        Sequence<S, F> t(p, f); return rd(a, t);
    }
    if (s == "right") {
        typedef Sequence<LA, LA> S2; typedef Sequence<LA, S2> S3; S2 p(x[2], x[3]); S3 q(x[1], p);
        Sequence<LA, S3> t(x[0], q); Forward<Sequence<LA, S3> > f(t); return rd(a, f);
    }
    return "badjob";
}
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        args a = split(l, ' ');
        printf("BEGIN %s\n", l.c_str()); fflush(stdout);
        g_log.clear();
        std::string res = job(a);
        fwrite(g_log.data(), 1, g_log.size(), stdout);
        printf("END %s\n", res.c_str()); fflush(stdout);
    }
    return 0;
}
