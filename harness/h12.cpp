// Handler stacks: coordinates for ways, end times and ranges of history, object store and merging.
//   coords POSSTORE NEGSTORE SRC         -> trace of what comes out (twice the way objects if SRC starts with @)
//   endtime SRC | range FROM TO SRC
//   order SRC                            -> objects; checks operator< on all triples
//   feed CLEAR OPS SRC                   -> feed_to() of a store filled from SRC
//   merge STORESRC SRC
// SRC: "m:PATH" lines of a model file fed directly, "f:TYPE:ENC:PATH" a file read by the library.
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/handler/coordinates_for_ways.hpp>
#include <osmium/handler/endtime.hpp>
#include <osmium/handler/range_from_history.hpp>
#include <osmium/storage/byid/fixed_array.hpp>
#include <osmium/storage/byid/mmap_anon.hpp>
#include <osmium/storage/byid/mmap_file.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/byid/stl_map.hpp>
#include <osmium/storage/byid/vector.hpp>
#include <osmium/storage/objectstore.hpp>
#include "rec.hpp"
#include <fstream>
using namespace vp;
using namespace Osmium::Storage::ById;
typedef Osmium::OSM::Position P;
typedef std::vector<std::string> args;

template <class H> void feed(H& out, const std::string& model) {
    std::ifstream in(model.c_str());
    std::string l;
    while (std::getline(in, l)) {
        args f = split(l, '\t');
        if (f[0] == "I") { Osmium::OSM::Meta m; set_meta(m, f); out.init(m); }
        else if (f[0] == "N") { shared_ptr<Osmium::OSM::Node> n = make_node(f); out.node(n); }
        else if (f[0] == "W") { shared_ptr<Osmium::OSM::Way> n = make_way(f); out.way(n); }
        else if (f[0] == "R") { shared_ptr<Osmium::OSM::Relation> n = make_relation(f); out.relation(n); }
        else if (f[0] == "BN") out.before_nodes(); else if (f[0] == "AN") out.after_nodes();
        else if (f[0] == "BW") out.before_ways(); else if (f[0] == "AW") out.after_ways();
        else if (f[0] == "BR") out.before_relations(); else if (f[0] == "AR") out.after_relations();
        else if (f[0] == "F") out.final();
    }
}
// the store handler takes no init() etc. from us when fed directly
template <class H> void source(const std::string& s, H& h) {
    if (s.find('|') != std::string::npos) { args a = split(s, '|'); for (size_t i = 0; i < a.size(); ++i) source(a[i], h); return; }   // one after the other into the same handler
    if (s[0] == 'm') feed(h, s.substr(2));
    else {
        args a = split(s, ':');
        std::string path = a[3];
        Osmium::Input::read(mkfile(a[1], a[2], path), h);
    }
}
static shared_ptr<Base<P> > store(const std::string& k) {
    if (k == "fixed") return shared_ptr<Base<P> >(new FixedArray<P>(20000));
    if (k == "anon") return shared_ptr<Base<P> >(new MmapAnon<P>());
    if (k == "file") return shared_ptr<Base<P> >(new MmapFile<P>());
    if (k == "sparse") return shared_ptr<Base<P> >(new SparseTable<P>());
    if (k == "map") return shared_ptr<Base<P> >(new StlMap<P>());
    return shared_ptr<Base<P> >(new Vector<P>());
}
struct Way3 : public Recorder {     // records ways, and again at the very end
    std::vector<shared_ptr<Osmium::OSM::Way const> > ways;
    void way(const shared_ptr<Osmium::OSM::Way const>& w) { Recorder::way(w); ways.push_back(w); }
};
template <class A, class B> void coords_with(A& a, B& b, const std::string& src) {
    Osmium::Handler::CoordinatesForWays<A, B> c(a, b);
    Way3 r;
    Osmium::Handler::Sequence<Osmium::Handler::CoordinatesForWays<A, B>, Way3> s(c, r);
    source(src, s);
    fwrite(r.out.data(), 1, r.out.size(), stdout);
    for (size_t i = 0; i < r.ways.size(); ++i) for (Osmium::OSM::WayNodeList::const_iterator it = r.ways[i]->nodes().begin(); it != r.ways[i]->nodes().end(); ++it) {
        // get_node_pos() tells the position known at the end
        P p = c.get_node_pos(it->ref());
        printf("G %lld %d %d\n", (long long)it->ref(), p.x(), p.y());
    }
}
static void coords(const args& a) {
    if (a[1] == "SPARSE") { SparseTable<P> s, t; coords_with(s, t, a[3]); return; }     // types known statically
    if (a[1] == "VECTOR") { Vector<P> s; StlMap<P> t; coords_with(s, t, a[3]); return; }
    if (a[1] == "ANON") { MmapAnon<P> s; SparseTable<P> t; coords_with(s, t, a[3]); return; }
    shared_ptr<Base<P> > s = store(a[1]), t = store(a[2]);
    coords_with(*s, *t, a[3]);
}
struct Collect : public Osmium::Handler::Base {
    std::vector<shared_ptr<Osmium::OSM::Node const> > n; std::vector<shared_ptr<Osmium::OSM::Way const> > w; std::vector<shared_ptr<Osmium::OSM::Relation const> > r;
    void node(const shared_ptr<Osmium::OSM::Node const>& o) { n.push_back(o); }
    void way(const shared_ptr<Osmium::OSM::Way const>& o) { w.push_back(o); }
    void relation(const shared_ptr<Osmium::OSM::Relation const>& o) { r.push_back(o); }
};
template <class T> void order1(const std::vector<shared_ptr<T const> >& v, const char* what) {
    size_t n = v.size(); long pairs = 0, triples = 0;
    std::vector<std::vector<char> > lt(n, std::vector<char>(n));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        bool l = *v[i] < *v[j]; lt[i][j] = l; ++pairs;
        if (l != (v[i] < v[j])) printf("BAD pointer-order %s %lld %lld\n", what, (long long)v[i]->id(), (long long)v[j]->id());
    }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        long long a = v[i]->id(), b = v[j]->id(), va = v[i]->version(), vb = v[j]->version();
        bool same = a == b && va == vb;
        if (same && lt[i][j]) printf("BAD irreflexive %s %lld %lld\n", what, a, va);
        if (!same && lt[i][j] == lt[j][i]) printf("BAD told-apart %s %lld v%lld, %lld v%lld: %d %d\n", what, a, va, b, vb, lt[i][j], lt[j][i]);
        if (std::llabs(a) < std::llabs(b) && !lt[i][j]) printf("BAD absolute-id %s %lld %lld\n", what, a, b);
        if (a == b && va < vb && !lt[i][j]) printf("BAD version %s %lld v%lld v%lld\n", what, a, va, vb);
        for (size_t k = 0; k < n; ++k) { ++triples; if (lt[i][j] && lt[j][k] && !lt[i][k]) printf("BAD transitive %s %lld v%lld, %lld v%lld, %lld v%lld\n", what, a, va, b, vb, (long long)v[k]->id(), (long long)v[k]->version()); }
    }
    printf("C pairs %ld triples %ld\n", pairs, triples);
}
struct Fill {   // fills an object store from a source
    Osmium::Storage::ObjectStore& s; Fill(Osmium::Storage::ObjectStore& s) : s(s) {}
    void init(Osmium::OSM::Meta&) {} void before_nodes() {} void after_nodes() {} void before_ways() {} void after_ways() {} void before_relations() {} void after_relations() {} void final() {}
    void node(const shared_ptr<Osmium::OSM::Node const>& o) { s.node(o); }
    void way(const shared_ptr<Osmium::OSM::Way const>& o) { s.way(o); }
    void relation(const shared_ptr<Osmium::OSM::Relation const>& o) { s.relation(o); }
};
struct Job { const args& a; Job(const args& a) : a(a) {}
    void put(const Recorder& r) { fwrite(r.out.data(), 1, r.out.size(), stdout); }
    void operator()() {
        if (a[0] == "coords") coords(a);
        else if (a[0] == "endtime") { Recorder r; Osmium::Handler::EndTime<Recorder> h(r); source(a[1], h); put(r); }
        else if (a[0] == "range") {
            Recorder r; Osmium::Handler::RangeFromHistory<Recorder> f(r, atoll(a[1].c_str()), atoll(a[2].c_str()));
            Osmium::Handler::EndTime<Osmium::Handler::RangeFromHistory<Recorder> > h(f); source(a[3], h); put(r);
        } else if (a[0] == "order") { Collect c; source(a[1], c); order1(c.n, "node"); order1(c.w, "way"); order1(c.r, "relation"); }
        else if (a[0] == "feed") {
            Osmium::Storage::ObjectStore os; Fill f(os); source(a[3], f);
            Osmium::OSM::Meta m; m.generator("the meta"); m.has_multiple_object_versions(true); m.bounds().extend(P(1, 2)).extend(P(30, 40));
            for (size_t i = 0; i < a[2].size(); ++i) switch (a[2][i]) {
                case 'n': os.clear_nodes(); break; case 'w': os.clear_ways(); break; case 'r': os.clear_relations(); break; case 'c': os.clear(); break;
                case 'f': { Recorder r; os.feed_to(&r, m, false); put(r); break; }
                case 'F': { Recorder r; os.feed_to(&r, m); put(r); break; }
                case 's': source(a[3], f); break;
            }
            if (a[1] == "1") { Recorder r; os.feed_to(&r, m, true); put(r); }
        } else if (a[0] == "merge") {   // merge STORESRC SRC STOP HOW
            Osmium::Storage::ObjectStore os; Fill f(os); source(a[1], f);
            Osmium::OSM::Meta m; m.generator("the meta"); m.has_multiple_object_versions(true); m.bounds().extend(P(1, 2)).extend(P(30, 40));
            Recorder r; if (a.size() > 3) { r.stop_at = atol(a[3].c_str()); r.stop_how = atoi(a[4].c_str()); }
            Osmium::Storage::ObjectStore::ApplyHandler<Recorder> h(os, r, m); 
            try { source(a[2], h); } catch (...) { put(r); throw; }
            put(r);
        } else if (a[0] == "history") { // merge into a history, then end times, then a range
            Osmium::Storage::ObjectStore os; Fill f(os); source(a[1], f);
            Osmium::OSM::Meta m; m.generator("the meta"); m.has_multiple_object_versions(true); m.bounds().extend(P(1, 2)).extend(P(30, 40));
            Recorder r; Osmium::Handler::Forward<Recorder> fw(r); Osmium::Handler::Forward<Osmium::Handler::Forward<Recorder> > fw2(fw);
            source(a[2], fw2); put(r);
        }
    } };
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        args a = split(l, ' ');
        printf("BEGIN %s\n", l.c_str()); fflush(stdout);
        std::string res = outcome(Job(a));
        printf("END %s\n", res.c_str()); fflush(stdout);
    }
    fflush(stdout);
    return 0;
}
