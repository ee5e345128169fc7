// Memory and time while streams pass:  h32 TYPE ENC N SEED DIR CHAIN...      (N: nodes, ways and relations)
// A file is written and then read once per CHAIN. For every phase (type of object) memory in use is measured at regular distances.
// prints:  PHASE <what> <objects> <peak of each third of the phase in bytes over the start> <CPU microseconds of each third> <end>
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <osmium.hpp>
#include <osmium/output/pbf.hpp>
#include <osmium/output/xml.hpp>
#include <osmium/handler/coordinates_for_ways.hpp>
#include <osmium/handler/debug.hpp>
#include <osmium/handler/endtime.hpp>
#include <osmium/handler/find_bbox.hpp>
#include <osmium/handler/progress.hpp>
#include <osmium/handler/range_from_history.hpp>
#include <osmium/storage/byid/fixed_array.hpp>
#include <osmium/storage/byid/mmap_anon.hpp>
#include <osmium/storage/byid/mmap_file.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/byid/stl_map.hpp>
#include <osmium/storage/byid/vector.hpp>
#include <osmium/storage/objectstore.hpp>
#include <osmium/geometry/point.hpp>
#include <osmium/geometry/linestring.hpp>
#include <osmium/geometry/haversine.hpp>
#include <osmium/tags/key_filter.hpp>
#include <osmium/tags/to_string.hpp>
#include <osmium/utils/filter_and_accumulate.hpp>
#include <osmium/multipolygon/assembler.hpp>
#include <osmium/geometry/multipolygon.hpp>
#include "rec.hpp"
using namespace vp;
typedef Osmium::OSM::Position P; typedef shared_ptr<Osmium::OSM::Node const> NP; typedef shared_ptr<Osmium::OSM::Way const> WP; typedef shared_ptr<Osmium::OSM::Relation const> RP;

static long used() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
static long cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec * 1000000L + t.tv_nsec / 1000; }
// bytes of address space, without what the allocator has
static long vsize() { std::ifstream f("/proc/self/statm"); long v = 0; f >> v; struct mallinfo2 m = mallinfo2(); return v * 4096 - m.arena - m.hblkhd; }
static long tail;   // the last block of a type may hold the first objects of the next one
struct Phase {
    std::string what; long n, total, start, step, peak[3], t[4], events;
    void begin(const std::string& w, long tot) { what = w; total = tot; n = 0; start = used(); step = tot / 600 + 1; peak[0] = peak[1] = peak[2] = 0; t[0] = cpu(); t[1] = t[2] = t[3] = 0; }
    void tick() {
        ++n; int k = (n - 1) * 3 / total; if (k > 2) k = 2;
        if (n % step == 0 && n <= total - tail) { long u = used() - start; if (u > peak[k]) peak[k] = u; }
        if (n == total / 3) t[1] = cpu(); else if (n == total * 2 / 3) t[2] = cpu(); else if (n == total) t[3] = cpu();
    }
    void end() { printf("PHASE %s %ld %ld %ld %ld %ld %ld %ld %ld\n", what.c_str(), n, peak[0], peak[1], peak[2], t[1] - t[0], t[2] - t[1], t[3] - t[2], used() - start); fflush(stdout); }
};
static Phase ph; static long total[3]; static long started;
static void done(const std::string& w) { printf("DONE %s %ld\n", w.c_str(), used() - started); fflush(stdout); }
struct Meter : public Osmium::Handler::Base {
    std::string name; Meter(const std::string& n) : name(n) {}
    void before_nodes() { ph.begin(name + ":n", total[0]); } void after_nodes() { ph.end(); }
    void before_ways() { ph.begin(name + ":w", total[1]); } void after_ways() { ph.end(); }
    void before_relations() { ph.begin(name + ":r", total[2]); } void after_relations() { ph.end(); }
    void node(const NP&) { ph.tick(); } void way(const WP&) { ph.tick(); } void relation(const RP&) { ph.tick(); }
};
// ---------------------------------------------------------------- the objects
static uint64_t state; static uint32_t rnd(uint32_t n) { state = state * 6364136223846793005ULL + 1442695040888963407ULL; return (state >> 33) % n; }
static std::string text(uint32_t n) { char b[40]; snprintf(b, sizeof b, "%x\xc3\xa4%u", rnd(n), rnd(3)); return b; }
static void common(Osmium::OSM::Object& o, long id, int v, bool history) {
    o.id(id); o.version(v); o.changeset(1 + rnd(1000000)); o.timestamp(time_t(1000000000 + v * 1000 + rnd(900))); o.uid(1 + rnd(3000)); o.user(text(3000).c_str()); o.visible(!history || rnd(10) > 0);
    for (int k = rnd(5); k > 0; --k) o.tags().add((k == 3 ? std::string("name") : text(300)).c_str(), text(200000).c_str());
}
template <class T> static shared_ptr<T> fresh() { return make_shared<T>(); }
template <class H> void generate(H& h, long n, bool history, bool meter) {
    Osmium::OSM::Meta meta; meta.has_multiple_object_versions(history); h.init(meta);
    int vs = history ? 3 : 1;
    if (meter) ph.begin("write:n", total[0]);
    h.before_nodes();
    for (long i = 1; i <= n; ++i) for (int v = 1; v <= vs; ++v) { shared_ptr<Osmium::OSM::Node> o = fresh<Osmium::OSM::Node>(); common(*o, i, v, history); long q = (i - 1) / 4, c = (i - 1) % 4; o->position(P(int32_t((q % 3000) * 1000 + (c == 1 || c == 2) * 500), int32_t((q / 3000) * 1000 + (c > 1) * 500))); h.node(o); if (meter) ph.tick(); }
    h.after_nodes(); if (meter) { ph.end(); ph.begin("write:w", total[1]); }
    h.before_ways();
    for (long i = 1; i <= n; ++i) for (int v = 1; v <= vs; ++v) { shared_ptr<Osmium::OSM::Way> o = fresh<Osmium::OSM::Way>(); common(*o, i, v, history); for (int k = 0; k < 5; ++k) o->nodes().add(4 * ((i - 1) % (n / 4)) + 1 + k % 4); h.way(o); if (meter) ph.tick(); }
    h.after_ways(); if (meter) { ph.end(); ph.begin("write:r", total[2]); }
    h.before_relations();
    for (long i = 1; i <= n; ++i) for (int v = 1; v <= vs; ++v) {
        shared_ptr<Osmium::OSM::Relation> o = fresh<Osmium::OSM::Relation>(); common(*o, i, v, history); o->tags().add("type", "multipolygon"); o->tags().add("landuse", "forest");
        o->add_member('w', i, "outer"); if (rnd(4) == 0) o->add_member('w', i % (n / 4 * 4) + 1, "outer"); if (rnd(2)) o->add_member('n', i, ""); h.relation(o); if (meter) ph.tick();
    }
    h.after_relations(); if (meter) ph.end();
    h.final();
}
// ---------------------------------------------------------------- what is done with them
struct Geo : public Osmium::Handler::Base {
    std::stringstream s; double sum; Geo() : sum(0) {}
    void node(const NP& n) { Osmium::Geometry::Point p(*n); s.str(""); s << p.as_WKT() << p.as_HexWKB(true); }
    void way(const WP& w) { if (!w->nodes().has_position()) return; Osmium::Geometry::LineString l(*w); s.str(""); s << l.as_WKT() << l.as_WKB(); sum += Osmium::Geometry::Haversine::distance(w->nodes()); }
};
struct Tags : public Osmium::Handler::Base {
    Osmium::Tags::KeyFilter f; Osmium::Tags::TagToHStoreStringOp op; size_t sum; Tags() : f(true), sum(0) { f.add(false, "name"); }
    void all(const Osmium::OSM::Object& o) { sum += Osmium::filter_and_accumulate(o.tags(), f, std::string(), op).size(); }
    void node(const NP& o) { all(*o); } void way(const WP& o) { all(*o); } void relation(const RP& o) { all(*o); }
};
struct Last : public Osmium::Handler::Base {
    NP n[40]; WP w[40]; RP r[40]; long i; Last() : i(0) {}
    void node(const NP& o) { n[++i % 40] = o; } void way(const WP& o) { w[++i % 40] = o; } void relation(const RP& o) { r[++i % 40] = o; }
};
struct Keep : public Osmium::Handler::Base { Osmium::Storage::ObjectStore& s; Keep(Osmium::Storage::ObjectStore& s) : s(s) {} void node(const NP& o) { s.node(o); } void way(const WP& o) { s.way(o); } void relation(const RP& o) { s.relation(o); } };
struct Left : public Osmium::Handler::Base { long before, w, r; void before_ways() { w = used() - before; } void before_relations() { r = used() - before; } };
struct Areas : public Osmium::Handler::Base { long n; Areas() : n(0) {} void area(const shared_ptr<Osmium::OSM::Area const>& a) { ++n; if (n % 50 == 0) { Osmium::Geometry::MultiPolygon m(*a); std::ostringstream s; s << m.as_WKT(); } } };
struct Asm : public Osmium::Relations::Assembler<Asm, Osmium::Relations::RelationInfo, false, true, false> {
    typedef Osmium::Relations::Assembler<Asm, Osmium::Relations::RelationInfo, false, true, false> T; friend class T::HandlerPass1; friend class T::HandlerPass2; friend class Osmium::Relations::Assembler<Asm, Osmium::Relations::RelationInfo, false, true, false>;
    long n; Asm() : n(0) {} bool keep_member(Osmium::Relations::RelationInfo&, const Osmium::OSM::RelationMember& m) { return m.type() == 'w'; } void complete_relation(Osmium::Relations::RelationInfo&) { ++n; }
};
// the first pass of an assembler with a meter
template <class H> struct Passing { H& h; Meter m; Passing(H& h, const std::string& n) : h(h), m(n) {} 
    void init(Osmium::OSM::Meta& x) { h.init(x); } void before_nodes() { m.before_nodes(); h.before_nodes(); } void after_nodes() { m.after_nodes(); h.after_nodes(); } void before_ways() { m.before_ways(); h.before_ways(); } void after_ways() { m.after_ways(); h.after_ways(); }
    void before_relations() { m.before_relations(); h.before_relations(); } void after_relations() { m.after_relations(); h.after_relations(); }
    void node(const shared_ptr<Osmium::OSM::Node>& o) { h.node(o); m.node(o); } void way(const shared_ptr<Osmium::OSM::Way>& o) { h.way(o); m.way(o); } void relation(const shared_ptr<Osmium::OSM::Relation>& o) { h.relation(o); m.relation(o); } void area(const shared_ptr<Osmium::OSM::Area const>&) {} void final() { h.final(); } };
template <class H> void run(const Osmium::OSMFile& file, H& h, const std::string& name) { Passing<H> p(h, name); Osmium::Input::read(file, p); }
template <class S> void coords(const Osmium::OSMFile& file, const std::string& name) {
    long before = used(), mapped = vsize(); S s; typedef Osmium::Storage::ById::StlMap<P> M; M m; typedef Osmium::Handler::CoordinatesForWays<S, M> C; C c(s, m); Geo g; { Osmium::Handler::Sequence<C, Geo> q(c, g); run(file, q, name); }
    long full = used() - before, fmapped = vsize() - mapped; s.clear(); printf("CLEARED %s %ld %ld %ld %ld\n", name.c_str(), full, used() - before, fmapped, vsize() - mapped);
}
static void chain(const std::string& c, const Osmium::OSMFile& file, const std::string& dir, bool history) {
    using namespace Osmium::Storage::ById;
    if (c == "null") { Osmium::Handler::Base b; run(file, b, c); }
    else if (c == "debug") { std::ofstream null("/dev/null"); std::streambuf* old = std::cout.rdbuf(null.rdbuf()); { Osmium::Handler::Debug d(history); run(file, d, c); } std::cout.rdbuf(old); }
    else if (c == "progress") { Osmium::Handler::Progress d; run(file, d, c); }
    else if (c == "bbox") { Osmium::Handler::FindBbox d; run(file, d, c); }
    else if (c == "geom") { Geo d; run(file, d, c); }
    else if (c == "tags") { Tags d; run(file, d, c); }
    else if (c == "last") { Last d; run(file, d, c); }
    else if (c == "endtime") { Tags t; Osmium::Handler::RangeFromHistory<Tags> f(t, 1000001500, 1000002500); Osmium::Handler::EndTime<Osmium::Handler::RangeFromHistory<Tags> > e(f); run(file, e, c); }
    else if (c.compare(0, 4, "out.") == 0) { Osmium::OSMFile of(dir + "/o" + c.substr(3)); Osmium::Output::Handler out(of); run(file, out, c); }
    else if (c == "vector") coords<Vector<P> >(file, c); else if (c == "sparse") coords<SparseTable<P> >(file, c); else if (c == "anon") coords<MmapAnon<P> >(file, c); else if (c == "file") coords<MmapFile<P> >(file, c);
    else if (c == "merge") { Osmium::Storage::ObjectStore os; for (int i = 1; i < 200; i += 3) { shared_ptr<Osmium::OSM::Node> n = fresh<Osmium::OSM::Node>(); common(*n, i * 97, 9, false); os.node(n); } Tags t; std::set<std::pair<int, int> > dummy; Osmium::OSM::Meta m; Osmium::Storage::ObjectStore::ApplyHandler<Tags> h(os, t, m); run(file, h, c); }
    else if (c == "fixed") { long before = used(); { Osmium::Storage::ById::FixedArray<P> s(total[0] + 1); typedef StlMap<P> M; M m; typedef Osmium::Handler::CoordinatesForWays<FixedArray<P>, M> C; C co(s, m); Geo g; Osmium::Handler::Sequence<C, Geo> q(co, g);
        run(file, q, c); long full = used() - before; s.clear(); printf("CLEARED fixed %ld %ld 0 0\n", full, used() - before); } }
    else if (c == "objects") {
        long before = used(); Osmium::Storage::ObjectStore os; Keep k(os); Osmium::Input::read(file, k); long full = used() - before; Left l; Osmium::OSM::Meta m; l.before = before; os.feed_to(&l, m); printf("CLEARED objects %ld %ld 0 0\nLEFT objects %ld %ld %ld\n", full, used() - before, full, l.w, l.r);
    }
    else if (c == "assemble") { Asm a; { Passing<Asm::HandlerPass1> p(a.handler_pass1(), c + "1"); Osmium::Input::read(file, p); } { Passing<Asm::HandlerPass2> p(a.handler_pass2(), c + "2"); Osmium::Input::read(file, p); } printf("COMPLETE %ld\n", a.n); }
    else if (c == "multi") {
        Areas r; typedef Osmium::MultiPolygon::Assembler<Areas> MA; MA m(r, true); { Passing<MA::HandlerPass1> p(m.handler_pass1(), c + "1"); Osmium::Input::read(file, p); }
        typedef StlMap<P> M; M neg; typedef SparseTable<P> S; S s; typedef Osmium::Handler::CoordinatesForWays<S, M> C; C co(s, neg); typedef Osmium::Handler::Sequence<C, MA::HandlerPass2> Q; Q q(co, m.handler_pass2());
        run(file, q, c + "2"); printf("COMPLETE %ld\n", r.n);
    }
}
int main(int argc, char** argv) {
    std::string type = argv[1], enc = argv[2], dir = argv[5]; long n = atol(argv[3]); state = atol(argv[4]) * 2862933555777941757ULL + 3037000493ULL; bool history = type == "osh";
    total[0] = n * (history ? 3 : 1); total[1] = total[2] = total[0];
    tail = enc == ".pbf" || argc < 7 || strstr(argv[6], "pbf") ? 8000 : 0;
    std::string path = dir + "/f." + type + enc; 
    try {
        { started = used(); Osmium::OSMFile f(path); Osmium::Output::Handler out(f); generate(out, n, history, true); }
        done("write");
        for (int i = 6; i < argc; ++i) { started = used(); { Osmium::OSMFile f(path); chain(argv[i], f, dir, history); } done(argv[i]); }
    } catch (std::exception& e) { printf("EXCEPTION %s\n", e.what()); return 3; }
    printf("OK\n"); return 0;
}
