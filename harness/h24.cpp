// Several threads, each with its own objects.   h24 seq|par SEED REPEAT < jobs      one job per line, one thread per job in "par"
//   R TYPE ENC PATH | W TYPE ENC OUT MODEL | C TYPE ENC PATH OUT TYPE ENC | X PATH | E PATH | T SEED N | G SEED N | F SEED N | D SEED N | S SEED N
// prints JOB i, result lines, and the order of the steps of all threads (ORDER hash, switches)
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/output/pbf.hpp>
#include <osmium/output/xml.hpp>
#include <osmium/geometry/point.hpp>
#include <osmium/geometry/linestring.hpp>
#include <osmium/geometry/polygon.hpp>
#include <osmium/geometry/haversine.hpp>
#include <osmium/handler/coordinates_for_ways.hpp>
#include <osmium/handler/endtime.hpp>
#include <osmium/handler/find_bbox.hpp>
#include <osmium/storage/byid/fixed_array.hpp>
#include <osmium/storage/byid/mmap_anon.hpp>
#include <osmium/storage/byid/mmap_file.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/byid/stl_map.hpp>
#include <osmium/storage/byid/vector.hpp>
#include <osmium/storage/objectstore.hpp>
#include <osmium/tags/key_filter.hpp>
#include <osmium/tags/key_value_filter.hpp>
#include <osmium/tags/regex_filter.hpp>
#include <osmium/tags/to_string.hpp>
#include <osmium/utils/filter_and_accumulate.hpp>
#include <osmium/utils/timestamp.hpp>
#include <osmium/handler/debug.hpp>
#include <osmium/multipolygon/assembler.hpp>
#include <osmium/geometry/multipolygon.hpp>
#include <osmium/geometry/shplib.hpp>
#include <osmium/export/shapefile.hpp>
#include <osmium/export/csv.hpp>
#include <osmium/relations/assembler.hpp>
#include "rec.hpp"
#include <atomic>
#include <fstream>
#include <thread>
#include <sched.h>
#include <unistd.h>
using namespace vp;
typedef std::vector<std::string> args;
typedef uint64_t u64;
static bool par = false;
static std::atomic<u64> steps(0);
struct Th { u64 rs; std::vector<u64> order; bool wait; 
    u64 rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; } u64 rnd(u64 n) { return rnd() % n; } };
static thread_local Th* me;
static thread_local u64 delay = 88172645463325252ull;
// a step of a thread: note the time, sometimes give way to others
static void step() {
    if (!par) return;
    me->order.push_back(steps.fetch_add(1, std::memory_order_relaxed));
    delay ^= delay << 13; delay ^= delay >> 7; delay ^= delay << 17;
    if (delay % 16 == 0) sched_yield(); else if (delay % 256 == 1) usleep(delay / 256 % 200);
}
struct YRec : public Recorder {
    long n; YRec() : n(0) {}
    void init(Osmium::OSM::Meta& m) { step(); Recorder::init(m); }
    void node(const shared_ptr<Osmium::OSM::Node const>& n) { step(); Recorder::node(n); }
    void way(const shared_ptr<Osmium::OSM::Way const>& n) { step(); Recorder::way(n); }
    void relation(const shared_ptr<Osmium::OSM::Relation const>& n) { step(); Recorder::relation(n); }
    void final() { step(); Recorder::final(); }
};
template <class H> void feed(H& out, const std::string& model) {
    std::ifstream in(model.c_str());
    std::string l;
    while (std::getline(in, l)) {
        step();
        args f = split(l, '\t');
        if (f[0] == "I") { Osmium::OSM::Meta m; set_meta(m, f); out.init(m); }
        else if (f[0] == "N") { shared_ptr<Osmium::OSM::Node> n = make_node(f); out.node(n); }
        else if (f[0] == "W") { shared_ptr<Osmium::OSM::Way> n = make_way(f); out.way(n); }
        else if (f[0] == "R") { shared_ptr<Osmium::OSM::Relation> n = make_relation(f); out.relation(n); }
        else if (f[0] == "BN") out.before_nodes(); else if (f[0] == "AN") out.after_nodes();
        else if (f[0] == "BW") out.before_ways(); else if (f[0] == "AW") out.after_ways();
        else if (f[0] == "BR") out.before_relations(); else if (f[0] == "AR") out.after_relations();
        else if (f[0] == "F") out.final();
    }
}
struct WayGeom : public Osmium::Handler::Base {
    std::string out;
    void way(const shared_ptr<Osmium::OSM::Way const>& w) {
        step(); std::ostringstream s;
        Osmium::Geometry::LineString l(*w); s << l.as_WKT(true) << ' ' << l.as_HexWKB() << ' ';
        try { Osmium::Geometry::Polygon p(*w); s << p.as_WKT(); } catch (Osmium::Geometry::RingNotClosed&) { s << "open"; }
        s << ' ' << Osmium::Geometry::Haversine::distance(w->nodes());
        out += s.str() + "\n";
    }
};
static std::string text(Th& t) { static const char* const W[] = {"highway", "name", "primary", "a", "Ä", "\"q\"", "b\\c", "", "x,y", "building"}; std::string s = W[t.rnd(10)]; if (t.rnd(3) == 0) s += W[t.rnd(10)]; return s; }
template <class S> void store(Th& t, std::string& o, int n, u64 max) {
    S s; u64 h = 0;
    for (int i = 0; i < n; ++i) { u64 id = t.rnd(max); if (i % 64 == 0) step(); s.set(id, Osmium::OSM::Position(int32_t(t.rnd(1000000)), int32_t(i))); h = h * 31 + s[id].x() + s[t.rnd(max)].y(); }
    char b[60]; snprintf(b, sizeof b, "store %llx\n", (unsigned long long)h); o += b;
    s.clear();
}
struct Areas : public Osmium::Handler::Base {
    std::string& o; Areas(std::string& o) : o(o) {}
    void area(const shared_ptr<Osmium::OSM::Area const>& a) {
        step(); std::ostringstream s; s << a->id() << ' ' << a->tags().size() << ' ';
        try { Osmium::Geometry::MultiPolygon m(*a); s << m.as_WKT() << m.as_HexWKB(true); } catch (Osmium::Geometry::GeometryException&) { s << "none"; } catch (geos::util::GEOSException&) { s << "GEOS"; }
        o += s.str() + "\n";
    }
};
static std::string bytes(const std::string& p) { std::ifstream f(p.c_str(), std::ios::binary); std::ostringstream s; s << f.rdbuf(); return esc(s.str()); }
// the accessors of objects, lists and boxes
static void objects(Th& t, std::string& o, int n) {
    char k[40], b[200];
    for (int i = 0; i < n; ++i) {
        if (i % 4 == 0) step();
        Osmium::OSM::TagList l; int m = t.rnd(t.rnd(4) ? 6 : 40);
        for (int j = 0; j < m; ++j) { sprintf(k, "k%d", int(t.rnd(m + 2))); char v[20]; sprintf(v, "v%d", j); l.add(k, v); }
        for (int j = 0; j < 2 * m + 2; ++j) { sprintf(k, "k%d", int(t.rnd(m + 3))); const char* v = l.get_value_by_key(k); o += v ? v : "-"; o += ','; }
        for (int j = 0; j < m; ++j) { o += l[j].key(); o += l[j].value(); }
        shared_ptr<Osmium::OSM::Way> w(new Osmium::OSM::Way(5)); w->tags(l); w->id(int64_t(t.rnd(1000)) - 500); w->version(t.rnd(9)); w->timestamp(time_t(t.rnd(2000000000)) + 1); w->endtime(time_t(t.rnd(2000000000)));
        sprintf(k, "user %d", int(t.rnd(99))); w->user(k); w->set_attribute("uid", "123"); w->set_attribute("visible", t.rnd(2) ? "true" : "false"); w->set_attribute("timestamp", w->timestamp_as_string().c_str());
        int z = t.rnd(30); for (int j = 0; j < z; ++j) { w->nodes().add(Osmium::OSM::WayNode(t.rnd(20), Osmium::OSM::Position(int32_t(t.rnd(3600000000u) - 1800000000), int32_t(t.rnd(1800000000) - 900000000)))); }
        Osmium::OSM::Bounds bb; for (int j = 0; j < z; ++j) bb.extend(w->nodes()[j].position());
        std::ostringstream s; s << bb << ' ' << w->nodes().is_closed() << ' ' << w->nodes().has_position() << ' ' << (z ? w->get_node_id(0) : 0);
        Osmium::OSM::Relation r; int q = t.rnd(30); for (int j = 0; j < q; ++j) { sprintf(k, "role%d", int(t.rnd(5))); r.add_member("nwr"[t.rnd(3)], t.rnd(1000), k); }
        for (int j = 0; j < q; ++j) s << r.get_member(j)->role() << r.get_member(j)->type_name() << r.get_member(j)->ref();
        Osmium::OSM::Way w2(*w); w2.version(t.rnd(9)); s << (w2 < *w) << (*w < w2) << ' ' << w->timestamp_as_string() << w->endtime_as_string() << w->user() << w->visible();
        if (z > 1) s << Osmium::Geometry::Haversine::distance(w->nodes());
        
        Osmium::Delta<int64_t> d; for (int j = 0; j < 5; ++j) s << ' ' << d.update(t.rnd(1000));
        snprintf(b, sizeof b, " %s\n", s.str().c_str()); o += s.str() + "\n";
    }
}
struct Job { const args& a; std::string& o; Th& t; Job(const args& a, std::string& o, Th& t) : a(a), o(o), t(t) {}
    void operator()() {
        const std::string& k = a[0]; step();
        if (k == "R") { YRec r; Osmium::OSMFile f = mkfile(a[1], a[2], a[3]); Osmium::Input::read(f, r); o += r.out; }
        else if (k == "W") { Osmium::OSMFile f = mkfile(a[1], a[2], a[3]); Osmium::Output::Handler h(f); feed(h, a[4]); }
        else if (k == "C") { Osmium::OSMFile f = mkfile(a[1], a[2], a[3]), g = mkfile(a[5], a[6], a[4]); Osmium::Output::Handler h(g); Osmium::Input::read(f, h); }
        else if (k == "X") {
            typedef Osmium::Storage::ById::SparseTable<Osmium::OSM::Position> P; typedef Osmium::Storage::ById::StlMap<Osmium::OSM::Position> N;
            P p; N n; typedef Osmium::Handler::CoordinatesForWays<P, N> C; C c(p, n); WayGeom g; typedef Osmium::Handler::Sequence<C, WayGeom> Q; Q q(c, g);
            Osmium::OSMFile f(a[1]); Osmium::Input::read(f, q); o += g.out;
        } else if (k == "E") { YRec r; Osmium::Handler::EndTime<YRec> e(r); Osmium::OSMFile f(a[1]); Osmium::Input::read(f, e); o += r.out; }
        else if (k == "T") {
            int n = atoi(a[2].c_str());
            for (int i = 0; i < n; ++i) {
                time_t x = time_t(t.rnd(4000000000u)) + 1; if (i % 32 == 0) step();
                std::string s = Osmium::Timestamp::to_iso(x); time_t y = Osmium::Timestamp::parse_iso(s.c_str());
                char b[80]; snprintf(b, sizeof b, "%lld %s %d\n", (long long)x, s.c_str(), int(x == y)); o += b;
            }
        } else if (k == "G") {
            int n = atoi(a[2].c_str());
            for (int i = 0; i < n; ++i) {
                step(); Osmium::OSM::Way w; int m = 1 + t.rnd(6);
                for (int j = 0; j < m; ++j) w.nodes().add(Osmium::OSM::WayNode(j == m - 1 ? 0 : j, Osmium::OSM::Position(int32_t(t.rnd(1800000000)), int32_t(t.rnd(900000000)))));
                std::ostringstream s; Osmium::Geometry::LineString l(w, t.rnd(2)); s << l.as_WKT() << l.as_HexWKB(true);
                Osmium::Geometry::Point p(w.nodes()[0].position()); s << p.as_WKT(true);
                try { Osmium::Geometry::Polygon q(w); s << q.as_WKT() << q.as_HexWKB(); } catch (Osmium::Geometry::RingNotClosed&) { s << "open"; }
                o += s.str() + "\n";
            }
        } else if (k == "F") {
            int n = atoi(a[2].c_str());
            for (int i = 0; i < n; ++i) {
                step(); Osmium::OSM::TagList tl; for (int j = t.rnd(5); j > 0; --j) tl.add(text(t).c_str(), text(t).c_str());
                Osmium::Tags::KeyFilter kf(false); kf.add(true, text(t).c_str()).add(false, text(t).c_str());
                Osmium::Tags::KeyValueFilter vf(true); vf.add(false, text(t).c_str(), text(t).c_str()); Osmium::Tags::RegexFilter rf(false); rf.add(true, "name", "^[a-z]+").add(true, "^.*w");
                for (int j = 0; j < tl.size(); ++j) { o += kf(tl[j]) ? '1' : '0'; o += vf(tl[j]) ? '1' : '0'; o += rf(tl[j]) ? '1' : '0'; }
                o += Osmium::filter_and_accumulate(tl, vf, std::string(), Osmium::Tags::TagToHStoreStringOp()); o += std::accumulate(tl.begin(), tl.end(), std::string(), Osmium::Tags::TagToKeyEqualsValueStringOp("|")); o += '\n';
            }
        } else if (k == "D") {
            static const char* const N[] = {"a.osm", "b.osm.gz", "c.osh.pbf", "", "-", "http://x/y", "d/e.osc.bz2", "f"}; static const char* const T[] = {"osm", "history", "change", "bad"}; static const char* const E[] = {"pbf", "xml", "gz", "bz2", "bad"};
            int n = atoi(a[2].c_str());
            for (int i = 0; i < n; ++i) {
                if (i % 16 == 0) step();
                Osmium::OSMFile f(N[t.rnd(8)]); o += f.filename_with_default_suffix(); 
                try { if (t.rnd(2)) f.type(T[t.rnd(4)]); if (t.rnd(2)) f.encoding(E[t.rnd(5)]); } catch (const Osmium::OSMFile::ArgumentError& e) { o += e.what(); }
                Osmium::OSMFile g(f); o += g.filename_with_default_suffix(); o += g.has_multiple_object_versions() ? '1' : '0'; o += g.encoding()->is_pbf() ? "1\n" : "0\n";
            }
        } else if (k == "O") objects(t, o, atoi(a[2].c_str()));
        else if (k == "A") {
            Areas r(o); typedef Osmium::MultiPolygon::Assembler<Areas> MA; MA m(r, t.rnd(2) != 0);
            typedef Osmium::Storage::ById::SparseTable<Osmium::OSM::Position> P; typedef Osmium::Storage::ById::StlMap<Osmium::OSM::Position> N;
            P p; N n; typedef Osmium::Handler::CoordinatesForWays<P, N> C; C c(p, n); typedef Osmium::Handler::Sequence<C, MA::HandlerPass2> Q; Q q(c, m.handler_pass2());
            Osmium::OSMFile f(a[1]); Osmium::Input::read(f, m.handler_pass1()); Osmium::Input::read(f, q);
        } else if (k == "H") {      // shapefile and text table
            std::string base = a[3]; int n = atoi(a[2].c_str());
            { Osmium::Export::LineStringShapefile s(base); s.add_field("id", FTInteger, 10); s.add_field("name", FTString, 1 + t.rnd(30)); Osmium::Export::CSV c((base + ".csv").c_str());
              for (int i = 0; i < n; ++i) {
                if (i % 8 == 0) step(); Osmium::OSM::Way w; int m = 2 + t.rnd(6);
                for (int j = 0; j < m; ++j) w.nodes().add(Osmium::OSM::WayNode(j + 1, Osmium::OSM::Position(int32_t(t.rnd(1800000000)), int32_t(t.rnd(900000000)))));
                Osmium::Geometry::LineString l(w); s.add_geometry(Osmium::Geometry::create_shp_object(l)); s.add_attribute(0, int(t.rnd(1000000))); s.add_attribute_with_truncate(1, text(t) + text(t) + "\xc3\xa4");
                c.out << i << '\t' << l.as_WKT() << '\n';
            } }
            o += bytes(base + ".shp") + "\n" + bytes(base + ".csv") + "\n"; std::string d = bytes(base + ".dbf"); o += d.size() > 12 ? d.substr(12) : d; o += "\n";
        } else if (k == "S") {
            int n = atoi(a[2].c_str()); using namespace Osmium::Storage::ById; typedef Osmium::OSM::Position P;
            store<MmapAnon<P> >(t, o, n, 3000000); store<MmapFile<P> >(t, o, n, 3000000); store<SparseTable<P> >(t, o, n / 4, 30000); store<StlMap<P> >(t, o, n / 4, 1ull << 60);
            Osmium::Storage::ObjectStore os; for (int i = 0; i < n / 20; ++i) { step(); shared_ptr<Osmium::OSM::Node> x(new Osmium::OSM::Node); x->id(int64_t(t.rnd(1000)) - 500); x->version(i); os.node(x); }
            YRec r; Osmium::OSM::Meta m; os.feed_to(&r, m); o += r.out;
        }
    } };
static std::atomic<int> gate(0);
static void run(const args& a, std::string& out, Th* t, int n) {
    me = t; delay = t->rs * 2862933555777941757ull + 3037000493ull; if (!delay) delay = 1;
    if (par) { gate.fetch_add(1, std::memory_order_relaxed); while (gate.load(std::memory_order_relaxed) < n) sched_yield(); }
    std::string res = outcome(Job(a, out, *t));
    out += "END " + res + "\n";
}
int main(int argc, char* argv[]) {
    par = std::string(argv[1]) == "par"; u64 seed = strtoull(argv[2], 0, 10);
    std::vector<args> jobs; std::string l; while (std::getline(std::cin, l)) jobs.push_back(split(l, ' '));
    std::vector<std::string> out(jobs.size()); std::vector<Th> th(jobs.size());
    for (size_t i = 0; i < jobs.size(); ++i) { th[i].rs = (jobs[i].size() > 1 ? strtoull(jobs[i][1].c_str(), 0, 10) : 0) * 0x9E3779B97F4A7C15ull + 12345 + i; th[i].rnd(); th[i].rnd(); }
    if (par) { std::vector<std::thread> v; for (size_t i = 0; i < jobs.size(); ++i) v.push_back(std::thread(run, std::cref(jobs[i]), std::ref(out[i]), &th[i], int(jobs.size()))); for (size_t i = 0; i < v.size(); ++i) v[i].join(); }
    else for (size_t i = 0; i < jobs.size(); ++i) run(jobs[i], out[i], &th[i], 1);
    u64 h = seed; long sw = 0;
    if (par) { std::vector<int> who(steps.load(), -1); for (size_t i = 0; i < th.size(); ++i) for (size_t j = 0; j < th[i].order.size(); ++j) who[th[i].order[j]] = i; h = 0; for (size_t i = 0; i < who.size(); ++i) { h = h * 1000003 + who[i]; if (i && who[i] != who[i-1]) ++sw; } }
    printf("ORDER %llx %ld %llu\n", (unsigned long long)h, sw, (unsigned long long)steps.load());
    for (size_t i = 0; i < jobs.size(); ++i) printf("JOB %zu\n%s", i, out[i].c_str());
    fflush(stdout);
    return 0;
}
