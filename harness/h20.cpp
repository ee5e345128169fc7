// Distances, positions, bounds, timestamps, file descriptions.
//   dist X1 Y1 X2 Y2 | len POS | pos LON LAT (hex doubles) | cmp X1 Y1 X2 Y2 | bounds POS | iso T | parse TEXT | file NAME OP...
#include <iostream>
#include <iomanip>
#include <quadmath.h>
#include <osmium/osm/position.hpp>
#include <osmium/osm/bounds.hpp>
#include <osmium/geometry/haversine.hpp>
#include <osmium/utils/timestamp.hpp>
#include <osmium/handler/find_bbox.hpp>
#include "rec.hpp"
using namespace vp;
typedef std::vector<std::string> args;
using Osmium::OSM::Position;
namespace H = Osmium::Geometry::Haversine;

// great circle distance from unit vectors, quad precision
static __float128 ref(int32_t x1, int32_t y1, int32_t x2, int32_t y2) {
    const __float128 R = 6372797.560856Q, D = M_PIq / 180 / 10000000;
    __float128 a = x1 * D, b = y1 * D, c = x2 * D, d = y2 * D;
    __float128 u[3] = {cosq(b) * cosq(a), cosq(b) * sinq(a), sinq(b)}, v[3] = {cosq(d) * cosq(c), cosq(d) * sinq(c), sinq(d)};
    __float128 w[3] = {u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]};
    return R * atan2q(sqrtq(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]), u[0] * v[0] + u[1] * v[1] + u[2] * v[2]);
}
static std::vector<Position> positions(const std::string& s) {
    std::vector<Position> p; if (s == "-") return p;
    args v = split(s, ',');
    for (size_t i = 0; i < v.size(); ++i) { if (v[i] == "u") { p.push_back(Position()); continue; } args f = split(v[i], ':'); p.push_back(Position(int32_t(atol(f[0].c_str())), int32_t(atol(f[1].c_str())))); }
    return p;
}
static void show(const char* n, const Position& p) { printf("%s %d %d %d %a %a\n", n, p.x(), p.y(), int(p.defined()), p.lon(), p.lat()); }
static void box(const char* n, const Osmium::OSM::Bounds& b) {
    if (b.defined()) printf("%s %d %d %d %d\n", n, b.bottom_left().x(), b.bottom_left().y(), b.top_right().x(), b.top_right().y()); else printf("%s undefined\n", n);
}
static void describe(const char* n, Osmium::OSMFile& f) {
    typedef Osmium::OSMFile O;
    const char* t = f.type() == O::FileType::OSM() ? "osm" : f.type() == O::FileType::History() ? "history" : f.type() == O::FileType::Change() ? "change" : "?";
    const char* e = f.encoding() == O::FileEncoding::PBF() ? "pbf" : f.encoding() == O::FileEncoding::XML() ? "xml" : f.encoding() == O::FileEncoding::XMLgz() ? "gz" : f.encoding() == O::FileEncoding::XMLbz2() ? "bz2" : "?";
    printf("%s %s %s %d %d name=%s without=%s default=%s fd=%d\n", n, t, e, int(f.has_multiple_object_versions()), int(f.encoding()->is_pbf()), esc(f.filename()).c_str(), esc(f.filename_without_suffix()).c_str(), esc(f.filename_with_default_suffix()).c_str(), f.fd());
}
struct Job { const args& a; Job(const args& a) : a(a) {}
    void operator()() {
        const std::string& k = a[0];
        if (k == "dist") {
            int32_t x1 = atol(a[1].c_str()), y1 = atol(a[2].c_str()), x2 = atol(a[3].c_str()), y2 = atol(a[4].c_str());
            Position p(x1, y1), q(x2, y2);
            printf("D %a %a %a %a %a\n", H::distance(p, q), H::distance(q, p), H::distance(p.lon(), p.lat(), q.lon(), q.lat()), H::distance(p, p), double(ref(x1, y1, x2, y2)));
        } else if (k == "len") {
            std::vector<Position> p = positions(a[1]); Osmium::OSM::WayNodeList l; __float128 s = 0;
            int m = a.size() > 2 ? atoi(a[2].c_str()) : 0;     // which ids the nodes have: 0 distinct, 1 all zero, 2 all the same, 3 pairs, 4 negative
            for (size_t i = 0; i < p.size(); ++i) { l.push_back(Osmium::OSM::WayNode(m == 0 ? osm_object_id_t(i + 1) : m == 1 ? 0 : m == 2 ? 77 : m == 3 ? osm_object_id_t(i / 2 % 3) : -osm_object_id_t(i) - 1, p[i])); if (i) s += ref(p[i-1].x(), p[i-1].y(), p[i].x(), p[i].y()); }
            printf("L %a %a\n", H::distance(l), double(s));
        } else if (k == "pos") {
            double lon = strtod(a[1].c_str(), 0), lat = strtod(a[2].c_str(), 0);
            Position p(lon, lat); show("A", p); Position q; show("U", q); q.lon(lon); show("X", q); q.lat(lat); show("B", q);
            show("C", Position(p.lon(), p.lat())); show("D", Position(int64_t(p.x()), int64_t(p.y()))); Position r; r.x(p.x()).y(p.y()); show("E", r);
        } else if (k == "cmp") {
            Position p(int32_t(atol(a[1].c_str())), int32_t(atol(a[2].c_str()))), q(int32_t(atol(a[3].c_str())), int32_t(atol(a[4].c_str())));
            printf("C %d %d %d %d %d %d\n", int(p == q), int(p != q), int(p < q), int(p > q), int(p <= q), int(p >= q));
        } else if (k == "bounds") {
            std::vector<Position> p = positions(a[1]); Osmium::OSM::Bounds b; Osmium::Handler::FindBbox h;
            box("B0", b);
            for (size_t i = 0; i < p.size(); ++i) {
                b.extend(p[i]); shared_ptr<Osmium::OSM::Node> n = make_shared<Osmium::OSM::Node>(); n->position(p[i]); if (i % 3 == 1) n->visible(false); h.node(n);
                if (i + 1 == p.size() / 2) box("M", b);
            }
            box("B", b); box("H", h.bounds());
        } else if (k == "iso") {
            time_t t = atoll(a[1].c_str()); printf("I %s\n", esc(Osmium::Timestamp::to_iso(t)).c_str());
            Osmium::OSM::Node n; n.timestamp(t); n.endtime(t); printf("O %s %s\n", esc(n.timestamp_as_string()).c_str(), esc(n.endtime_as_string()).c_str());
        } else if (k == "parse") {
            std::string t = unesc(a[1]);
            try { printf("P %lld\n", (long long)Osmium::Timestamp::parse_iso(t.c_str())); } catch (const std::invalid_argument&) { printf("P invalid\n"); }
            try { Osmium::OSM::Way w; w.timestamp(t.c_str()); printf("Q %lld\n", (long long)w.timestamp()); } catch (const std::invalid_argument&) { printf("Q invalid\n"); }
        } else if (k == "file") {
            Osmium::OSMFile f(unesc(a[1])); describe("F", f);
            for (size_t i = 2; i < a.size(); ++i) {
                std::string op = a[i].substr(0, 1), v = unesc(a[i].substr(1));
                typedef Osmium::OSMFile O;
                try {
                    if (op == "t") f.type(v); else if (op == "e") f.encoding(v); else if (op == "n") f.filename(v); else if (op == "s") f.set_type_and_encoding(v);
                    else if (op == "T") f.type(v == "osm" ? O::FileType::OSM() : v == "history" ? O::FileType::History() : O::FileType::Change());
                    else if (op == "E") f.encoding(v == "pbf" ? O::FileEncoding::PBF() : v == "xml" ? O::FileEncoding::XML() : v == "gz" ? O::FileEncoding::XMLgz() : O::FileEncoding::XMLbz2());
                    else if (op == "o") { f.open_for_output(); printf("OPEN %d\n", int(f.fd() > 2)); }
                    else if (op == "c") { O g(f); describe("F", g); }
                    else if (op == "a") { O g("other.osh.gz"); g = f; describe("F", g); }
                    else if (op == "A") { O g(v); f = g; }
                    else if (op == "x") f.close();
                } catch (const O::ArgumentError& e) { printf("ArgumentError %s\n", esc(e.value()).c_str()); }
                if (op != "c" && op != "a") describe("F", f);
            }
        }
    } };
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        args a = split(l, ' ');
        printf("BEGIN %s\n", l.c_str()); fflush(stdout);
        std::string res = outcome(Job(a));
        printf("END %s\n", res.c_str()); fflush(stdout);
    }
    return 0;
}
