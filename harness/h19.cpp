// Geometries of nodes and ways in every output format.
//   geom KIND REV SRID ID FMT POS      KIND point|pointnode|line|lineway|poly|polyway|multi; FMT stream state; POS x:y:ref,... or "-"
#include <iostream>
#include <iomanip>
#include <osmium.hpp>
#include <osmium/geometry/ogr.hpp>
#include <osmium/geometry/geos.hpp>
#include <osmium/geometry/multipolygon.hpp>
#include <osmium/geometry/ogr_multipolygon.hpp>
#include <osmium/geometry/null.hpp>
#include "rec.hpp"
using namespace vp;
namespace G = Osmium::Geometry;
typedef std::vector<std::string> args;

static std::string hexd(double d) { char b[60]; snprintf(b, sizeof b, "%a", d); return b; }
static void ogr_pts(std::string& o, const OGRSimpleCurve* c) { for (int i = 0; i < c->getNumPoints(); ++i) o += " " + hexd(c->getX(i)) + " " + hexd(c->getY(i)); }
static void geos_pts(std::string& o, const geos::geom::CoordinateSequence* c) { for (size_t i = 0; i < c->getSize(); ++i) o += " " + hexd(c->getX(i)) + " " + hexd(c->getY(i)); }

static void lib(const G::Point& p) {
    printf("POS %ld %ld\n", long(p.position().x()), long(p.position().y()));
    OGRPoint* o = G::create_ogr_geometry(p); printf("OGR %d %s %s\n", int(wkbFlatten(o->getGeometryType())), hexd(o->getX()).c_str(), hexd(o->getY()).c_str()); delete o;
    geos::geom::Point* g = G::create_geos_geometry(p); printf("GEOS 1 %s %s\n", hexd(g->getX()).c_str(), hexd(g->getY()).c_str()); delete g;
}
static void lib(const G::LineString& p) {
    std::string s; OGRLineString* o = G::create_ogr_geometry(p); ogr_pts(s, o); printf("OGR %d%s\n", int(wkbFlatten(o->getGeometryType())), s.c_str()); delete o;
    if (p.nodes().size() == 1) return;   // not a GEOS linestring
    s.clear(); geos::geom::LineString* g = G::create_geos_geometry(p); geos_pts(s, g->getCoordinatesRO()); printf("GEOS 2%s\n", s.c_str()); delete g;
}
static void lib(const G::Polygon& p) {
    std::string s; OGRPolygon* o = G::create_ogr_geometry(p); ogr_pts(s, o->getExteriorRing()); printf("OGR %d%s %d\n", int(wkbFlatten(o->getGeometryType())), s.c_str(), o->getNumInteriorRings()); delete o;
    if (p.nodes().size() < 4 || !(p.nodes().front().position() == p.nodes().back().position())) return;   // not a GEOS ring
    s.clear(); geos::geom::Polygon* g = G::create_geos_geometry(p); geos_pts(s, g->getExteriorRing()->getCoordinatesRO()); printf("GEOS 3%s %d\n", s.c_str(), int(g->getNumInteriorRing())); delete g;
}
static void out(const G::Geometry& g, const args& a) {
    bool srid = a[3] == "1"; const std::string& f = a[5];
    { std::ostringstream s; if (f == "fixed") s << std::fixed; if (f == "sci") s << std::scientific; if (f == "prec") s << std::setprecision(3);
      s << (srid ? g.as_WKT(true) : g.as_WKT()); printf("WKT %s\n", esc(s.str()).c_str());
      if (f == "twice") { s << ';' << (srid ? g.as_WKT(true) : g.as_WKT()) << 0.123456789; printf("WKT2 %s\n", esc(s.str()).c_str()); } }
    { std::ostringstream s; if (f == "hex") s << std::hex << std::showbase; s << (srid ? g.as_WKB(true) : g.as_WKB()); printf("WKB %s\n", esc(s.str()).c_str()); }
    { std::ostringstream s; if (f == "hex") s << std::hex << std::showbase; s << (srid ? g.as_HexWKB(true) : g.as_HexWKB()); printf("HEX %s\n", esc(s.str()).c_str()); }
    printf("ID %lld\n", (long long)g.id());
}
struct Job { const args& a; Job(const args& a) : a(a) {}
    void operator()() {
        if (a[0] != "geom") return;
        bool rev = a[2] == "1"; osm_object_id_t id = atoll(a[4].c_str());
        std::vector<Osmium::OSM::Position> p; std::vector<osm_object_id_t> refs;
        if (a[6] != "-") { args v = split(a[6], ','); for (size_t i = 0; i < v.size(); ++i) { args f = split(v[i], ':'); p.push_back(Osmium::OSM::Position(int32_t(atol(f[0].c_str())), int32_t(atol(f[1].c_str())))); refs.push_back(atoll(f[2].c_str())); } }
        const std::string& k = a[1];
        if (k == "point") { G::Point g = id ? G::Point(p[0], id) : G::Point(p[0]); out(g, a); lib(g); return; }
        if (k == "pointnode") { Osmium::OSM::Node n; n.id(id); n.position(p[0]); G::Point g(n); out(g, a); lib(g); return; }
        if (k == "null") { G::Null g; out(g, a); return; }
        Osmium::OSM::Way w; w.id(id); Osmium::OSM::WayNodeList l;
        for (size_t i = 0; i < p.size(); ++i) { Osmium::OSM::WayNode wn(refs[i], p[i]); w.nodes().add(wn); l.push_back(wn); }
        try {
            if (k == "line") { G::LineString g = rev || id ? G::LineString(l, rev, id) : G::LineString(l); out(g, a); lib(g); }
            else if (k == "lineway") { G::LineString g = rev ? G::LineString(w, rev) : G::LineString(w); out(g, a); lib(g); }
            else if (k == "poly") { G::Polygon g = rev || id ? G::Polygon(l, rev, id) : G::Polygon(l); out(g, a); lib(g); }
            else if (k == "polyway") { G::Polygon g = rev ? G::Polygon(w, rev) : G::Polygon(w); out(g, a); lib(g); }
        } catch (const G::RingNotClosed&) { printf("RingNotClosed\n"); }
        printf("CLOSED %d %d\n", int(l.is_closed()), int(w.is_closed()));
    } };
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        args a = split(l, ' ');
        printf("BEGIN %s\n", l.c_str()); fflush(stdout);
        std::string res = outcome(Job(a));
        printf("END %s\n", res.c_str()); fflush(stdout);
    }
    return 0;
}
