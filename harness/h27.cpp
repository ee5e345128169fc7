// Multipolygons.  Jobs:  mp REPAIR+2*DEBUG VIA PATH [KIND:N]   (N-th GEOS call of this kind throws)
//   (file read twice; VIA c: coordinates for ways; d: model fed directly, positions in the ways)
// prints every area:  A <fields> tags | result of the geometry, its formats and copies
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <iostream>
#include <osmium.hpp>
#include <osmium/handler/coordinates_for_ways.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/byid/stl_map.hpp>
#include <osmium/multipolygon/assembler.hpp>
#include <osmium/geometry/multipolygon.hpp>
#include <osmium/geometry/ogr_multipolygon.hpp>
#include "rec.hpp"
#include <fstream>
using namespace vp;
typedef std::vector<std::string> args;
namespace OG = Osmium::Geometry; typedef Osmium::OSM::Area Area;
template <class H> void feed(H& out, const std::string& model) {
    std::ifstream in(model.c_str()); std::string l;
    while (std::getline(in, l)) {
        args f = split(l, '\t');
        if (f[0] == "I") { Osmium::OSM::Meta m; set_meta(m, f); out.init(m); }
        else if (f[0] == "N") { shared_ptr<Osmium::OSM::Node> n = make_node(f); out.node(n); }
        else if (f[0] == "W") { shared_ptr<Osmium::OSM::Way> n = make_way(f); out.way(n); }
        else if (f[0] == "R") { shared_ptr<Osmium::OSM::Relation> n = make_relation(f); out.relation(n); }
        else if (f[0] == "BN") out.before_nodes(); else if (f[0] == "AN") out.after_nodes();
        else if (f[0] == "BW") out.before_ways(); else if (f[0] == "AW") out.after_ways();
        else if (f[0] == "BR") out.before_relations(); else if (f[0] == "AR") out.after_relations();
        else if (f[0] == "F") out.final();
    }
}
static std::string head(const Area& a) {
    std::string o = "A"; common(o, a); num(o, a.from_way() ? 1 : 0); num(o, a.orig_id()); num(o, a.type() == AREA ? 1 : 0); tags(o, a.tags()); return o;
}
static std::string wkt(const Area& a) { std::ostringstream s; OG::MultiPolygon m(a); s << m.as_WKT(); return s.str(); }
static std::string hexof(const std::string& b) { static const char* h = "0123456789ABCDEF"; std::string o; for (size_t i = 0; i < b.size(); ++i) { o += h[(b[i] >> 4) & 15]; o += h[b[i] & 15]; } return o; }
static std::string geom(const Area& a) {
    std::string o; int copies = 0;
    try {
        // copies made before the geometry exists (areas from ways build it when needed)
        Area c0(a); if (head(c0) != head(a)) o += "PROBLEM copy differs;";
        OG::MultiPolygon m(a); std::string w = wkt(a);
        o += m.borrow_geos_geometry()->isValid() ? "valid " : "invalid ";
        o += w;
        std::ostringstream s, b, h, bs, hs; s << m.as_WKT(true); b << m.as_WKB(); h << m.as_HexWKB(); bs << m.as_WKB(true); hs << m.as_HexWKB(true);
        if (s.str() != "SRID=4326;" + w) o += ";PROBLEM SRID in WKT";
        if (hexof(b.str()) != h.str()) o += ";PROBLEM hex"; if (hexof(bs.str()) != hs.str()) o += ";PROBLEM hex with SRID";
        o += "|" + h.str() + "|" + hs.str() + "|";
        OGRMultiPolygon* g = OG::create_ogr_geometry(m); char* t = 0; 
        for (int i = 0; i < g->getNumGeometries(); ++i) { OGRPolygon* p = static_cast<OGRPolygon*>(g->getGeometryRef(i)); o += "P"; for (int j = -1; j < p->getNumInteriorRings(); ++j) { OGRLinearRing* r = j < 0 ? p->getExteriorRing() : p->getInteriorRing(j); o += "R"; for (int k = 0; k < r->getNumPoints(); ++k) { char q[80]; snprintf(q, sizeof q, " %.0f,%.0f", r->getX(k) * 1e7, r->getY(k) * 1e7); o += q; } } }
        delete g;
        if (wkt(c0) != w) o += ";PROBLEM geometry of copy";
        Area c1(a); if (head(c1) != head(a) || wkt(c1) != w) o += ";PROBLEM copy";
        Osmium::OSM::Way ow; ow.id(4711); ow.nodes().add(Osmium::OSM::WayNode(1, Osmium::OSM::Position(1, 1))); Area c2(ow);
        c2 = a; if (head(c2) != head(a) || wkt(c2) != w) o += ";PROBLEM assignment";
        c2 = c1; c2 = *&c2; if (head(c2) != head(a) || wkt(c2) != w) o += ";PROBLEM second assignment";
        { Area c3(c2); c2 = c0; if (wkt(c3) != w) o += ";PROBLEM copy after assignment"; }
        if (wkt(a) != w || wkt(c2) != w) o += ";PROBLEM original changed";
    } catch (OG::RingNotClosed&) { o += "RingNotClosed"; } catch (OG::GeometryException&) { o += "GeometryException"; } catch (geos::util::GEOSException& e) { o += "GEOS"; }
    return o;
}
struct Areas : public Osmium::Handler::Base {
    std::string out; std::vector<shared_ptr<Area const> > keep; 
    void area(const shared_ptr<Area const>& a) { out += head(*a); out += "\n"; out += geom(*a); out += "\n"; keep.push_back(a); }
    static bool less(const Area& x, const Area& y) { long long i = x.id(), j = y.id(), a = i < 0 ? -i : i, b = j < 0 ? -j : j; return i == j ? x.version() < y.version() : a != b ? a < b : i < j; }
    void check() {
        // other versions and the opposite ids, too
        std::vector<shared_ptr<Area const> > v; size_t step = keep.size() / 20 + 1;
        for (size_t i = 0; i < keep.size(); i += step) {
            v.push_back(keep[i]); shared_ptr<Area> a = make_shared<Area>(*keep[i]); a->id(-a->id()); v.push_back(a);
            a = make_shared<Area>(*keep[i]); a->version(a->version() / 2 + 3); v.push_back(a);
        }
        for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) {
            bool e = less(*v[i], *v[j]);
            if ((*v[i] < *v[j]) != e) out += "PROBLEM order\n";
            if ((v[i] < v[j]) != e) out += "PROBLEM order of pointers\n";
        }
    }
};
struct Job { const args& a; Areas& r; Job(const args& a, Areas& r) : a(a), r(r) {}
    void operator()() {
        typedef Osmium::MultiPolygon::Assembler<Areas> MA; const int how = std::atoi(a[1].c_str()); MA m(r, how & 1); m.set_debug_level(how & 2);
        if (a[2] == "d") {
            try { feed(m.handler_pass1(), a[3]); } catch (Osmium::Handler::StopReading&) {}
            feed(m.handler_pass2(), a[3]);
        } else {
            typedef Osmium::Storage::ById::SparseTable<Osmium::OSM::Position> P; typedef Osmium::Storage::ById::StlMap<Osmium::OSM::Position> N;
            P p; N n; typedef Osmium::Handler::CoordinatesForWays<P, N> C; C c(p, n);
            typedef Osmium::Handler::Sequence<C, MA::HandlerPass2> Q; Q q(c, m.handler_pass2());
            Osmium::OSMFile f(a[3]); Osmium::Input::read(f, m.handler_pass1()); Osmium::Input::read(f, q);
        }
        r.check();
    } };
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        args a = split(l, ' ');
        printf("BEGIN %s\n", l.c_str()); fflush(stdout);
        geos::vp::Fault& f = geos::vp::fault(); f.kind = a.size() > 4 ? a[4][0] : 0; f.left = f.kind ? std::atoi(a[4].c_str() + 2) : 0; f.fired = 0;
        Areas r; std::string res = outcome(Job(a, r));
        if (f.kind) printf("FIRED %d\n", f.fired);
        f.kind = 0;
        fwrite(r.out.data(), 1, r.out.size(), stdout);
        printf("END %s\n", res.c_str()); fflush(stdout);
    }
    return 0;
}
