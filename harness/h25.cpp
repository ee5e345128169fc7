// Shapefile export.  Jobs:  shp KIND BASE OP...   with KIND p|l|a, see run() for the operations; prints the outcome of each operation.
// With -DFAKE shapelib is replaced by functions which record what they are asked to do (files beyond 2 GB, failing writes).
#include <iostream>
#include "rec.hpp"
#include <osmium.hpp>
#include <osmium/geometry/shplib.hpp>
#include <osmium/export/shapefile.hpp>
#include <fstream>
#include <cstdarg>
#include <dirent.h>
using namespace vp;
typedef std::vector<std::string> args;
static std::string log_;
static void out(const char* f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); log_ += b; log_ += '\n'; }
#ifdef FAKE
static long alive = 0; static int fail_in = 0, nocreate = 0, nodbf = 0; static bool broken; static long handles = 0;
extern "C" {
struct FS { SHPInfo i; std::string n; };
struct FD { std::string n; std::vector<int> w; int rows; };
SHPHandle SHPCreate(const char* n, int t) { if (nocreate && --nocreate == 0) { out("NOCREATE"); broken = true; return 0; } ++handles; FS* f = new FS(); f->n = n; f->i.nShapeType = t; f->i.nRecords = 0; out("CREATE %s", esc(n).c_str()); return &f->i; }
void SHPClose(SHPHandle h) { --handles; FS* f = reinterpret_cast<FS*>(h); out("CLOSE %d", h->nRecords); delete f; }
SHPObject* SHPCreateObject(int t, int, int np, const int*, const int*, int nv, const double*, const double*, const double*, const double*) { SHPObject* o = (SHPObject*)calloc(1, sizeof *o); o->nSHPType = t; o->nParts = np; o->nVertices = nv; ++alive; return o; }
SHPObject* SHPCreateSimpleObject(int t, int nv, const double* x, const double* y, const double* z) { return SHPCreateObject(t, -1, t == SHPT_POINT ? 0 : 1, 0, 0, nv, x, y, z, 0); }
void SHPDestroyObject(SHPObject* o) { if (o) { --alive; free(o); } }
int SHPWriteObject(SHPHandle h, int k, SHPObject* o) {
    if (fail_in && --fail_in == 0) { out("FAIL %d %d", o->nVertices, o->nParts); return -1; }
    if (k != -1) { out("BADINDEX %d", k); return -1; }
    out("SHAPE %d %d %d", h->nRecords, o->nVertices, o->nParts); return h->nRecords++;
}
DBFHandle DBFCreate(const char* n) { if (nodbf && --nodbf == 0) { out("NODBF"); broken = true; return 0; } ++handles; FD* f = new FD(); f->n = n; f->rows = 0; out("DBF %s", esc(n).c_str()); return reinterpret_cast<DBFHandle>(f); }
void DBFClose(DBFHandle h) { --handles; FD* f = reinterpret_cast<FD*>(h); out("DBFCLOSE %d", f->rows); delete f; }
int DBFAddField(DBFHandle h, const char* n, DBFFieldType t, int w, int d) { FD* f = reinterpret_cast<FD*>(h); f->w.push_back(w); out("FIELD %s %d %d %d", esc(n).c_str(), int(t), w, d); return f->w.size() - 1; }
static int attr(DBFHandle h, int r, int c, const char* v) {
    FD* f = reinterpret_cast<FD*>(h);
    if (r < 0 || r > f->rows || c < 0 || c >= int(f->w.size())) { out("ATTR refused"); return 0; }
    if (r == f->rows) { ++f->rows; out("ROW %d", r); }
    if (v) out("ATTR %d %d %s", r, c, esc(v).c_str()); return 1;
}
int DBFWriteIntegerAttribute(DBFHandle h, int r, int c, int v) { char b[30]; sprintf(b, "%d", v); return attr(h, r, c, b); }
int DBFWriteDoubleAttribute(DBFHandle h, int r, int c, double v) { char b[60]; sprintf(b, "%.17g", v); return attr(h, r, c, b); }
int DBFWriteStringAttribute(DBFHandle h, int r, int c, const char* v) { return attr(h, r, c, v); }
int DBFWriteNULLAttribute(DBFHandle h, int r, int c) { return attr(h, r, c, 0); }
int DBFWriteLogicalAttribute(DBFHandle h, int r, int c, const char v) { char b[2] = {v, 0}; return attr(h, r, c, b); }
int DBFGetFieldCount(const DBFHandle h) { return reinterpret_cast<FD*>(h)->w.size(); }
int DBFGetRecordCount(const DBFHandle h) { return reinterpret_cast<FD*>(h)->rows; }
}
#endif
namespace OE = Osmium::Export; namespace OG = Osmium::Geometry;
typedef geos::geom::Geometry GG;
static void way(Osmium::OSM::Way& w, const args& f, size_t k) {       // REF:X:Y each
    for (; k + 2 < f.size(); k += 3) w.nodes().add(Osmium::OSM::WayNode(atoll(f[k].c_str()), Osmium::OSM::Position((int32_t)atoi(f[k+1].c_str()), (int32_t)atoi(f[k+2].c_str()))));
}
static geos::geom::LinearRing* ring(const std::string& s) {
    args c = split(s, ','); std::vector<geos::geom::Coordinate>* v = new std::vector<geos::geom::Coordinate>;
    for (size_t i = 0; i + 1 < c.size(); i += 2) v->push_back(geos::geom::Coordinate(atoi(c[i].c_str()) / 1e7, atoi(c[i+1].c_str()) / 1e7));
    return OG::geos_geometry_factory()->createLinearRing(OG::geos_geometry_factory()->getCoordinateSequenceFactory()->create(v));
}
static SHPObject* geometry(const args& f) {
    const std::string& k = f[0];
    if (k == "N") return NULL;
    if (k == "P") return OG::create_shp_object(OG::Point(Osmium::OSM::Position((int32_t)atoi(f[1].c_str()), (int32_t)atoi(f[2].c_str()))));
    if (k == "L" || k == "A" || k == "GL" || k == "GA") {
        Osmium::OSM::Way w; way(w, f, 2); bool rev = f[1] == "1";
        if (k == "L") return OG::create_shp_object(OG::LineString(w, rev));
        if (k == "A") return OG::create_shp_object(OG::Polygon(w, rev));
        if (k == "GL") { OG::LineString l(w.nodes(), rev, 7); return OG::create_shp_object(static_cast<const OG::Geometry&>(l)); }
        OG::Polygon p(w.nodes(), rev, 7); return OG::create_shp_object(static_cast<const OG::Geometry&>(p));
    }
    if (k == "M" || k == "GM") {        // polygons split by ':', rings by ';'
        std::vector<GG*>* v = new std::vector<GG*>;
        for (size_t i = 1; i < f.size(); ++i) {
            args r = split(f[i], ';'); std::vector<GG*>* h = new std::vector<GG*>;
            for (size_t j = 1; j < r.size(); ++j) h->push_back(ring(r[j]));
            v->push_back(OG::geos_geometry_factory()->createPolygon(ring(r[0]), h));
        }
        Osmium::OSM::Relation rel; rel.id(5); Osmium::OSM::Area a(rel); a.geos_geometry(OG::geos_geometry_factory()->createMultiPolygon(v));
        OG::MultiPolygon mp(a);
        return k == "M" ? OG::create_shp_object(mp) : OG::create_shp_object(static_cast<const OG::Geometry&>(mp));
    }
    if (k == "B") return SHPCreateObject(atoi(f[1].c_str()), -1, atoi(f[3].c_str()), 0, 0, atoi(f[2].c_str()), 0, 0, 0, 0);   // FAKE only
    return NULL;
}
static void op(OE::Shapefile& s, const args& f) {
    const std::string& k = f[0];
    if (k == "f") s.add_field(unesc(f[1]), f[2], atoi(f[3].c_str()), atoi(f[4].c_str()));
    else if (k == "F") s.add_field(unesc(f[1]), f[2] == "string" ? FTString : f[2] == "integer" ? FTInteger : f[2] == "double" ? FTDouble : FTLogical, atoi(f[3].c_str()), atoi(f[4].c_str()));
    else if (k == "close") s.close();
#ifdef FAKE
    else if (k == "Z") fail_in = atoi(f[1].c_str());
#endif
    else if (k[0] == '@') {
#ifdef FAKE
        if (broken) return;     // there is no shape they could belong to
#endif
        int n = atoi(f[1].c_str()); std::string v = f.size() > 2 ? unesc(f[2]) : "";
        switch (k[1]) {
            case 'b': s.add_attribute(n, v == "1"); break;
            case 'i': s.add_attribute(n, atoi(v.c_str())); break;
            case 'd': s.add_attribute(n, atof(v.c_str())); break;
            case 's': s.add_attribute(n, v); break;
            case 'c': s.add_attribute(n, v.c_str()); break;
            case 'n': s.add_attribute(n); break;
            case 't': s.add_attribute_with_truncate(n, v); break;
            case 'u': s.add_attribute_with_truncate(n, v.c_str()); break;
        }
    } else s.add_geometry(geometry(f));
}
struct AnyShapes : public OE::Shapefile { AnyShapes(const std::string& n, int t) : OE::Shapefile(n, t) {} };
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
int main() {
    std::string l; long i = 0;
    while (std::getline(std::cin, l)) {
        printf("BEGIN %ld\n", i); fflush(stdout); log_.clear();
        args a = split(l, ' '); std::string res = "ok"; int open0 = fds();
#ifdef FAKE
        if (a.size() > 3 && a[3][0] == 'Q') { args f = split(a[3], ':'); nocreate = atoi(f[1].c_str()); nodbf = atoi(f[2].c_str()); a.erase(a.begin() + 3); }     // files cannot be created
#endif
        try {
            OE::Shapefile* s = a[1] == "p" ? (OE::Shapefile*)new OE::PointShapefile(unesc(a[2])) : a[1] == "l" ? (OE::Shapefile*)new OE::LineStringShapefile(unesc(a[2])) : a[1] != "a" ? (OE::Shapefile*)new AnyShapes(unesc(a[2]), atoi(a[1].c_str())) : new OE::PolygonShapefile(unesc(a[2]));
            for (size_t k = 3; k < a.size(); ++k) {
                try { op(*s, split(a[k], ':')); out("ok"); }
                catch (OG::IllegalGeometry&) { out("exc IllegalGeometry"); } catch (OG::GeometryException&) { out("exc GeometryException"); }
                catch (std::invalid_argument& e) { out("exc invalid_argument"); } catch (std::out_of_range& e) { out("exc out_of_range"); } catch (std::runtime_error& e) { out("exc runtime_error %s", e.what()); }
            }
            delete s;
        } catch (std::exception& e) { res = std::string("exc ") + e.what(); }
#ifdef FAKE
        out("ALIVE %ld", alive + handles); alive = handles = 0; fail_in = nocreate = nodbf = 0; broken = false;
#endif
        if (fds() != open0) out("OPEN %d", fds() - open0);
        printf("%sEND %s\n", log_.c_str(), res.c_str()); fflush(stdout); ++i;
    }
    return 0;
}
