// Stand-in for the data source classes OGR had before GDAL 2: what a program creates is printed instead of stored.
//   layer N NAME TYPE SRS | field N NAME TYPE WIDTH | sql TEXT | feature N {NAME=TEXT|-}... GEOMETRY | begin N | commit N | closed
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include <ogr_api.h>
#include <ogrsf_frmts.h>
namespace vp_ogr {
    inline FILE* out() { static FILE* f = fopen(getenv("VP_OGR_OUT"), "w"); return f; }
    inline std::string esc(const std::string& s) {
        std::string r; char b[5];
        for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (c <= 32 || c == '%' || c == 127 || c == '=') { snprintf(b, sizeof b, "%%%02x", c); r += b; } else r += s[i]; }
        return r;
    }
    inline std::string pt(double x, double y) { char b[80]; snprintf(b, sizeof b, " %.17g,%.17g", x, y); return b; }
    inline std::string line(const OGRSimpleCurve* l) { std::string r; for (int i = 0; i < l->getNumPoints(); ++i) r += pt(l->getX(i), l->getY(i)); return r; }
    inline std::string geom(const OGRGeometry* g) {
        if (!g) return "none";
        std::string r = g->getGeometryName();
        switch (wkbFlatten(g->getGeometryType())) {
            case wkbPoint: return r + pt(g->toPoint()->getX(), g->toPoint()->getY());
            case wkbLineString: return r + line(g->toLineString());
            case wkbPolygon: { const OGRPolygon* p = g->toPolygon(); for (int i = -1; i < p->getNumInteriorRings(); ++i) { const OGRLinearRing* q = i < 0 ? p->getExteriorRing() : p->getInteriorRing(i); r += " R"; if (q) r += line(q); } return r; }
            case wkbMultiPolygon: { const OGRMultiPolygon* m = g->toMultiPolygon(); for (int i = 0; i < m->getNumGeometries(); ++i) r += " P" + geom(m->getGeometryRef(i)).substr(7); return r; }
            default: return r + " ?";
        }
    }
    inline std::string text(OGRFeature* f, int i) {
        if (f->GetFieldDefnRef(i)->GetType() != OFTReal) return esc(f->GetFieldAsString(i));
        char b[40]; snprintf(b, sizeof b, "%.17g", f->GetFieldAsDouble(i)); return b;
    }
    struct Layer {
        int n; OGRFeatureDefn* d; long count;
        Layer(int n, const char* name, OGRwkbGeometryType t) : n(n), d(new OGRFeatureDefn(name)), count(0) { d->Reference(); d->SetGeomType(t); }
        ~Layer() { d->Release(); }
        OGRFeatureDefn* GetLayerDefn() { return d; }
        OGRErr CreateField(OGRFieldDefn* f) { d->AddFieldDefn(f); fprintf(out(), "field %d %s %s %d\n", n, esc(f->GetNameRef()).c_str(), OGRFieldDefn::GetFieldTypeName(f->GetType()), f->GetWidth()); return OGRERR_NONE; }
        OGRErr CreateFeature(OGRFeature* f) {
            std::string r;
            for (int i = 0; i < d->GetFieldCount(); ++i) r += std::string(d->GetFieldDefn(i)->GetNameRef()) + (f->IsFieldSetAndNotNull(i) ? "=" + text(f, i) : "-") + " ";
            fprintf(out(), "feature %d %s%s\n", n, r.c_str(), geom(f->GetGeometryRef()).c_str()); ++count; return OGRERR_NONE;
        }
        OGRErr StartTransaction() { fprintf(out(), "begin %d\n", n); return OGRERR_NONE; }
        OGRErr CommitTransaction() { fprintf(out(), "commit %d\n", n); return OGRERR_NONE; }
    };
    struct Source {
        std::vector<Layer*> l;
        ~Source() { for (size_t i = 0; i < l.size(); ++i) delete l[i]; fprintf(out(), "closed\n"); fflush(out()); }
        static void DestroyDataSource(Source* s) { delete s; }
        Layer* CreateLayer(const char* name, OGRSpatialReference* s, OGRwkbGeometryType t, char**) { l.push_back(new Layer(l.size(), name, t)); fprintf(out(), "layer %d %s %s %s\n", int(l.size() - 1), esc(name).c_str(), OGRGeometryTypeToName(t), s && s->IsGeographic() ? "geographic" : "-"); return l.back(); }
        Layer* ExecuteSQL(const char* q, OGRGeometry*, const char*) { fprintf(out(), "sql %s\n", esc(q).c_str()); return 0; }
        void ReleaseResultSet(Layer*) {}
        Layer* GetLayerByName(const char* name) { l.push_back(new Layer(l.size(), name, wkbPoint)); OGRFieldDefn a("id", OFTString), b("tags", OFTString); l.back()->d->AddFieldDefn(&a); l.back()->d->AddFieldDefn(&b); return l.back(); }
    };
    struct Driver { Source* CreateDataSource(const char*, char**) { return new Source; } };
    struct Registrar { static Registrar* GetRegistrar() { static Registrar r; return &r; } Driver* GetDriverByName(const char*) { static Driver d; return &d; } };
}
#define OGRDataSource vp_ogr::Source
#define OGRLayer vp_ogr::Layer
#define OGRSFDriver vp_ogr::Driver
#define OGRSFDriverRegistrar vp_ogr::Registrar
