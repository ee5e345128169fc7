// The part of the C++ interface of GEOS 3.2/3.3 which the code in /repo uses, on top of the C interface
// of the GEOS installed here (whose own C++ interface is different). Stand-in: ownership and exceptions
// follow the old documentation, the computations are done by the real library.
#ifndef VP_GEOS_OLD_HPP
#define VP_GEOS_OLD_HPP
#include <geos_c.h>
// the classes below must not be mixed up with those inside of the installed library
#define geos vp_old_geos
#include <algorithm>
#include <cstring>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>

namespace geos {
namespace util {
    class GEOSException : public std::runtime_error { public: GEOSException(const std::string& s) : std::runtime_error(s) {} };
    class IllegalArgumentException : public GEOSException { public: IllegalArgumentException(const std::string& s) : GEOSException("IllegalArgumentException: " + s) {} };
    class TopologyException : public GEOSException { public: TopologyException(const std::string& s) : GEOSException("TopologyException: " + s) {} };
}
namespace vp {
    inline GEOSContextHandle_t ctx() { static thread_local GEOSContextHandle_t h = GEOS_init_r(); return h; }
    struct Del { void operator()(GEOSGeometry* g) const { GEOSGeom_destroy_r(ctx(), g); } };
    typedef std::unique_ptr<GEOSGeometry, Del> G;
    inline GEOSGeometry* need(GEOSGeometry* g) { if (!g) throw util::TopologyException("operation failed"); return g; }
    // faults: the n-th call of the given kind throws
    struct Fault { char kind; int left; int fired; };
    inline Fault& fault() { static Fault f = {0, 0, 0}; return f; }
    inline void may_fail(char kind) { Fault& f = fault(); if (f.kind == kind && --f.left == 0) { f.fired++; throw util::TopologyException("injected"); } }
    inline bool yes(char c) { if (c == 2) throw util::TopologyException("predicate failed"); return c == 1; }
}
namespace geom {
    class PrecisionModel {};
    struct Coordinate {
        double x, y, z;
        Coordinate(double x = 0, double y = 0, double z = 0) : x(x), y(y), z(z) {}
        bool equals2D(const Coordinate& o) const { return x == o.x && y == o.y; }
    };
    class CoordinateSequence {
        std::vector<Coordinate> m_v;
    public:
        CoordinateSequence() {}
        explicit CoordinateSequence(const std::vector<Coordinate>& v) : m_v(v) {}
        virtual ~CoordinateSequence() {}
        CoordinateSequence* clone() const { return new CoordinateSequence(m_v); }
        size_t getSize() const { return m_v.size(); }
        size_t size() const { return m_v.size(); }
        bool isEmpty() const { return m_v.empty(); }
        double getX(size_t i) const { return m_v.at(i).x; }
        double getY(size_t i) const { return m_v.at(i).y; }
        const Coordinate& getAt(size_t i) const { return m_v.at(i); }
        const Coordinate& operator[](size_t i) const { return m_v.at(i); }
        const std::vector<Coordinate>* toVector() const { return &m_v; }
        void add(const Coordinate& c) { m_v.push_back(c); }
        void add(const Coordinate& c, bool repeated) { if (!repeated && !m_v.empty() && m_v.back().equals2D(c)) return; m_v.push_back(c); }
        GEOSCoordSequence* c() const {
            GEOSCoordSequence* s = GEOSCoordSeq_create_r(vp::ctx(), m_v.size(), 2);
            for (size_t i = 0; i < m_v.size(); ++i) { GEOSCoordSeq_setX_r(vp::ctx(), s, i, m_v[i].x); GEOSCoordSeq_setY_r(vp::ctx(), s, i, m_v[i].y); }
            return s;
        }
    };
    class CoordinateSequenceFactory {
    public:
        virtual ~CoordinateSequenceFactory() {}
        // takes ownership of the vector
        CoordinateSequence* create(std::vector<Coordinate>* v, size_t = 0) const { CoordinateSequence* s = v ? new CoordinateSequence(*v) : new CoordinateSequence; delete v; return s; }
        CoordinateSequence* create(size_t n, size_t) const { return new CoordinateSequence(std::vector<Coordinate>(n)); }
    };
    class CoordinateArraySequenceFactory : public CoordinateSequenceFactory {
    public: static const CoordinateArraySequenceFactory* instance() { static CoordinateArraySequenceFactory f; return &f; }
    };
    enum GeometryTypeId { GEOS_POINT, GEOS_LINESTRING, GEOS_LINEARRING, GEOS_POLYGON, GEOS_MULTIPOINT, GEOS_MULTILINESTRING, GEOS_MULTIPOLYGON, GEOS_GEOMETRYCOLLECTION };

    class Geometry {
    protected:
        int m_srid;
    public:
        Geometry(int srid) : m_srid(srid) {}
        virtual ~Geometry() {}
        virtual GeometryTypeId getGeometryTypeId() const = 0;
        virtual Geometry* clone() const = 0;
        virtual Geometry* reverse() const { throw util::GEOSException("not supported"); }
        virtual GEOSGeometry* c() const = 0;
        vp::G g() const { return vp::G(vp::need(c())); }
        int getSRID() const { return m_srid; }
        void setSRID(int s) { m_srid = s; }
        bool isValid() const { if (getGeometryTypeId() == GEOS_POLYGON) vp::may_fail('v'); return vp::yes(GEOSisValid_r(vp::ctx(), g().get())); }
        bool isSimple() const { return vp::yes(GEOSisSimple_r(vp::ctx(), g().get())); }
        bool isEmpty() const { return vp::yes(GEOSisEmpty_r(vp::ctx(), g().get())); }
        double getArea() const { double a = 0; GEOSArea_r(vp::ctx(), g().get(), &a); return a; }
        bool intersects(const Geometry* o) const { vp::may_fail('i'); return vp::yes(GEOSIntersects_r(vp::ctx(), g().get(), o->g().get())); }
        bool contains(const Geometry* o) const { return vp::yes(GEOSContains_r(vp::ctx(), g().get(), o->g().get())); }
        bool within(const Geometry* o) const { return o->contains(this); }
        inline Geometry* intersection(const Geometry* o) const;
        inline Geometry* symDifference(const Geometry* o) const;
        inline Geometry* difference(const Geometry* o) const;
        inline Geometry* Union(const Geometry* o) const;
    };
    class Point : public Geometry {
        Coordinate m_c; bool m_empty;
    public:
        Point(const Coordinate& c, int srid) : Geometry(srid), m_c(c), m_empty(false) {}
        GeometryTypeId getGeometryTypeId() const { return GEOS_POINT; }
        Geometry* clone() const { return new Point(*this); }
        double getX() const { return m_c.x; }
        double getY() const { return m_c.y; }
        const Coordinate* getCoordinate() const { return &m_c; }
        GEOSGeometry* c() const { std::vector<Coordinate> v(1, m_c); return GEOSGeom_createPoint_r(vp::ctx(), CoordinateSequence(v).c()); }
    };
    class LineString : public Geometry {
    protected:
        std::unique_ptr<CoordinateSequence> m_cs;
    public:
        // takes ownership
        LineString(CoordinateSequence* cs, int srid) : Geometry(srid), m_cs(cs ? cs : new CoordinateSequence) {
            if (m_cs->getSize() == 1) throw util::IllegalArgumentException("point array must contain 0 or >1 elements");
        }
        GeometryTypeId getGeometryTypeId() const { return GEOS_LINESTRING; }
        Geometry* clone() const { return new LineString(m_cs->clone(), m_srid); }
        Geometry* reverse() const { std::vector<Coordinate> v(*m_cs->toVector()); std::reverse(v.begin(), v.end()); return new LineString(new CoordinateSequence(v), m_srid); }
        const CoordinateSequence* getCoordinatesRO() const { return m_cs.get(); }
        CoordinateSequence* getCoordinates() const { return m_cs->clone(); }
        size_t getNumPoints() const { return m_cs->getSize(); }
        bool isClosed() const { return m_cs->getSize() && m_cs->getAt(0).equals2D(m_cs->getAt(m_cs->getSize() - 1)); }
        bool isRing() const { return isClosed() && isSimple(); }
        GEOSGeometry* c() const { return GEOSGeom_createLineString_r(vp::ctx(), m_cs->c()); }
    };
    class LinearRing : public LineString {
    public:
        LinearRing(CoordinateSequence* cs, int srid) : LineString(cs, srid) {
            if (m_cs->getSize() == 0) return;
            if (!isClosed()) throw util::IllegalArgumentException("Points of LinearRing do not form a closed linestring");
            if (m_cs->getSize() < 4) throw util::IllegalArgumentException("Invalid number of points in LinearRing found " + std::to_string(m_cs->getSize()) + " - must be 0 or >= 4");
        }
        GeometryTypeId getGeometryTypeId() const { return GEOS_LINEARRING; }
        Geometry* clone() const { return new LinearRing(m_cs->clone(), m_srid); }
        GEOSGeometry* c() const { return GEOSGeom_createLinearRing_r(vp::ctx(), m_cs->c()); }
    };
    class Polygon : public Geometry {
        std::unique_ptr<LinearRing> m_shell; std::vector<LinearRing*> m_holes;
        Polygon(const Polygon&);
    public:
        Polygon(LinearRing* shell, std::vector<Geometry*>* holes, int srid) : Geometry(srid), m_shell(shell) {
            if (holes) for (size_t i = 0; i < holes->size(); ++i) {
                LinearRing* r = dynamic_cast<LinearRing*>((*holes)[i]);
                if (!r) { m_shell.release(); throw util::IllegalArgumentException("holes must be LinearRings"); }
                m_holes.push_back(r);
            }
            if (!m_shell.get()) throw util::IllegalArgumentException("no shell");
            delete holes;
        }
        ~Polygon() { for (size_t i = 0; i < m_holes.size(); ++i) delete m_holes[i]; }
        GeometryTypeId getGeometryTypeId() const { return GEOS_POLYGON; }
        Geometry* clone() const {
            std::vector<Geometry*>* h = new std::vector<Geometry*>;
            for (size_t i = 0; i < m_holes.size(); ++i) h->push_back(m_holes[i]->clone());
            return new Polygon(static_cast<LinearRing*>(m_shell->clone()), h, m_srid);
        }
        const LineString* getExteriorRing() const { return m_shell.get(); }
        size_t getNumInteriorRing() const { return m_holes.size(); }
        const LineString* getInteriorRingN(size_t i) const { return m_holes.at(i); }
        GEOSGeometry* c() const {
            GEOSGeometry* s = vp::need(m_shell->c()); std::vector<GEOSGeometry*> h;
            for (size_t i = 0; i < m_holes.size(); ++i) h.push_back(vp::need(m_holes[i]->c()));
            return GEOSGeom_createPolygon_r(vp::ctx(), s, h.data(), h.size());
        }
    };
    class GeometryCollection : public Geometry {
    protected:
        std::vector<Geometry*> m_v;
        std::vector<Geometry*>* copies() const { std::vector<Geometry*>* v = new std::vector<Geometry*>; for (size_t i = 0; i < m_v.size(); ++i) v->push_back(m_v[i]->clone()); return v; }
    public:
        typedef std::vector<Geometry*>::const_iterator const_iterator;
        typedef std::vector<Geometry*>::iterator iterator;
        GeometryCollection(std::vector<Geometry*>* v, int srid) : Geometry(srid) { if (v) m_v = *v; delete v; }
        ~GeometryCollection() { for (size_t i = 0; i < m_v.size(); ++i) delete m_v[i]; }
        GeometryTypeId getGeometryTypeId() const { return GEOS_GEOMETRYCOLLECTION; }
        Geometry* clone() const { return new GeometryCollection(copies(), m_srid); }
        const_iterator begin() const { return m_v.begin(); }
        const_iterator end() const { return m_v.end(); }
        size_t getNumGeometries() const { return m_v.size(); }
        const Geometry* getGeometryN(size_t i) const { return m_v.at(i); }
        GEOSGeometry* c() const {
            std::vector<GEOSGeometry*> v; for (size_t i = 0; i < m_v.size(); ++i) v.push_back(vp::need(m_v[i]->c()));
            GeometryTypeId t = getGeometryTypeId();
            return GEOSGeom_createCollection_r(vp::ctx(), t == GEOS_MULTIPOLYGON ? GEOSGeomTypes::GEOS_MULTIPOLYGON : t == GEOS_MULTILINESTRING ? GEOSGeomTypes::GEOS_MULTILINESTRING : GEOSGeomTypes::GEOS_GEOMETRYCOLLECTION, v.data(), v.size());
        }
    };
    class MultiPolygon : public GeometryCollection {
    public:
        MultiPolygon(std::vector<Geometry*>* v, int srid) : GeometryCollection(v, srid) {}
        GeometryTypeId getGeometryTypeId() const { return GEOS_MULTIPOLYGON; }
        Geometry* clone() const { return new MultiPolygon(copies(), m_srid); }
    };
    class MultiLineString : public GeometryCollection {
    public:
        MultiLineString(std::vector<Geometry*>* v, int srid) : GeometryCollection(v, srid) {}
        GeometryTypeId getGeometryTypeId() const { return GEOS_MULTILINESTRING; }
        Geometry* clone() const { return new MultiLineString(copies(), m_srid); }
    };
    class GeometryFactory {
        int m_srid; CoordinateArraySequenceFactory m_csf;
    public:
        GeometryFactory(const PrecisionModel*, int srid) : m_srid(srid) {}
        const CoordinateSequenceFactory* getCoordinateSequenceFactory() const { return &m_csf; }
        int getSRID() const { return m_srid; }
        Point* createPoint(const Coordinate& c) const { return new Point(c, m_srid); }
        LineString* createLineString(CoordinateSequence* cs) const { return new LineString(cs, m_srid); }
        LinearRing* createLinearRing(CoordinateSequence* cs) const { return new LinearRing(cs, m_srid); }
        Polygon* createPolygon(LinearRing* shell, std::vector<Geometry*>* holes) const { if (holes) vp::may_fail('p'); return new Polygon(shell, holes, m_srid); }
        MultiPolygon* createMultiPolygon(std::vector<Geometry*>* v) const { if (v && v->size() > 1) vp::may_fail('m'); return new MultiPolygon(v, m_srid); }
    };
}
namespace vp {
    inline geom::CoordinateSequence* seq(const GEOSGeometry* g) {
        const GEOSCoordSequence* s = GEOSGeom_getCoordSeq_r(ctx(), g); unsigned n = 0; GEOSCoordSeq_getSize_r(ctx(), s, &n);
        std::vector<geom::Coordinate> v(n); for (unsigned i = 0; i < n; ++i) { GEOSCoordSeq_getX_r(ctx(), s, i, &v[i].x); GEOSCoordSeq_getY_r(ctx(), s, i, &v[i].y); }
        return new geom::CoordinateSequence(v);
    }
    inline geom::Geometry* from(const GEOSGeometry* g, int srid) {
        int t = GEOSGeomTypeId_r(ctx(), g);
        if (t == GEOS_POINT) { std::unique_ptr<geom::CoordinateSequence> s(seq(g)); if (s->isEmpty()) return new geom::GeometryCollection(NULL, srid); return new geom::Point(s->getAt(0), srid); }
        if (t == GEOS_LINESTRING) return new geom::LineString(seq(g), srid);
        if (t == GEOS_LINEARRING) return new geom::LinearRing(seq(g), srid);
        if (t == GEOS_POLYGON) {
            std::vector<geom::Geometry*>* h = new std::vector<geom::Geometry*>;
            for (int i = 0; i < GEOSGetNumInteriorRings_r(ctx(), g); ++i) h->push_back(new geom::LinearRing(seq(GEOSGetInteriorRingN_r(ctx(), g, i)), srid));
            return new geom::Polygon(new geom::LinearRing(seq(GEOSGetExteriorRing_r(ctx(), g)), srid), h, srid);
        }
        std::vector<geom::Geometry*>* v = new std::vector<geom::Geometry*>;
        for (int i = 0; i < GEOSGetNumGeometries_r(ctx(), g); ++i) v->push_back(from(GEOSGetGeometryN_r(ctx(), g, i), srid));
        if (t == GEOS_MULTIPOLYGON) return new geom::MultiPolygon(v, srid);
        if (t == GEOS_MULTILINESTRING) return new geom::MultiLineString(v, srid);
        return new geom::GeometryCollection(v, srid);
    }
}
namespace geom {
    inline Geometry* Geometry::intersection(const Geometry* o) const { vp::may_fail('x'); vp::G r(vp::need(GEOSIntersection_r(vp::ctx(), g().get(), o->g().get()))); return vp::from(r.get(), m_srid); }
    inline Geometry* Geometry::symDifference(const Geometry* o) const { vp::G r(vp::need(GEOSSymDifference_r(vp::ctx(), g().get(), o->g().get()))); return vp::from(r.get(), m_srid); }
    inline Geometry* Geometry::difference(const Geometry* o) const { vp::G r(vp::need(GEOSDifference_r(vp::ctx(), g().get(), o->g().get()))); return vp::from(r.get(), m_srid); }
    inline Geometry* Geometry::Union(const Geometry* o) const { vp::G r(vp::need(GEOSUnion_r(vp::ctx(), g().get(), o->g().get()))); return vp::from(r.get(), m_srid); }
    namespace prep {
        class PreparedPolygon {
            vp::G m_g; const GEOSPreparedGeometry* m_p;
            PreparedPolygon(const PreparedPolygon&);
        public:
            PreparedPolygon(const Geometry* g) : m_g(g->g()), m_p(GEOSPrepare_r(vp::ctx(), m_g.get())) {}
            ~PreparedPolygon() { GEOSPreparedGeom_destroy_r(vp::ctx(), m_p); }
            bool contains(const Geometry* g) const { return vp::yes(GEOSPreparedContains_r(vp::ctx(), m_p, g->g().get())); }
            bool covers(const Geometry* g) const { return vp::yes(GEOSPreparedCovers_r(vp::ctx(), m_p, g->g().get())); }
        };
    }
}
namespace operation { namespace polygonize {
    class Polygonizer {
        std::vector<const geom::Geometry*> m_v;
    public:
        void add(const geom::Geometry* g) { m_v.push_back(g); }
        // caller takes ownership of vector and polygons
        std::vector<geom::Polygon*>* getPolygons() {
            std::vector<GEOSGeometry*> v; int srid = 0;
            for (size_t i = 0; i < m_v.size(); ++i) { v.push_back(vp::need(m_v[i]->c())); srid = m_v[i]->getSRID(); }
            GEOSGeometry* r = GEOSPolygonize_r(vp::ctx(), v.data(), v.size());
            for (size_t i = 0; i < v.size(); ++i) GEOSGeom_destroy_r(vp::ctx(), v[i]);
            vp::G rr(vp::need(r)); std::vector<geom::Polygon*>* o = new std::vector<geom::Polygon*>;
            for (int i = 0; i < GEOSGetNumGeometries_r(vp::ctx(), r); ++i) o->push_back(static_cast<geom::Polygon*>(vp::from(GEOSGetGeometryN_r(vp::ctx(), r, i), srid)));
            return o;
        }
    };
} }
namespace algorithm {
    struct CGAlgorithms {
        static bool isCCW(const geom::CoordinateSequence* s) {
            if (s->getSize() < 4) throw util::IllegalArgumentException("Ring has fewer than 3 points, so orientation cannot be determined");
            GEOSCoordSequence* c = s->c(); char r = 0; int ok = GEOSCoordSeq_isCCW_r(vp::ctx(), c, &r); GEOSCoordSeq_destroy_r(vp::ctx(), c);
            if (!ok) throw util::IllegalArgumentException("orientation cannot be determined");
            return r == 1;
        }
    };
}
namespace io {
    class WKTWriter {
    public:
        std::string write(const geom::Geometry* g) {
            GEOSWKTWriter* w = GEOSWKTWriter_create_r(vp::ctx()); GEOSWKTWriter_setTrim_r(vp::ctx(), w, 1); GEOSWKTWriter_setRoundingPrecision_r(vp::ctx(), w, 16);
            char* t = GEOSWKTWriter_write_r(vp::ctx(), w, g->g().get()); std::string s(t ? t : ""); GEOSFree_r(vp::ctx(), t); GEOSWKTWriter_destroy_r(vp::ctx(), w);
            return s;
        }
    };
    class WKBWriter {
        bool m_srid;
        std::string bytes(const geom::Geometry& g, bool hex) {
            GEOSWKBWriter* w = GEOSWKBWriter_create_r(vp::ctx()); GEOSWKBWriter_setByteOrder_r(vp::ctx(), w, 1); GEOSWKBWriter_setOutputDimension_r(vp::ctx(), w, 2);
            GEOSWKBWriter_setIncludeSRID_r(vp::ctx(), w, m_srid); size_t n = 0;
            vp::G c = g.g(); GEOSSetSRID_r(vp::ctx(), c.get(), g.getSRID());
            unsigned char* t = hex ? GEOSWKBWriter_writeHEX_r(vp::ctx(), w, c.get(), &n) : GEOSWKBWriter_write_r(vp::ctx(), w, c.get(), &n);
            std::string s(reinterpret_cast<char*>(t), n); GEOSFree_r(vp::ctx(), t); GEOSWKBWriter_destroy_r(vp::ctx(), w);
            return s;
        }
    public:
        WKBWriter() : m_srid(false) {}
        void setIncludeSRID(bool s) { m_srid = s; }
        void write(const geom::Geometry& g, std::ostream& out) { out << bytes(g, false); }
        void writeHEX(const geom::Geometry& g, std::ostream& out) { out << bytes(g, true); }
    };
}
}
#endif
