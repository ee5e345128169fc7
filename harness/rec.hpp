// Recorder handler: writes every callback and the full content of every object as one text line.
#ifndef VP_REC_HPP
#define VP_REC_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <stdint.h>
#include <typeinfo>
#include <osmium/smart_ptr.hpp>
#include <osmium/handler.hpp>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/osm/relation.hpp>
#include <osmium/osm/meta.hpp>
#include <osmium/osmfile.hpp>

namespace vp {

inline void esc(std::string& o, const char* s, size_t n) {
    static const char* hex = "0123456789ABCDEF";
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = s[i];
        if (c > 0x20 && c < 0x7f && c != '%') o += char(c);
        else { o += '%'; o += hex[c >> 4]; o += hex[c & 15]; }
    }
}
inline void esc(std::string& o, const char* s) { esc(o, s, strlen(s)); }
inline std::string esc(const std::string& s) { std::string o; esc(o, s.data(), s.size()); return o; }
inline std::string unesc(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size() + 0 && i + 2 <= s.size() - 1) {
            o += char(strtol(s.substr(i + 1, 2).c_str(), 0, 16)); i += 2;
        } else o += s[i];
    }
    return o;
}
inline std::vector<std::string> split(const std::string& s, char d) {
    std::vector<std::string> v; size_t p = 0;
    for (;;) { size_t q = s.find(d, p); if (q == std::string::npos) { v.push_back(s.substr(p)); return v; } v.push_back(s.substr(p, q - p)); p = q + 1; }
}
template <class T> inline void num(std::string& o, T v) { char b[40]; snprintf(b, sizeof b, "\t%lld", (long long)v); o += b; }

inline void common(std::string& o, const Osmium::OSM::Object& x) {
    num(o, x.id()); num(o, x.version()); num(o, x.changeset()); num(o, x.timestamp()); num(o, x.uid());
    num(o, x.visible() ? 1 : 0); o += '\t'; esc(o, x.user()); num(o, x.endtime());
}
inline void tags(std::string& o, const Osmium::OSM::TagList& t) {
    num(o, t.size());
    for (Osmium::OSM::TagList::const_iterator it = t.begin(); it != t.end(); ++it) {
        o += '\t'; esc(o, it->key()); o += '\t'; esc(o, it->value());
    }
}
inline std::string line(const Osmium::OSM::Node& n) {
    std::string o = "N"; common(o, n); num(o, n.position().x()); num(o, n.position().y()); tags(o, n.tags()); return o;
}
inline std::string line(const Osmium::OSM::Way& w) {
    std::string o = "W"; common(o, w); num(o, w.nodes().size());
    for (Osmium::OSM::WayNodeList::const_iterator it = w.nodes().begin(); it != w.nodes().end(); ++it) {
        num(o, it->ref());
        if (it->position().x() != 2147483647 || it->position().y() != 2147483647) {
            char b[60]; snprintf(b, sizeof b, ":%d:%d", it->position().x(), it->position().y()); o += b;
        }
    }
    tags(o, w.tags()); return o;
}
inline std::string line(const Osmium::OSM::Relation& r) {
    std::string o = "R"; common(o, r); num(o, r.members().size());
    for (Osmium::OSM::RelationMemberList::const_iterator it = r.members().begin(); it != r.members().end(); ++it) {
        o += '\t'; o += it->type(); num(o, it->ref()); o += '\t'; esc(o, it->role());
    }
    tags(o, r.tags()); return o;
}
inline std::string line(const Osmium::OSM::Meta& m) {
    std::string o = "I\t"; esc(o, m.generator().data(), m.generator().size()); num(o, m.has_multiple_object_versions() ? 1 : 0);
    if (m.bounds().defined()) {
        num(o, m.bounds().bottom_left().x()); num(o, m.bounds().bottom_left().y());
        num(o, m.bounds().top_right().x()); num(o, m.bounds().top_right().y());
    }
    return o;
}
// build objects from a line in the same format
inline void set_common(Osmium::OSM::Object& x, const std::vector<std::string>& f) {
    x.id((osm_object_id_t)strtoll(f[1].c_str(), 0, 10)).version((osm_version_t)strtoul(f[2].c_str(), 0, 10))
     .changeset((osm_changeset_id_t)strtol(f[3].c_str(), 0, 10)).timestamp((time_t)strtoll(f[4].c_str(), 0, 10))
     .uid((osm_user_id_t)strtol(f[5].c_str(), 0, 10)).visible(f[6] == "1");
    x.user(unesc(f[7]).c_str());
    x.endtime(strtoll(f[8].c_str(), 0, 10));
}
inline void set_tags(Osmium::OSM::Object& x, const std::vector<std::string>& f, size_t p) {
    int n = atoi(f[p++].c_str());
    for (int i = 0; i < n; ++i, p += 2) x.tags().add(unesc(f[p]).c_str(), unesc(f[p + 1]).c_str());
}
inline shared_ptr<Osmium::OSM::Node> make_node(const std::vector<std::string>& f) {
    shared_ptr<Osmium::OSM::Node> n = make_shared<Osmium::OSM::Node>();
    set_common(*n, f);
    n->position(Osmium::OSM::Position((int32_t)atoi(f[9].c_str()), (int32_t)atoi(f[10].c_str())));
    set_tags(*n, f, 11);
    return n;
}
inline shared_ptr<Osmium::OSM::Way> make_way(const std::vector<std::string>& f) {
    shared_ptr<Osmium::OSM::Way> w = make_shared<Osmium::OSM::Way>();
    set_common(*w, f);
    int n = atoi(f[9].c_str()); size_t p = 10;
    for (int i = 0; i < n; ++i, ++p) {
        std::vector<std::string> q = split(f[p], ':');
        if (q.size() == 3) w->nodes().add(Osmium::OSM::WayNode(strtoll(q[0].c_str(), 0, 10), Osmium::OSM::Position((int32_t)atoi(q[1].c_str()), (int32_t)atoi(q[2].c_str()))));
        else w->add_node(strtoll(f[p].c_str(), 0, 10));
    }
    set_tags(*w, f, p);
    return w;
}
inline shared_ptr<Osmium::OSM::Relation> make_relation(const std::vector<std::string>& f) {
    shared_ptr<Osmium::OSM::Relation> r = make_shared<Osmium::OSM::Relation>();
    set_common(*r, f);
    int n = atoi(f[9].c_str()); size_t p = 10;
    for (int i = 0; i < n; ++i, p += 3) r->add_member(f[p][0], strtoll(f[p + 1].c_str(), 0, 10), unesc(f[p + 2]).c_str());
    set_tags(*r, f, p);
    return r;
}
inline void set_meta(Osmium::OSM::Meta& m, const std::vector<std::string>& f) {
    m.generator(unesc(f[1]));
    m.has_multiple_object_versions(f[2] == "1");
    if (f.size() >= 7) {
        m.bounds().extend(Osmium::OSM::Position((int32_t)atoi(f[3].c_str()), (int32_t)atoi(f[4].c_str())));
        m.bounds().extend(Osmium::OSM::Position((int32_t)atoi(f[5].c_str()), (int32_t)atoi(f[6].c_str())));
    }
}

struct Other {};  // exception thrown by test handlers

class Recorder : public Osmium::Handler::Base {
public:
    std::string out;
    std::string prefix;
    // what to do at event number stop_at (0-based): 1 = StopReading, 2 = throw Other
    long stop_at; int stop_how; long count; bool in_final; bool quiet;
    Recorder() : stop_at(-1), stop_how(0), count(0), in_final(false), quiet(false) {}
    void ev(const std::string& s) {
        if (!quiet) { out += prefix; out += s; out += '\n'; }
        if (count++ == stop_at) {
            if (stop_how == 1) throw Osmium::Handler::StopReading();
            if (stop_how == 2) throw Other();
        }
    }
    void init(Osmium::OSM::Meta& m) { ev(line(m)); }
    void before_nodes() { ev("BN"); }
    void node(const shared_ptr<Osmium::OSM::Node const>& n) { ev(line(*n)); }
    void after_nodes() { ev("AN"); }
    void before_ways() { ev("BW"); }
    void way(const shared_ptr<Osmium::OSM::Way const>& n) { ev(line(*n)); }
    void after_ways() { ev("AW"); }
    void before_relations() { ev("BR"); }
    void relation(const shared_ptr<Osmium::OSM::Relation const>& n) { ev(line(*n)); }
    void after_relations() { ev("AR"); }
    void final() { ev("F"); }
};

// run f(), describing how it ended
template <class F> std::string outcome(F f) {
    try { f(); return "ok"; }
    catch (Osmium::OSMFile::FileTypeOSMExpected&) { return "exc FileTypeOSMExpected"; }
    catch (Osmium::OSMFile::FileTypeHistoryExpected&) { return "exc FileTypeHistoryExpected"; }
    catch (Osmium::OSMFile::FileEncodingNotSupported&) { return "exc FileEncodingNotSupported"; }
    catch (Osmium::OSMFile::IOError& e) { return std::string("exc IOError ") + vp::esc(e.what()); }
    catch (Osmium::OSMFile::SystemError& e) { return std::string("exc SystemError ") + vp::esc(e.what()); }
    catch (Osmium::OSMFile::ArgumentError& e) { return std::string("exc ArgumentError ") + vp::esc(e.what()); }
    catch (Osmium::Handler::StopReading&) { return "exc StopReading"; }
    catch (Other&) { return "exc Other"; }
    catch (std::exception& e) { return std::string("exc std ") + vp::esc(e.what()); }
    catch (...) { return "exc unknown"; }
}
inline Osmium::OSMFile mkfile(const std::string& type, const std::string& enc, const std::string& path) {
    Osmium::OSMFile f(path);
    if (type != "-") f.type(type);
    if (enc != "-") f.encoding(enc);
    return f;
}
}
#endif
