// Relation assembly: asm CONFIG NESTED SRC1 SRC2   CONFIG: letters of n, w, r: wanted types; NESTED: 0, 1, or 1@K (the nested handler stops reading in its call K)
// Members with a role starting with "-" or of a type not in CONFIG are not wanted; relations with a tag "skip" are not kept.
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/relations/assembler.hpp>
#include "rec.hpp"
#include <fstream>
using namespace vp;
typedef std::vector<std::string> args;
static std::string* trace;
static void put(const std::string& s) { *trace += s; *trace += '\n'; }
static long stop_at = -1, calls;
static void tell(const std::string& s) { put(s); if (calls++ == stop_at) throw Osmium::Handler::StopReading(); }

template <class H> void feed(H& out, const std::string& model) {
    std::ifstream in(model.c_str());
    std::string l;
    while (std::getline(in, l)) {
        args f = split(l, '\t');
        if (f[0] == "I") { Osmium::OSM::Meta m; set_meta(m, f); out.init(m); }
        else if (f[0] == "N") { shared_ptr<Osmium::OSM::Node> n = make_node(f); out.node(n); }
        else if (f[0] == "W") { shared_ptr<Osmium::OSM::Way> n = make_way(f); out.way(n); }
        else if (f[0] == "R") { shared_ptr<Osmium::OSM::Relation> n = make_relation(f); out.relation(n); }
        else if (f[0] == "BN") out.before_nodes(); else if (f[0] == "AN") out.after_nodes();
        else if (f[0] == "BW") out.before_ways(); else if (f[0] == "AW") out.after_ways();
        else if (f[0] == "BR") out.before_relations(); else if (f[0] == "AR") out.after_relations();
        else if (f[0] == "F") out.final();
    }
}
template <class H> void source(const std::string& s, H& h) {
    if (s[0] == 'm') { try { feed(h, s.substr(2)); } catch (Osmium::Handler::StopReading&) { h.final(); } }
    else { args a = split(s, ':'); Osmium::Input::read(mkfile(a[1], a[2], a[3]), h); }
}
struct Info : public Osmium::Relations::RelationInfo {
    long extra; std::string why;
    Info() : extra(-1) {}
    Info(const shared_ptr<Osmium::OSM::Relation const>& r) : Osmium::Relations::RelationInfo(r), extra(r->id() * 3 + 1), why("relation") {}
};
static std::string any(const Osmium::OSM::Object& o) {
    switch (o.type()) {
        case NODE: return line(static_cast<const Osmium::OSM::Node&>(o));
        case WAY: return line(static_cast<const Osmium::OSM::Way&>(o));
        default: return line(static_cast<const Osmium::OSM::Relation&>(o));
    }
}
struct Rec2 : public Recorder { };
struct Nested : public Osmium::Handler::Base {
    void init(Osmium::OSM::Meta& m) { tell("H " + line(m)); }
    void before_nodes() { tell("H BN"); } void after_nodes() { tell("H AN"); }
    void before_ways() { tell("H BW"); } void after_ways() { tell("H AW"); }
    void before_relations() { tell("H BR"); } void after_relations() { tell("H AR"); }
    void node(const shared_ptr<Osmium::OSM::Node const>& n) { tell("H " + line(*n)); }
    void way(const shared_ptr<Osmium::OSM::Way const>& n) { tell("H " + line(*n)); }
    void relation(const shared_ptr<Osmium::OSM::Relation const>& n) { tell("H " + line(*n)); }
    void final() { put("H F"); }
};
template <bool N, bool W, bool R, class H> class A : public Osmium::Relations::Assembler<A<N, W, R, H>, Info, N, W, R, H> {
    typedef Osmium::Relations::Assembler<A<N, W, R, H>, Info, N, W, R, H> T;
    friend class T::HandlerPass1; friend class T::HandlerPass2; friend class Osmium::Relations::Assembler<A<N, W, R, H>, Info, N, W, R, H>;
public:
    A() {} A(H& h) : T(h) {}
    void relation(const shared_ptr<Osmium::OSM::Relation const>& r) { if (!r->tags().get_value_by_key("skip")) T::add_relation(Info(r)); }
    bool keep_member(Osmium::Relations::RelationInfo& info, const Osmium::OSM::RelationMember& m) {
        if (static_cast<Info&>(info).extra != info.relation()->id() * 3 + 1) put("BAD info-at-keep");
        if (m.role()[0] == '-') return false;
        return m.type() == 'n' ? N : m.type() == 'w' ? W : m.type() == 'r' ? R : false;
    }
    void dump(const char* what, const Info& i) {
        std::string s = std::string(what) + " " + line(*i.relation());
        if (i.extra != i.relation()->id() * 3 + 1 || i.why != "relation") s += " BADINFO";
        for (size_t k = 0; k < i.members().size(); ++k) { s += "|"; if (i.members()[k]) s += any(*i.members()[k]); else s += "-"; }
        put(s);
    }
    void complete_relation(Info& i) { if (i.need_members() != 0 || !i.has_all_members()) put("BAD need-members"); dump("C", i); }
    void node_not_in_any_relation(const shared_ptr<Osmium::OSM::Node const>& o) { put("U " + line(*o)); }
    void way_not_in_any_relation(const shared_ptr<Osmium::OSM::Way const>& o) { put("U " + line(*o)); }
    void relation_not_in_any_relation(const shared_ptr<Osmium::OSM::Relation const>& o) { put("U " + line(*o)); }
    void all_members_available() {
        put("A"); T::clean_assembled_relations();
        for (size_t i = 0; i < T::relations().size(); ++i) dump("L", T::relations()[i]);
    }
};
template <bool N, bool W, bool R> void go(const args& a) {
    if (a[2][0] == '1') { Nested n; A<N, W, R, Nested> x(n); source(a[3], x.handler_pass1()); put("P2"); source(a[4], x.handler_pass2()); }
    else { A<N, W, R, Osmium::Handler::Base> x; source(a[3], x.handler_pass1()); put("P2"); source(a[4], x.handler_pass2()); }
}
struct Job { const args& a; Job(const args& a) : a(a) {}
    void operator()() {
        const std::string& c = a[1]; bool n = c.find('n') != c.npos, w = c.find('w') != c.npos, r = c.find('r') != c.npos;
        if (n && w && r) go<true, true, true>(a); else if (n && w) go<true, true, false>(a); else if (n && r) go<true, false, true>(a);
        else if (w && r) go<false, true, true>(a); else if (n) go<true, false, false>(a); else if (w) go<false, true, false>(a); else go<false, false, true>(a);
    } };
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        args a = split(l, ' ');
        printf("BEGIN %s\n", l.c_str()); fflush(stdout);
        std::string t; trace = &t; calls = 0; stop_at = a[2].size() > 2 ? atol(a[2].c_str() + 2) : -1;
        std::string res = outcome(Job(a));
        fwrite(t.data(), 1, t.size(), stdout);
        printf("END %s\n", res.c_str()); fflush(stdout);
    }
    return 0;
}
