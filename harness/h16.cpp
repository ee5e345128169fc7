// Keeping objects: keep SEED P_KEEP P_DROP MUTATE VIA SRC
// Every object is snapshot when it is delivered; kept ones are compared with their snapshot again and again.
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/handler/endtime.hpp>
#include <osmium/handler/coordinates_for_ways.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/objectstore.hpp>
#include <osmium/relations/assembler.hpp>
#include "rec.hpp"
#include <random>
using namespace vp;
typedef std::vector<std::string> args;
static std::string any(const Osmium::OSM::Object& o) {
    switch (o.type()) {
        case NODE: return line(static_cast<const Osmium::OSM::Node&>(o));
        case WAY: return line(static_cast<const Osmium::OSM::Way&>(o));
        default: return line(static_cast<const Osmium::OSM::Relation&>(o));
    }
}
static long checked = 0, keeps = 0, drops = 0;
struct Kept { shared_ptr<Osmium::OSM::Object const> o; std::string s; };
struct Pool {
    std::vector<Kept> v; std::mt19937_64 rng; int pk, pd; long n;
    Pool(long seed, int pk, int pd) : rng(seed), pk(pk), pd(pd), n(0) {}
    void verify(const char* when) { for (size_t i = 0; i < v.size(); ++i) { ++checked; std::string now = any(*v[i].o); if (now != v[i].s) printf("BAD changed %s was %s is %s\n", when, v[i].s.c_str(), now.c_str()); } }
    void drop() { while (!v.empty() && int(rng() % 100) < pd) { size_t i = rng() % v.size(); std::swap(v[i], v.back()); v.pop_back(); ++drops; } }
    template <class T> void see(const shared_ptr<T>& o) {
        if (int(rng() % 100) < pk) { Kept k; k.o = o; k.s = any(*o); v.push_back(k); ++keeps; if (rng() % 4 == 0) v.push_back(k); }
        drop();
        if (++n % 37 == 0) verify("while reading");
    }
};
class Keeper : public Osmium::Handler::Base {
public:
    Recorder r; Pool& p; Keeper(Pool& p) : p(p) {}
    void init(Osmium::OSM::Meta& m) { r.init(m); }
    void before_nodes() { r.before_nodes(); } void after_nodes() { r.after_nodes(); p.drop(); }
    void before_ways() { r.before_ways(); } void after_ways() { r.after_ways(); p.verify("after ways"); }
    void before_relations() { r.before_relations(); } void after_relations() { r.after_relations(); p.drop(); }
    void node(const shared_ptr<Osmium::OSM::Node const>& n) { r.node(n); p.see(n); }
    void way(const shared_ptr<Osmium::OSM::Way const>& n) { r.way(n); p.see(n); }
    void relation(const shared_ptr<Osmium::OSM::Relation const>& n) { r.relation(n); p.see(n); }
    void final() { r.final(); p.verify("at the end"); }
};
// changes every object after the recorder saw it; must not show up in later objects
class Mutator : public Osmium::Handler::Base {
public:
    Keeper& k; bool on; std::mt19937_64 rng;
    Mutator(Keeper& k, bool on, long seed) : k(k), on(on), rng(seed) {}
    template <class T> void change(T& o) { if (!on || rng() % 2) return;
        o.version(4242); o.id(987654321); o.timestamp(time_t(77)); o.uid(99); o.user("LEFTOVER"); o.changeset(4711); o.endtime(123456); o.visible(false); o.tags().add("LEFTOVER", "x"); }
    void init(Osmium::OSM::Meta& m) { k.init(m); } void final() { k.final(); }
    void before_nodes() { k.before_nodes(); } void after_nodes() { k.after_nodes(); } void before_ways() { k.before_ways(); } void after_ways() { k.after_ways(); }
    void before_relations() { k.before_relations(); } void after_relations() { k.after_relations(); }
    // only objects nobody keeps are changed
    void node(const shared_ptr<Osmium::OSM::Node>& n) { k.node(n); if (mine(n)) { change(*n); if (on) n->position(Osmium::OSM::Position(5, 5)); } }
    void way(const shared_ptr<Osmium::OSM::Way>& n) { k.way(n); if (mine(n)) { change(*n); if (on) n->add_node(31337); } }
    void relation(const shared_ptr<Osmium::OSM::Relation>& n) { k.relation(n); if (mine(n)) { change(*n); if (on) n->add_member('n', 31337, "LEFTOVER"); } }
    bool mine(const shared_ptr<Osmium::OSM::Object const>& o) { return o.use_count() <= 2; }   // the parser's and the one of this call
};
struct Multi : public Osmium::Relations::Assembler<Multi, Osmium::Relations::RelationInfo, true, true, true, Keeper> {
    typedef Osmium::Relations::Assembler<Multi, Osmium::Relations::RelationInfo, true, true, true, Keeper> T;
    Pool& p; Multi(Keeper& k, Pool& p) : T(k), p(p) {}
    void relation(const shared_ptr<Osmium::OSM::Relation const>& r) { T::add_relation(Osmium::Relations::RelationInfo(r)); p.see(r); }
    bool keep_member(Osmium::Relations::RelationInfo&, const Osmium::OSM::RelationMember&) { return true; }
    void complete_relation(Osmium::Relations::RelationInfo& i) {
        p.see(i.relation());
        for (size_t k = 0; k < i.members().size(); ++k) if (i.members()[k]->id() != i.relation()->members().begin()[k].ref()) printf("BAD member %s in %s\n", any(*i.members()[k]).c_str(), any(*i.relation()).c_str()); else p.see(i.members()[k]);
    }
};
struct Job { const args& a; Job(const args& a) : a(a) {}
    void operator()() {
        long seed = atol(a[1].c_str()); const std::string& via = a[5];
        Pool p(seed, atoi(a[2].c_str()), atoi(a[3].c_str())); bool mut = a[4] == "1";
        args f = split(a[6], ':'); Osmium::OSMFile file = mkfile(f[0], f[1], f[2]);
        Keeper k(p); 
        if (via == "direct") { Mutator m(k, mut, seed + 1); Osmium::Input::read(file, m); }
        else if (via == "const") Osmium::Input::read(file, k);
        else if (via == "endtime") { Osmium::Handler::EndTime<Keeper> e(k); Osmium::Input::read(file, e); }
        else if (via == "store") {
            Osmium::Storage::ObjectStore os; Osmium::Handler::Forward<Osmium::Storage::ObjectStore> fw(os);
            Keeper k2(p); k2.r.quiet = true;
            Osmium::Handler::Sequence<Osmium::Storage::ObjectStore, Keeper> s(os, k2);
            Osmium::Input::read(file, s);
            p.verify("after reading"); p.drop();
            Osmium::OSM::Meta m; os.feed_to(&k, m);
        } else if (via == "coords") {
            Osmium::Storage::ById::SparseTable<Osmium::OSM::Position> s, t; Osmium::Handler::CoordinatesForWays<Osmium::Storage::ById::SparseTable<Osmium::OSM::Position>, Osmium::Storage::ById::SparseTable<Osmium::OSM::Position> > c(s, t);
            Osmium::Handler::Sequence<Osmium::Handler::CoordinatesForWays<Osmium::Storage::ById::SparseTable<Osmium::OSM::Position>, Osmium::Storage::ById::SparseTable<Osmium::OSM::Position> >, Keeper> q(c, k);
            Osmium::Input::read(file, q);
        } else if (via == "assembler") { Multi m(k, p); Osmium::Input::read(file, m.handler_pass1()); p.verify("between passes"); Osmium::Input::read(file, m.handler_pass2()); }
        else if (via == "twofiles") { Keeper k2(p); k2.r.quiet = true; Osmium::Input::read(file, k2); p.verify("after first file"); Osmium::Input::read(file, k); }
        p.verify("after everything"); p.pd = 60; for (int i = 0; i < 4; ++i) { p.drop(); p.verify("while dropping"); }
        fwrite(k.r.out.data(), 1, k.r.out.size(), stdout);
    } };
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        args a = split(l, ' ');
        printf("BEGIN %s\n", l.c_str()); fflush(stdout); checked = keeps = drops = 0;
        std::string res = outcome(Job(a));
        printf("C kept %ld dropped %ld compared %ld\n", keeps, drops, checked);
        printf("END %s\n", res.c_str()); fflush(stdout);
    }
    return 0;
}
