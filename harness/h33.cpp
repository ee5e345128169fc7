// Objects built and changed by a program.   obj OP OP ...    (fields of an op separated by commas, texts escaped; slots 0..5)
#include <algorithm>
#include <iostream>
#include <set>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/osm/relation.hpp>
#include "rec.hpp"
using namespace vp;
typedef std::vector<std::string> args; using namespace Osmium::OSM;
static long L(const std::string& s) { return strtoll(s.c_str(), 0, 10); }
static shared_ptr<Object> slot[6];
static Node& N(int i) { return static_cast<Node&>(*slot[i]); } static Way& W(int i) { return static_cast<Way&>(*slot[i]); } static Relation& R(int i) { return static_cast<Relation&>(*slot[i]); }
static Position pos(const std::string& x, const std::string& y) { return Position(int32_t(L(x)), int32_t(L(y))); }
static void op(const args& f) {
    char c = f[0][0]; int s = f[1][0] - '0'; const args& a = f;
    switch (c) {
        case 'n': if (a[2] == "n") slot[s] = make_shared<Node>(); else if (a[2] == "w") slot[s] = make_shared<Way>(); else if (a[2] == "r") slot[s] = make_shared<Relation>(); else slot[s] = shared_ptr<Object>(new Way(atoi(a[2].c_str()))); break;
        case 'x': slot[s].reset(); break;
        case 'a': { std::string v = unesc(a[3]); slot[s]->set_attribute(a[2].c_str(), v.c_str()); break; }
        case 'i': { long v = L(a[3]); Object& o = *slot[s]; switch (a[2][0]) { case 'i': o.id(osm_object_id_t(v)); break; case 'v': o.version(osm_version_t(v)).id(o.id()); break; case 'c': o.changeset(osm_changeset_id_t(v)); break; case 'u': o.uid(osm_user_id_t(v)); break; case 't': o.timestamp(time_t(v)); break; case 'e': o.endtime(time_t(v)); break; case 'b': o.visible(v != 0); break; } break; }
        case 'u': { std::string v = unesc(a[2]); slot[s]->user(v.c_str()); std::fill(v.begin(), v.end(), 'X'); break; }
        case 't': { std::string k = unesc(a[2]), v = unesc(a[3]); slot[s]->tags().add(k.c_str(), v.c_str()); std::fill(k.begin(), k.end(), 'X'); std::fill(v.begin(), v.end(), 'X'); break; }
        case 'T': slot[s]->tags().clear(); break;
        case 'g': slot[a[2][0] - '0']->tags(slot[s]->tags()); break;
        case 'k': { TagList& t = slot[s]->tags(); t[atoi(a[2].c_str())] = Tag(unesc(a[3]).c_str(), unesc(a[4]).c_str()); break; }
        case 'y': { int d = a[2][0] - '0'; switch (slot[s]->type()) { case NODE: slot[d] = make_shared<Node>(N(s)); break; case WAY: slot[d] = make_shared<Way>(W(s)); break; default: slot[d] = make_shared<Relation>(R(s)); } break; }
        case '=': { int d = a[2][0] - '0'; switch (slot[s]->type()) { case NODE: N(d) = N(s); break; case WAY: W(d) = W(s); break; default: R(d) = R(s); } break; }
        case 'P': N(s).position(pos(a[2], a[3])).id(N(s).id()); break;
        case 'q': N(s).lon(atof(a[2].c_str())); break;
        case 'Q': N(s).lat(atof(a[2].c_str())); break;
        case 'w': if (a[3] == "0") W(s).add_node(L(a[2])); else if (a[3] == "1") W(s).nodes().add(L(a[2])).push_back(L(a[2]) + 1); else if (a[3] == "2") W(s).nodes().add(WayNode(L(a[2]))); else W(s).nodes().push_back(WayNode().ref(L(a[2]))); break;
        case 'W': if (a[5] == "0") W(s).nodes().add(WayNode(L(a[2]), pos(a[3], a[4]))); else W(s).nodes().push_back(WayNode(5).position(pos(a[3], a[4])).ref(L(a[2]))); break;
        case 'c': W(s).nodes().clear(); break;
        case 'I': { WayNodeList& d = W(a[2][0] - '0').nodes(); d.insert(d.begin() + L(a[3]), W(s).nodes().begin() + L(a[4]), W(s).nodes().begin() + L(a[5])); break; }
        case 'L': W(a[2][0] - '0').nodes() = W(s).nodes(); break;
        case 'm': if (a[4] == "0") W(s).nodes()[L(a[2])].ref(L(a[3])); else if (a[4] == "1") W(s).nodes().front().ref(L(a[3])); else if (a[4] == "2") W(s).nodes().back().ref(L(a[3])); else (W(s).nodes().begin() + L(a[2]))->ref(L(a[3])); break;
        case 'p': W(s).nodes()[L(a[2])].position() = pos(a[3], a[4]); break;
        case 's': std::stable_sort(W(s).nodes().begin(), W(s).nodes().end()); break;
        case 'v': std::reverse(W(s).nodes().begin(), W(s).nodes().end()); break;
        case 'r': { std::string v = unesc(a[4]); R(s).add_member(a[2][0], L(a[3]), v.c_str()); std::fill(v.begin(), v.end(), 'X'); break; }
        case 'M': { RelationMember& m = const_cast<RelationMemberList&>(R(s).members())[L(a[2])]; m.type(a[3][0]).ref(L(a[4])).role(unesc(a[5]).c_str()); break; }
        case 'C': const_cast<RelationMemberList&>(R(s).members()).clear(); break;
        case 'G': { const char* v = slot[s]->tags().get_value_by_key(unesc(a[2]).c_str()); printf("G %s\n", v ? vp::esc(v).c_str() : "-"); break; }
        default: throw std::runtime_error("op");
    }
}
static void show(int i) {
    if (!slot[i]) { printf("S %d\n", i); return; }
    const Object& o = *slot[i]; std::string x;
    switch (o.type()) {
        case NODE: { const Node& n = N(i); printf("S %d %s\n", i, line(n).c_str()); printf("X %.7f %.7f\n", n.position().defined() ? n.lon() : 0, n.position().defined() ? n.lat() : 0); break; }
        case WAY: {
            const Way& w = W(i); const WayNodeList& l = w.nodes(); printf("S %d %s\n", i, line(w).c_str());
            for (WayNodeList::const_reverse_iterator it = l.rbegin(); it != l.rend(); ++it) num(x, it->ref());
            WayNodeList& ml = W(i).nodes(); x += "\t|"; for (WayNodeList::reverse_iterator it = ml.rbegin(); it != ml.rend(); ++it) num(x, it->has_position());
            x += "\t|"; num(x, l.size()); num(x, l.empty()); num(x, w.is_closed()); num(x, l.has_position());
            if (!l.empty()) { num(x, l.front().ref()); num(x, l.back().ref()); num(x, ml.front().ref()); num(x, w.get_first_node_id()); num(x, w.get_last_node_id()); num(x, w.get_node_id(l.size() / 2)); num(x, l[l.size() - 1].ref()); num(x, l.front() == l.back()); num(x, l.front() != l.back()); num(x, l.front() < l.back()); }
            printf("X%s\n", x.c_str()); break;
        }
        default: {
            const Relation& r = R(i); printf("S %d %s\n", i, line(r).c_str()); num(x, r.members().size()); num(x, r.get_member(r.members().size()) == 0); num(x, r.get_member(4000000000u) == 0);
            for (unsigned k = 0; k < r.members().size(); ++k) { const RelationMember* m = r.get_member(k); x += std::string("\t") + m->type_name(); num(x, r.members()[k].ref()); num(x, m == &r.members()[k]); num(x, m == &*(r.members().begin() + k)); }
            printf("X%s\n", x.c_str());
        }
    }
    const TagList& t = o.tags(); x.clear(); num(x, o.user_is_anonymous()); num(x, t.empty()); x += "\t" + o.timestamp_as_string() + "\t" + o.endtime_as_string();
    for (int k = 0; k < t.size(); ++k) { const char* v = t.get_value_by_key(t[k].key()); x += "\t" + vp::esc(v ? v : "NULL"); for (int j = 0; j < k; ++j) x += (t[j] == t[k]) == (t[j] != t[k]) ? 'B' : t[j] == t[k] ? '1' : '0'; }
    printf("O%s\n", x.c_str());
}
struct Job { const args& a; Job(const args& a) : a(a) {}
    void operator()() {
        for (int i = 0; i < 6; ++i) slot[i].reset();
        for (size_t i = 1; i < a.size(); ++i) {
            args f = split(a[i], ',');
            try { op(f); } catch (std::length_error&) { printf("E length %zu\n", i); } catch (std::invalid_argument&) { printf("E invalid %zu\n", i); }
        }
        for (int i = 0; i < 6; ++i) show(i);
        for (int i = 0; i < 6; ++i) slot[i].reset();
    } };
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        args a = split(l, ' ');
        printf("BEGIN %s\n", l.substr(0, 60).c_str()); fflush(stdout);
        std::string res = outcome(Job(a));
        printf("END %s\n", res.c_str()); fflush(stdout);
    }
    return 0;
}
