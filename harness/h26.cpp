// Debug dump.  Jobs:  dump MULTI SRC   SRC: m:MODELFILE (callbacks fed directly) or f:TYPE:ENC:PATH; prints the dump, escaped
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/handler/debug.hpp>
#include "rec.hpp"
#include <fstream>
using namespace vp;
template <class H> void feed(H& out, const std::string& model) {
    std::ifstream in(model.c_str()); std::string l;
    while (std::getline(in, l)) {
        std::vector<std::string> f = split(l, '\t');
        if (f[0] == "I") { Osmium::OSM::Meta m; set_meta(m, f); out.init(m); }
        else if (f[0] == "N") { shared_ptr<Osmium::OSM::Node> n = make_node(f); out.node(n); }
        else if (f[0] == "W") { shared_ptr<Osmium::OSM::Way> n = make_way(f); out.way(n); }
        else if (f[0] == "R") { shared_ptr<Osmium::OSM::Relation> n = make_relation(f); out.relation(n); }
        else if (f[0] == "BN") out.before_nodes(); else if (f[0] == "AN") out.after_nodes();
        else if (f[0] == "BW") out.before_ways(); else if (f[0] == "AW") out.after_ways();
        else if (f[0] == "BR") out.before_relations(); else if (f[0] == "AR") out.after_relations();
        else if (f[0] == "F") out.final();
    }
}
struct Job { const std::vector<std::string>& a; std::ostream& s; Job(const std::vector<std::string>& a, std::ostream& s) : a(a), s(s) {}
    void operator()() {
        bool m = a[1] == "1";
        if (m) { Osmium::Handler::Debug d(true, s); go(d); } else { Osmium::Handler::Debug d(false, s); go(d); } }
    void go(Osmium::Handler::Debug& d) {
        std::vector<std::string> q = split(a[2], ':');
        if (q[0] == "m") feed(d, q[1]); else { Osmium::OSMFile f = mkfile(q[1], q[2], q[3]); Osmium::Input::read(f, d); }
    } };
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        std::vector<std::string> a = split(l, ' '); std::ostringstream s;
        printf("BEGIN %s\n", l.c_str()); fflush(stdout);
        std::string res = outcome(Job(a, s));
        printf("%s\nEND %s\n", esc(s.str()).c_str(), res.c_str()); fflush(stdout);
    }
    return 0;
}
