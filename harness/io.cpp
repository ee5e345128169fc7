// Job server for reading and writing OSM files through the library.
//   read TYPE ENC STOP_AT STOP_HOW PATH
//   write TYPE ENC OPTS PATH MODELFILE     OPTS: comma list dense=0,comp=0,meta=0,gran=N,dgran=N or "-" (factory) ; gen=%-escaped
//   conv TYPE ENC PATH TYPE ENC PATH       read -> output handler pipeline
// Type or encoding "-" means: from the file name.
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/output/pbf.hpp>
#include <osmium/output/xml.hpp>
#include "rec.hpp"
#include <clocale>
#include <fstream>

using namespace vp;

template <class H> void feed(H& out, const std::string& model) {
    std::ifstream in(model.c_str());
    std::string l;
    while (std::getline(in, l)) {
        std::vector<std::string> f = split(l, '\t');
        if (f[0] == "I") { Osmium::OSM::Meta m; set_meta(m, f); out.init(m); }
        else if (f[0] == "N") { shared_ptr<Osmium::OSM::Node> n = make_node(f); out.node(n); }
        else if (f[0] == "W") { shared_ptr<Osmium::OSM::Way> n = make_way(f); out.way(n); }
        else if (f[0] == "R") { shared_ptr<Osmium::OSM::Relation> n = make_relation(f); out.relation(n); }
        else if (f[0] == "BN") out.before_nodes(); else if (f[0] == "AN") out.after_nodes();
        else if (f[0] == "BW") out.before_ways(); else if (f[0] == "AW") out.after_ways();
        else if (f[0] == "BR") out.before_relations(); else if (f[0] == "AR") out.after_relations();
        else if (f[0] == "F") out.final();
        else if (f[0] == "Q") return;   // abandon without final
    }
}
struct ReadJob { Osmium::OSMFile f; Recorder& r; ReadJob(const Osmium::OSMFile& f, Recorder& r) : f(f), r(r) {}
    void operator()() { Osmium::Input::read(f, r); } };
struct WriteJob { std::vector<std::string> a; WriteJob(const std::vector<std::string>& a) : a(a) {}
    void operator()() {
        Osmium::OSMFile f = mkfile(a[1], a[2], a[4]);
        if (a[3].compare(0, 1, "-") == 0) {
            Osmium::Output::Handler out(f);
            if (a[3].size() > 1) out.set_generator(unesc(a[3].substr(5)));  // "-gen=..."
            feed(out, a[5]);
        } else {
            shared_ptr<Osmium::Output::PBF> pp(new Osmium::Output::PBF(f));
            std::vector<std::string> o = split(a[3], ',');
            for (size_t i = 0; i < o.size(); ++i) {
                size_t e = o[i].find('='); std::string k = o[i].substr(0, e); std::string v = o[i].substr(e + 1);
                int n = atoi(v.c_str());
                if (k == "dense") pp->use_dense_format(n); else if (k == "comp") pp->use_compression(n);
                else if (k == "meta") pp->should_add_metadata(n); else if (k == "gran") pp->location_granularity(n);
                else if (k == "dgran") pp->date_granularity(n); else if (k == "gen") pp->set_generator(unesc(v));
            }
            feed(*pp, a[5]);
        }
    } };
struct ConvJob { std::vector<std::string> a; ConvJob(const std::vector<std::string>& a) : a(a) {}
    void operator()() {
        Osmium::OSMFile in = mkfile(a[1], a[2], a[3]);
        Osmium::OSMFile of = mkfile(a[4], a[5], a[6]);
        Osmium::Output::Handler out(of);
        Osmium::Input::read(in, out);
    } };

int main() {
    if (getenv("VP_SETLOCALE")) setlocale(LC_ALL, "");    // a program that talks the language of its user
    std::string l;
    while (std::getline(std::cin, l)) {
        std::vector<std::string> a = split(l, ' ');
        std::string res;
        printf("BEGIN %s\n", l.c_str()); fflush(stdout);
        if (a[0] == "read") {
            Recorder r; r.stop_at = atol(a[3].c_str()); r.stop_how = atoi(a[4].c_str());
            if (r.stop_how == 0) r.stop_at = -1;
            res = outcome(ReadJob(mkfile(a[1], a[2], a[5]), r));
            fwrite(r.out.data(), 1, r.out.size(), stdout);
        } else if (a[0] == "write") {
            res = outcome(WriteJob(a));
        } else if (a[0] == "conv") {
            res = outcome(ConvJob(a));
        } else res = "badjob";
        printf("END %s\n", res.c_str()); fflush(stdout);
    }
    return 0;
}
