// The progress display, fed directly: h30 STEP|- OPS...
//   n12 w3 r1: so many objects, s5: sleep so many milliseconds, x: stop without the final call. In front of the display a handler which counts.
#include <iostream>
#include <unistd.h>
#include <osmium/handler.hpp>
#include <osmium/handler/progress.hpp>
#include "rec.hpp"
struct Count : public Osmium::Handler::Base {
    unsigned long n, w, r; Count() : n(0), w(0), r(0) {}
    void node(const shared_ptr<Osmium::OSM::Node const>&) { ++n; }
    void way(const shared_ptr<Osmium::OSM::Way const>&) { ++w; }
    void relation(const shared_ptr<Osmium::OSM::Relation const>&) { ++r; }
};
template <class P> void go(P& p, int argc, char** argv) {
    Count a, b; typedef Osmium::Handler::Sequence<Count, P> S; S s1(a, p); Osmium::Handler::Sequence<S, Count> s(s1, b); Osmium::OSM::Meta m; bool f = true;
    shared_ptr<Osmium::OSM::Node> n = make_shared<Osmium::OSM::Node>(); shared_ptr<Osmium::OSM::Way> w = make_shared<Osmium::OSM::Way>(); shared_ptr<Osmium::OSM::Relation> r = make_shared<Osmium::OSM::Relation>();
    s.init(m);
    for (int i = 2; i < argc; ++i) {
        long k = atol(argv[i] + 1);
        switch (argv[i][0]) {
            case 'n': s.before_nodes(); while (k-- > 0) s.node(n); s.after_nodes(); break;
            case 'w': s.before_ways(); while (k-- > 0) s.way(w); s.after_ways(); break;
            case 'r': s.before_relations(); while (k-- > 0) s.relation(r); s.after_relations(); break;
            case 's': usleep(k * 1000); break;
            case 'x': f = false; break;
        }
    }
    if (f) s.final(); else p.show_cursor();
    std::cerr << a.n << " " << a.w << " " << a.r << " " << b.n << " " << b.w << " " << b.r << " " << n.use_count() << w.use_count() << r.use_count() << "\n";
}
int main(int argc, char** argv) {
    if (std::string(argv[1]) == "-") { Osmium::Handler::Progress p; go(p, argc, argv); } else { Osmium::Handler::Progress p(atoi(argv[1])); go(p, argc, argv); }
    return 0;
}
