// prints the box FindBbox reports for a file, as exact integers
#include <cstdio>
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <osmium.hpp>
#include <osmium/handler/find_bbox.hpp>
int main(int argc, char* argv[]) {
    std::ios_base::sync_with_stdio(false);
    for (int i = 1; i < argc; ++i) {
        Osmium::OSMFile f(argv[i]); Osmium::Handler::FindBbox h;
        Osmium::Input::read(f, h);
        Osmium::OSM::Bounds b = h.bounds();
        if (b.defined()) printf("%d %d %d %d\n", b.bottom_left().x(), b.bottom_left().y(), b.top_right().x(), b.top_right().y()); else printf("undefined\n");
    }
    return 0;
}
