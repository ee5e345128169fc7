// Segments.
//   seg X1:Y1:X2:Y2,...   every pair of segments compared, sorted, in sets and maps; "u" for an undefined position
#include <iostream>
#include <set>
#include <map>
#include <algorithm>
#include <osmium/osm/segment.hpp>
#include <osmium/osm/undirected_segment.hpp>
#include "rec.hpp"
using namespace vp;
typedef std::vector<std::string> args;
using Osmium::OSM::Position; using Osmium::OSM::Segment; using Osmium::OSM::UndirectedSegment;
template <class S> static std::string show(const S& s) { std::ostringstream o; o << s.first().x() << ":" << s.first().y() << ":" << s.second().x() << ":" << s.second().y(); return o.str(); }
template <class T> static void list(const char* n, T b, T e) { printf("%s", n); for (; b != e; ++b) printf(" %s", show(*b).c_str()); printf("\n"); }
struct Job { const args& a; Job(const args& a) : a(a) {}
    void operator()() {
        if (a[0] != "seg") throw std::runtime_error("job");
        std::vector<Segment> d; std::vector<UndirectedSegment> u; args v = a.size() > 1 ? split(a[1], ',') : args();
        for (size_t i = 0; i < v.size(); ++i) {
            args f = split(v[i], ':'); Position p[2];
            for (int k = 0; k < 2; ++k) if (f[2 * k] != "u") p[k] = Position(int32_t(atol(f[2 * k].c_str())), int32_t(atol(f[2 * k + 1].c_str())));
            d.push_back(Segment(p[0], p[1])); u.push_back(UndirectedSegment(p[0], p[1]));
        }
        list("D", d.begin(), d.end()); list("U", u.begin(), u.end());
        std::string e, l;
        for (size_t i = 0; i < u.size(); ++i) for (size_t j = 0; j < u.size(); ++j) {
            e += char('0' + (d[i] == d[j]) + 2 * (d[i] != d[j]) + 4 * (u[i] == u[j]));
            l += char('0' + (u[i] < u[j]) + 2 * (u[i] > u[j]) + 4 * (u[i] <= u[j])); l += char('0' + (u[i] >= u[j]));
        }
        printf("E %s\nL %s\n", e.c_str(), l.c_str());
        std::vector<UndirectedSegment> s(u); std::sort(s.begin(), s.end()); list("S", s.begin(), s.end());
        std::stable_sort(u.begin(), u.end(), std::greater<UndirectedSegment>()); list("G", u.begin(), u.end());
        std::set<UndirectedSegment> t(u.begin(), u.end()); list("T", t.begin(), t.end());
        std::multiset<UndirectedSegment> m(u.begin(), u.end()); printf("N"); for (size_t i = 0; i < d.size(); ++i) printf(" %zu", m.count(UndirectedSegment(d[i].second(), d[i].first()))); printf("\n");
        Segment x(d.empty() ? Segment(Position(), Position()) : d[0]); for (size_t i = 0; i < d.size(); ++i) { x = d[i]; Segment y(x); if (!(y == d[i]) || y != x) printf("copy\n"); UndirectedSegment z(u[i]); z = u[0]; if (!(z == u[0])) printf("copy\n"); }
    } };
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        args a = split(l, ' ');
        printf("BEGIN %s\n", l.c_str()); fflush(stdout);
        std::string res = outcome(Job(a));
        printf("END %s\n", res.c_str()); fflush(stdout);
    }
    return 0;
}
