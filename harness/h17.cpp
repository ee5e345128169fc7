// Tag filters and formatters.
//   filter KIND DEFAULT RULES TAGS KEYS      KIND key|kv|re; RULES r:key[:value],...; TAGS k:v,...; KEYS k,...   (all texts %-escaped, "-" empty list)
//   format ESC PREFIX INFIX SUFFIX JOIN KIND DEFAULT RULES TAGS      ("hstore" or "kev" as ESC: the ready-made operations)
#include <osmium/osm/node.hpp>
#include <osmium/tags/key_filter.hpp>
#include <osmium/tags/key_value_filter.hpp>
#include <osmium/tags/regex_filter.hpp>
#include <osmium/tags/to_string.hpp>
#include <osmium/utils/filter_and_accumulate.hpp>
#include "rec.hpp"
using namespace vp;
typedef std::vector<std::string> args;
using Osmium::OSM::TagList;

static TagList taglist(const std::string& s) {
    TagList l; if (s == "-") return l;
    args v = split(s, ',');
    for (size_t i = 0; i < v.size(); ++i) { args f = split(v[i], ':'); l.add(unesc(f[0]).c_str(), unesc(f[1]).c_str()); }
    return l;
}
static void rule(Osmium::Tags::KeyFilter& f, const args& r) { f.add(r[0] == "1", unesc(r[1]).c_str()); }
static void rule(Osmium::Tags::KeyValueFilter& f, const args& r) { if (r.size() > 2) f.add(r[0] == "1", unesc(r[1]).c_str(), unesc(r[2]).c_str()); else f.add(r[0] == "1", unesc(r[1]).c_str()); }
static void rule(Osmium::Tags::RegexFilter& f, const args& r) { if (r.size() > 2) f.add(r[0] == "1", unesc(r[1]).c_str(), unesc(r[2]).c_str()); else f.add(r[0] == "1", unesc(r[1]).c_str()); }
template <class F> void rules(F& f, const std::string& s) { if (s == "-") return; args v = split(s, ','); for (size_t i = 0; i < v.size(); ++i) rule(f, split(v[i], ':')); }
struct CountOp { int operator()(int n, const Osmium::OSM::Tag&) const { return n + 1; } };

template <class F> void filter(const args& a) {
    F f(a[2] == "1"); rules(f, a[3]);
    const TagList tl = taglist(a[4]);
    std::string o;
    for (int i = 0; i < tl.size(); ++i) o += f(tl[i]) ? '1' : '0';
    printf("MATCH %s\n", o.c_str());
    const F copy(f); o.clear();
    for (TagList::const_iterator it = tl.begin(); it != tl.end(); ++it) o += copy(*it) ? '1' : '0';
    printf("MATCH %s\n", o.c_str());
    o.clear();
    typename F::iterator b(f, tl.begin(), tl.end()), e(f, tl.end(), tl.end());
    for (; b != e; ++b) { o += ' '; esc(o, b->key()); o += '='; esc(o, b->value()); }
    printf("VISIT%s\n", o.c_str());
    printf("COUNT %d\n", Osmium::filter_and_accumulate(tl, f, 0, CountOp()));
    if (a[5] != "-") { args k = split(a[5], ','); for (size_t i = 0; i < k.size(); ++i) { const char* v = tl.get_value_by_key(unesc(k[i]).c_str()); printf("GET %s\n", v ? ("=" + esc(std::string(v))).c_str() : "none"); } }
    printf("SIZE %d %d\n", tl.size(), int(tl.empty()));
}
template <class F> void format(const args& a) {
    F f(a[7] == "1"); rules(f, a[8]); const TagList tl = taglist(a[9]);
    std::string o;
    std::string p = unesc(a[2]), i = unesc(a[3]), s = unesc(a[4]), j = unesc(a[5]);
    if (a[1] == "hstore") o = Osmium::filter_and_accumulate(tl, f, std::string(), Osmium::Tags::TagToHStoreStringOp());
    else if (a[1] == "kev") o = Osmium::filter_and_accumulate(tl, f, std::string(), Osmium::Tags::TagToKeyEqualsValueStringOp(j.c_str()));
    else o = Osmium::filter_and_accumulate(tl, f, std::string(), Osmium::Tags::TagToStringOp(unesc(a[1].substr(1)), p.c_str(), i.c_str(), s.c_str(), j.c_str()));
    printf("OUT %s\n", esc(o).c_str());
    // without filter, with std::accumulate
    if (a[1] == "hstore") o = std::accumulate(tl.begin(), tl.end(), std::string(), Osmium::Tags::TagToHStoreStringOp());
    else if (a[1] == "kev") o = std::accumulate(tl.begin(), tl.end(), std::string(), Osmium::Tags::TagToKeyEqualsValueStringOp(j.c_str()));
    else o = std::accumulate(tl.begin(), tl.end(), std::string(), Osmium::Tags::TagToStringOp(unesc(a[1].substr(1)), p.c_str(), i.c_str(), s.c_str(), j.c_str()));
    printf("ALL %s\n", esc(o).c_str());
}
struct Job { const args& a; Job(const args& a) : a(a) {}
    void operator()() {
        bool f = a[0] == "filter"; const std::string& k = f ? a[1] : a[6];
        if (k == "key") f ? filter<Osmium::Tags::KeyFilter>(a) : format<Osmium::Tags::KeyFilter>(a);
        else if (k == "kv") f ? filter<Osmium::Tags::KeyValueFilter>(a) : format<Osmium::Tags::KeyValueFilter>(a);
        else f ? filter<Osmium::Tags::RegexFilter>(a) : format<Osmium::Tags::RegexFilter>(a);
    } };
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        args a = split(l, ' ');
        printf("BEGIN %s\n", l.c_str()); fflush(stdout);
        std::string res = outcome(Job(a));
        printf("END %s\n", res.c_str()); fflush(stdout);
    }
    return 0;
}
