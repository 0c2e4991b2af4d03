// P21: equality, order and hash of nodes agree with their content
#include "eng.hxx"
#include <algorithm>
#include <cstring>
#define AGREE_NO_LIB
#include "agree.hxx"
using namespace eng;

SIM_ENGINE(P21, keys, 1) {
    static const std::vector<agree::Kind*> ks = [] { std::vector<agree::Kind*> v; for (agree::Kind* k = agree::kinds; k; k = k->next) v.push_back(k); std::sort(v.begin(), v.end(), [](agree::Kind* a, agree::Kind* b) { return strcmp(a->name, b->name) < 0; }); return v; }();
    const agree::Kind& k = *ks[s.draw((uint32_t)ks.size())];
    s.ev("%s", k.name); s.mix(k.name, strlen(k.name));
    k.run(s, k.name);
}
