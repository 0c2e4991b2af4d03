// P16: node values keep their content through any history of assignments
#include "eng.hxx"
#include <algorithm>
#include <cstring>
#define HIST_NO_LIB
#include "hist.hxx"
using namespace eng;

SIM_ENGINE(P16, history, 1) {
    static const std::vector<hist::Kind*> ks = [] { std::vector<hist::Kind*> v; for (hist::Kind* k = hist::kinds; k; k = k->next) v.push_back(k); std::sort(v.begin(), v.end(), [](hist::Kind* a, hist::Kind* b) { return strcmp(a->name, b->name) < 0; }); return v; }();
    const hist::Kind& k = *ks[s.draw((uint32_t)ks.size())];
    s.ev("%s", k.name); s.mix(k.name, strlen(k.name));
    k.run(s, k.name);
}
