// Supervisor: runs simulations in a forked child, turns crashes into violations, minimises, writes replay files.
#include "core.hxx"
#include "shm.hxx"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <csignal>
#include <exception>
#include <algorithm>
#include <set>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace sim { Engine* engines(); }
using namespace sim;

static std::string g_prop;
static uint64_t g_seed = 1;
static unsigned g_run_timeout = 60;

static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static uint64_t run_seed(uint64_t run) { return mix64(mix64(g_seed) ^ hash_bytes(g_prop.data(), g_prop.size()) ^ mix64(run + 1)); }

// executes one run in this process
static void execute(Sim& s, uint64_t seed, const std::vector<uint32_t>* ch, bool trace, int tfd) {
    s.reset(seed, ch, trace); s.trace_fd_ = tfd; S = &s;
    uint32_t w = 0; for (auto e = engines(); e; e = e->next) if (g_prop == e->property) w += e->weight;
    if (w == 0) { fprintf(stderr, "no engine for %s\n", g_prop.c_str()); _exit(97); }
    uint32_t k = s.draw(w);
    auto e = engines();
    for ( ; e; e = e->next) if (g_prop == e->property) { if (k < e->weight) break; k -= e->weight; }
    s.context("%s/%s", e->property, e->name);
    s.ev("engine %s/%s", e->property, e->name);
    try { e->fn(s); }
    catch (const Failed&) {}
    catch (const std::exception& x) { s.violate("escaped-exception", "%s: %s", s.context(), x.what()); }
    heap::end();
    s.mix(s.clock_); s.mix(s.steps_);
    S = nullptr;
}

static void arm(unsigned sec) { itimerval t = {{0, 0}, {(time_t)sec, 0}}; setitimer(ITIMER_REAL, &t, nullptr); }

static void publish(const Sim& s) {
    shm->violated = s.violated_; shm->hash = s.hash_;
    if (s.violated_) {
        strncpy(shm->cls, s.cls_.c_str(), sizeof shm->cls - 1); strncpy(shm->msg, s.msg_.c_str(), sizeof shm->msg - 1);
    }
}

struct Outcome { bool violated = false; std::string cls, msg; uint64_t hash = 0; std::vector<uint32_t> used; bool error = false; };

static std::string slurp(const char* p, size_t max = 1 << 16) {
    std::string r; FILE* f = fopen(p, "rb"); if (!f) return r;
    char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && r.size() < max) r.append(b, n);
    fclose(f); return r;
}

// what kind of crash this was, from the sanitizer's report; independent of addresses and line numbers
static std::string crash_kind(int st, const std::string& err) {
    auto word = [&](const char* tag) -> std::string {
        auto p = err.find(tag); if (p == std::string::npos) return "";
        p += strlen(tag); auto q = err.find_first_of(" \n:(", p); return err.substr(p, q - p);
    };
    std::string k;
    if (err.find("SIM-STEP-LIMIT") != std::string::npos) return "endless";
    if (err.find("SIM-DEADLOCK") != std::string::npos) return "deadlock";
    if (err.find("SIM-BAD-FREE") != std::string::npos) return "bad-free";
    if (!(k = word("ERROR: AddressSanitizer: ")).empty()) return k == "attempting" ? "bad-free" : k;
    if (err.find("WARNING: ThreadSanitizer: data race") != std::string::npos) return "data-race";
    if (!(k = word("WARNING: ThreadSanitizer: ")).empty()) return "tsan-" + k;
    if (err.find("runtime error: ") != std::string::npos) {
        auto p = err.find("runtime error: ") + 15; auto q = err.find('\n', p); auto t = err.substr(p, q - p);
        static const char* const kinds[] = { "signed integer overflow", "out of bounds", "null pointer", "outside the range of representable", "not a valid value for type",
            "shift exponent", "left shift", "negation of", "misaligned", "division by zero", "pointer index expression", "applying non-zero offset", "applying zero offset", "unreachable", "reached the end" };
        for (auto s : kinds) if (t.find(s) != std::string::npos) { std::string r = "ub:"; r += s; std::replace(r.begin(), r.end(), ' ', '-'); return r; }
        return "ub";
    }
    if (err.find("Assertion ") != std::string::npos) {
        auto p = err.find("Assertion `"); auto q = err.find("' failed", p);
        return "assert(" + (p == std::string::npos ? std::string("?") : err.substr(p + 11, q - p - 11)) + ")";
    }
    if (err.find("terminate called") != std::string::npos) {
        auto p = err.find("instance of '"); 
        return "terminate" + (p == std::string::npos ? std::string() : "(" + err.substr(p + 13, err.find('\'', p + 13) - p - 13) + ")");
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return "hang";
    if (WIFSIGNALED(st)) return fmt("signal-%d", WTERMSIG(st));
    return fmt("exit-%d", WEXITSTATUS(st));
}

static std::string g_errfile, g_tracefile;

static void child_stderr() {
    int fd = open(g_errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) dup2(fd, 2), close(fd);
    rlimit c = {0, 0}; setrlimit(RLIMIT_CORE, &c);
}

// one run from a choice list, isolated in a child
static Outcome run_choices(const std::vector<uint32_t>& ch, bool trace) {
    Outcome o; shm->violated = 0; shm->nchoices = 0; shm->hash = 0; shm->cls[0] = shm->msg[0] = 0;
    pid_t p = fork();
    if (p == 0) {
        child_stderr(); arm(g_run_timeout);
        int tfd = -1; if (trace) tfd = open(g_tracefile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        Sim s; execute(s, 0, &ch, trace, tfd); publish(s); _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    o.used.assign(shm->choices, shm->choices + shm->nchoices);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) o.error = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { o.violated = shm->violated; o.cls = shm->cls; o.msg = shm->msg; o.hash = shm->hash; }
    else {
        auto err = slurp(g_errfile.c_str());
        o.violated = true; o.cls = "crash:" + crash_kind(st, err) + " " + shm->context; o.msg = err.substr(0, 3500);
        o.hash = hash_bytes(o.used.data(), o.used.size() * 4);
    }
    return o;
}

static std::vector<uint32_t> shrink(std::vector<uint32_t> best, const std::string& cls, double budget, unsigned& tried) {
    double const t0 = now_s(); tried = 0;
    auto attempt = [&](const std::vector<uint32_t>& c) -> bool {
        if (tried >= 4000 || now_s() - t0 > budget) return false;
        ++tried;
        auto o = run_choices(c, false);
        if (!o.violated || o.cls != cls) return false;
        auto u = c; if (u.size() > o.used.size()) u.resize(o.used.size());
        for (size_t i = 0; i < u.size(); ++i) u[i] = o.used[i];
        while (!u.empty() && u.back() == 0) u.pop_back();
        if (u.size() > best.size() || (u.size() == best.size() && !std::lexicographical_compare(u.begin(), u.end(), best.begin(), best.end()))) return false;
        best = u; return true;
    };
    { auto c = best; while (!c.empty() && c.back() == 0) c.pop_back(); attempt(c); }
    for (bool again = true; again && tried < 4000 && now_s() - t0 < budget; ) {
        again = false;
        for (size_t n = 64; n >= 1; n /= 2) // delete blocks
            for (size_t i = best.size(); i-- > 0; ) {
                if (i + n > best.size()) continue;
                auto c = best; c.erase(c.begin() + i, c.begin() + i + n);
                if (attempt(c)) again = true;
                if (now_s() - t0 > budget) break;
            }
        for (size_t n = 16; n >= 1; n /= 2) // zero blocks
            for (size_t i = 0; i + n <= best.size(); i += n) {
                bool nz = false; for (size_t j = i; j < i + n; ++j) nz = nz || best[j];
                if (!nz) continue;
                auto c = best; std::fill(c.begin() + i, c.begin() + i + n, 0u);
                if (attempt(c)) again = true;
            }
        for (size_t i = 0; i < best.size(); ++i) { // smaller values
            uint32_t lo = 0, hi = best[i];
            while (i < best.size() && lo < hi) {
                auto c = best; uint32_t const m = lo + (hi - lo) / 2; c[i] = m;
                if (attempt(c)) again = true, hi = i < best.size() ? std::min(best[i], m) : 0; else lo = m + 1;
                if (now_s() - t0 > budget) break;
            }
        }
    }
    return best;
}

static std::string json(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') r += '\\', r += (char)c;
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7F) r += fmt("\\u%04x", c);
        else r += (char)c;
    }
    return r += '"';
}

static std::vector<uint32_t> read_choices(const char* path, std::string& prop, std::string& cls, uint64_t& hash) {
    auto t = slurp(path, 1 << 24); std::vector<uint32_t> r;
    auto str = [&](const char* k) { auto p = t.find(std::string("\"") + k + "\": \""); if (p == std::string::npos) return std::string(); p += strlen(k) + 5;
        std::string v; for ( ; p < t.size() && t[p] != '"'; ++p) { if (t[p] == '\\' && p + 1 < t.size()) ++p; v += t[p]; } return v; };
    prop = str("property"), cls = str("class");
    hash = strtoull(str("hash").c_str(), nullptr, 16);
    auto p = t.find("\"choices\": ["); if (p == std::string::npos) { fprintf(stderr, "bad replay file\n"); exit(2); }
    p += 12; while (p < t.size() && t[p] != ']') { char* e; r.push_back((uint32_t)strtoul(t.c_str() + p, &e, 10)); p = e - t.c_str(); while (p < t.size() && (t[p] == ',' || t[p] == ' ')) ++p; }
    return r;
}

static bool known(const std::vector<std::string>& ks, const std::string& cls) {
    for (auto& k : ks) if (k == cls) return true;
    return false;
}

int main(int argc, char** argv) {
    std::string mode = argc > 1 ? argv[1] : "", out = "/dev/stdout", replay, knownf, variant = "main";
    uint64_t worker = 0, workers = 1, runs = 1000; double budget = 1e9, shrink_budget = 60; bool selfcheck = true, collect = false, fresh = false; std::vector<std::pair<std::string, std::pair<uint64_t, std::string>>> classes;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i]; auto v = [&] { return std::string(++i < argc ? argv[i] : ""); };
        if (a == "--prop") g_prop = v(); else if (a == "--seed") g_seed = strtoull(v().c_str(), 0, 10);
        else if (a == "--worker") worker = strtoull(v().c_str(), 0, 10); else if (a == "--workers") workers = strtoull(v().c_str(), 0, 10);
        else if (a == "--runs") runs = strtoull(v().c_str(), 0, 10); else if (a == "--time") budget = atof(v().c_str());
        else if (a == "--out") out = v(); else if (a == "--known") knownf = v(); else if (a == "--replay-file") replay = v();
        else if (a == "--variant") variant = v(); else if (a == "--shrink") shrink_budget = atof(v().c_str());
        else if (a == "--collect") collect = v() == "1"; else if (a == "--file") replay = v(); else if (a == "--fresh") fresh = v() == "1"; else if (a == "--timeout") g_run_timeout = atoi(v().c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) return 2;
    char tmp[] = "/tmp/simw.XXXXXX"; if (!mkdtemp(tmp)) return 2;
    g_errfile = std::string(tmp) + "/err"; g_tracefile = std::string(tmp) + "/trace";
    auto cleanup = [&] { unlink(g_errfile.c_str()); unlink(g_tracefile.c_str()); rmdir(tmp); };

    if (mode == "replay") {
        std::string prop, cls; uint64_t h; auto ch = read_choices(replay.c_str(), prop, cls, h); g_prop = prop;
        auto o = run_choices(ch, true);
        auto tr = slurp(g_tracefile.c_str(), 1 << 18);
        fwrite(tr.data(), 1, tr.size(), stdout);
        printf("RESULT violated=%d hash=%016llx\nCLASS %s\nMSG %s\n", o.violated, (unsigned long long)o.hash, o.cls.c_str(), o.msg.c_str());
        cleanup();
        return o.error ? 2 : o.violated ? 1 : 0;
    }
    if (mode != "search") { fprintf(stderr, "usage: simw search|replay ...\n"); return 2; }

    std::vector<std::string> ks;
    { auto t = slurp(knownf.c_str()); size_t p = 0; while (p < t.size()) { auto q = t.find('\n', p); if (q == std::string::npos) q = t.size(); if (q > p) ks.push_back(t.substr(p, q - p)); p = q + 1; } }

    double const t0 = now_s();
    shm->next_run = worker;
    std::set<std::string> known_hit; uint64_t known_count = 0; int rc = 0;
    FILE* fo = fopen(out.c_str(), "w"); if (!fo) return 2;
    for (;;) {
        shm->violated = 0; shm->cls[0] = shm->msg[0] = 0;
        pid_t p = fork();
        if (p == 0) {
            child_stderr();
            Sim s;
            while (shm->next_run < runs && now_s() - t0 < budget) {
                uint64_t const r = shm->next_run;
                shm->cur_run = r, shm->run_active = 1;
                arm(g_run_timeout);
                execute(s, run_seed(r), nullptr, false, -1);
                ++shm->done_runs, shm->steps += s.steps_, shm->ticks += s.clock_, shm->ops += s.ops_, shm->draws += shm->nchoices;
                bool const novel = shm->add_sig(s.sig_);
                if (s.nontrivial && novel) ++shm->nontrivial;
                if (s.nontrivial && novel && shm->nsamples < 6 && !s.sample_.empty() && shm->done_runs > shm->nsamples * 7) strncpy(shm->samples[shm->nsamples++], s.sample_.c_str(), 1199);
                if (s.violated_) { publish(s); shm->next_run = r + workers; _exit(11); }
                if (fresh) { shm->hash = s.hash_; shm->next_run = r + workers; _exit(13); } // every run in a process of its own
                if (selfcheck && (r / workers) % 61 == 0) { // determinism: the same choices give the same history
                    std::vector<uint32_t> ch(shm->choices, shm->choices + shm->nchoices); uint64_t const h = s.hash_;
                    if (ch.size() < Shm::max_choices) {
                        auto const st = *shm->faults; (void)st;
                        execute(s, 0, &ch, false, -1);
                        if (s.hash_ != h) { fprintf(stderr, "SIM-NONDETERMINISM run %llu\n", (unsigned long long)r); _exit(12); }
                        Shm::count(shm->probes, "determinism-self-checks", 1);
                    }
                }
                arm(0); shm->run_active = 0;
                shm->next_run = r + workers;
            }
            _exit(0);
        }
        int st = 0; waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 13) {
            if (selfcheck && (shm->cur_run / workers) % 61 == 0 && shm->nchoices < Shm::max_choices) {
                std::vector<uint32_t> ch(shm->choices, shm->choices + shm->nchoices); uint64_t const h = shm->hash;
                auto o = run_choices(ch, false);
                if (o.violated || o.hash != h) { fprintf(fo, "ERROR nondeterminism: run %llu %s\n", (unsigned long long)shm->cur_run, o.cls.c_str()); rc = 2; break; }
                Shm::count(shm->probes, "determinism-self-checks", 1);
            }
            continue;
        }
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 12)) { fprintf(fo, "ERROR %s\n", WEXITSTATUS(st) == 12 ? "nondeterminism" : "no engine"); fprintf(stderr, "%s\n", slurp(g_errfile.c_str()).c_str()); rc = 2; break; }
        // a violation or a crash
        std::string cls, msg; uint64_t const run = shm->cur_run;
        std::vector<uint32_t> ch(shm->choices, shm->choices + shm->nchoices);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 11) cls = shm->cls, msg = shm->msg;
        else {
            auto err = slurp(g_errfile.c_str());
            cls = "crash:" + crash_kind(st, err) + " " + shm->context; msg = err.substr(0, 3500);
            shm->next_run = run + workers; ++shm->done_runs;
        }
        if (known(ks, cls)) { known_hit.insert(cls), ++known_count; continue; }
        if (collect) {
            bool hit = false; for (auto& c : classes) if (c.first == cls) ++c.second.first, hit = true;
            if (!hit) { auto a = msg.find("ERROR: "); std::string m = cls.compare(0, 6, "crash:") == 0 && a != std::string::npos ? msg.substr(a) : msg; for (auto& x : m) if (x == '\n' || x == '\t') x = ' '; classes.push_back({cls, {1, fmt("[run %llu] ", (unsigned long long)run) + m}}); }
            continue;
        }
        // gate: must reproduce from its choices
        auto a = run_choices(ch, false), b = run_choices(ch, false);
        if (!a.violated || a.cls != cls || b.cls != a.cls || b.hash != a.hash) {
            fprintf(fo, "ERROR not reproducible: run %llu: %s | %s | %s\n", (unsigned long long)run, cls.c_str(), a.cls.c_str(), b.cls.c_str());
            fprintf(stderr, "not reproducible: %s\n%s\n", cls.c_str(), msg.c_str()); rc = 2; break;
        }
        unsigned tried = 0; auto best = shrink(ch, cls, shrink_budget, tried);
        auto f = run_choices(best, true); auto tr = slurp(g_tracefile.c_str(), 1 << 17);
        if (!replay.empty()) {
            FILE* r = fopen(replay.c_str(), "w");
            if (r) {
                fprintf(r, "{\n\"property\": \"%s\",\n\"variant\": \"%s\",\n\"class\": %s,\n\"hash\": \"%016llx\",\n\"seed\": %llu,\n\"run\": %llu,\n\"message\": %s,\n", g_prop.c_str(), variant.c_str(), json(f.cls).c_str(),
                    (unsigned long long)f.hash, (unsigned long long)g_seed, (unsigned long long)run, json(f.msg).c_str());
                fprintf(r, "\"minimised_from\": %zu,\n\"candidates_tried\": %u,\n\"choices\": [", ch.size(), tried);
                for (size_t i = 0; i < best.size(); ++i) fprintf(r, "%s%u", i ? ", " : "", best[i]);
                fprintf(r, "],\n\"trace\": [\n"); size_t q = 0; bool first = true;
                while (q < tr.size()) { auto n = tr.find('\n', q); if (n == std::string::npos) n = tr.size(); fprintf(r, "%s%s", first ? "" : ",\n", json(tr.substr(q, n - q)).c_str()); first = false; q = n + 1; }
                fprintf(r, "\n]\n}\n"); fclose(r);
            }
        }
        fprintf(fo, "VIOLATION run=%llu choices=%zu->%zu hash=%016llx class=%s\n", (unsigned long long)run, ch.size(), best.size(), (unsigned long long)f.hash, f.cls.c_str());
        rc = 1; break;
    }
    fprintf(fo, "STAT runs %llu\nSTAT nontrivial %llu\nSTAT steps %llu\nSTAT ticks %llu\nSTAT ops %llu\nSTAT draws %llu\nSTAT distinct_states %llu\nSTAT distinct_histories %llu\nSTAT dropped %llu\nSTAT known %llu\nSTAT wall_ms %llu\n",
        (unsigned long long)shm->done_runs, (unsigned long long)shm->nontrivial, (unsigned long long)shm->steps, (unsigned long long)shm->ticks, (unsigned long long)shm->ops, (unsigned long long)shm->draws,
        (unsigned long long)shm->nstates, (unsigned long long)shm->nsigs, (unsigned long long)shm->states_dropped, (unsigned long long)known_count, (unsigned long long)((now_s() - t0) * 1000));
    for (auto& c : shm->faults) if (c.name[0]) fprintf(fo, "FAULT %llu %s\n", (unsigned long long)c.n, c.name);
    for (auto& c : shm->probes) if (c.name[0]) fprintf(fo, "PROBE %llu %s\n", (unsigned long long)c.n, c.name);
    for (auto& c : classes) fprintf(fo, "CLASS %llu %s\t%s\n", (unsigned long long)c.second.first, c.first.c_str(), c.second.second.c_str());
    for (auto& k : known_hit) fprintf(fo, "KNOWN %s\n", k.c_str());
    for (uint32_t i = 0; i < shm->nsamples; ++i) fprintf(fo, "SAMPLE %s\n", json(shm->samples[i]).c_str());
    fclose(fo);
    // states and histories, for the union over workers
    { FILE* f = fopen((out + ".states").c_str(), "wb"); if (f) { for (auto v : shm->states) if (v) fwrite(&v, 8, 1, f); fclose(f); } }
    { FILE* f = fopen((out + ".sigs").c_str(), "wb"); if (f) { for (auto v : shm->sigs) if (v) fwrite(&v, 8, 1, f); fclose(f); } }
    cleanup();
    return rc;
}
