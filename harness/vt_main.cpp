#include "vt.hpp"
#include <csignal>
#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>
namespace vt {
std::vector<Group>& groups() { static std::vector<Group> g; return g; }
static std::map<std::string, std::uint64_t>& counters() { static std::map<std::string, std::uint64_t> m; return m; }
static std::uint64_t g_checks = 0;
static std::uint64_t* g_cell = nullptr;
void count(const char* what, std::uint64_t n) { counters()[what] += n; }
void note_check() { ++g_checks; }
}
static volatile std::uint64_t g_index = 0, g_serial = 0, g_last = 0;
static const char* volatile g_group = "";
static int g_crashfd = -1;
static volatile int g_ticks = 0, g_maxticks = 3;
static void put(const char* s) { if (g_crashfd >= 0) { auto r = write(g_crashfd, s, strlen(s)); (void)r; } }
static void record(const char* what) {
    char num[32]; int i = 31; num[i] = 0; std::uint64_t v = g_index; do { num[--i] = '0' + v % 10; v /= 10; } while (v);
    put(what); put(" "); put(g_group); put(" "); put(num + i); put("\n");
}
static void on_signal(int s) {
    const char* w = s == SIGTRAP ? "assertion" : s == SIGABRT ? "abort" : s == SIGSEGV ? "segv" : s == SIGFPE ? "fpe" : s == SIGILL ? "ill" : "signal";
    record(w); _exit(77);
}
static void on_tick(int) {
    if (g_serial == g_last) { if (++g_ticks >= g_maxticks) { record("hang"); _exit(78); } }
    else { g_last = g_serial; g_ticks = 0; }
}
static std::string jesc(const std::string& s) {
    std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o;
}
int main(int argc, char** argv) {
    using namespace vt;
    std::uint64_t seed = 1; bool thorough = false; std::uint64_t shard = 0, nshard = 1; std::string out, crash, only, hashes; double scale = 1; int hang = 3;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") seed = strtoull(v.c_str(), 0, 10); else if (a == "--tier") thorough = v == "thorough";
        else if (a == "--shard") { shard = atol(v.c_str()); nshard = atol(v.substr(v.find('/') + 1).c_str()); }
        else if (a == "--out") out = v; else if (a == "--crash") crash = v; else if (a == "--only") only = v;
        else if (a == "--hashes") hashes = v; else if (a == "--scale") scale = atof(v.c_str()); else if (a == "--hang") hang = atoi(v.c_str());
    }
    g_maxticks = hang;
    if (!crash.empty()) g_crashfd = open(crash.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    for (int s : {SIGTRAP, SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(s, on_signal);
    signal(SIGVTALRM, on_tick);
    itimerval tv{{10, 0}, {10, 0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    std::string og; std::uint64_t oi = 0; bool has_oi = false;
    if (!only.empty()) { auto p = only.rfind(':'); if (p != std::string::npos) { og = only.substr(0, p); oi = strtoull(only.c_str() + p + 1, 0, 10); has_oi = true; } else og = only; }
    std::vector<std::uint64_t> hs; std::uint64_t evals = 0, skipped = 0;
    std::ostringstream viol, grp, samples; int nv = 0; bool fg = true, fs = true;
    auto gs = groups(); std::sort(gs.begin(), gs.end(), [](const Group& a, const Group& b) { return strcmp(a.name, b.name) < 0; });
    auto run = [&](const Group& g, std::uint64_t i, bool describe, Case& c) -> std::string {
        std::uint64_t s = seed; for (const char* q = g.name; *q; ++q) s = mix(s ^ (unsigned char)*q);
        c.rng = Rng(mix(s ^ mix(i))); c.describe = describe; c.index = i; c.group = g.name; c.thorough = thorough;
        g_group = g.name; g_index = i; g_serial = g_serial + 1;
        try { g.fn(c); } catch (const Fail& f) { return f.msg; } catch (const Skip&) { c.nontrivial = false; return "SKIP"; }
        catch (const std::exception& e) { return std::string("unexpected exception: ") + e.what(); }
        return "";
    };
    for (auto& g : gs) {
        if (!og.empty() && og != g.name) continue;
        std::uint64_t n = thorough ? g.nt : g.nq; if (n > 64) n = (std::uint64_t)(n * scale);
        std::uint64_t done = 0, nontriv = 0, sk = 0, ck0 = g_checks; int gv = 0;
        std::uint64_t b = has_oi ? oi : shard, e = has_oi ? oi + 1 : n, st = has_oi ? 1 : nshard;
        for (std::uint64_t i = b; i < e; i += st) {
            Case c; std::string r = run(g, i, has_oi, c);
            if (has_oi) std::cout << "case " << g.name << ":" << i << " seed " << seed << "\n  inputs: " << c.d.str() << "\n  result: " << (r.empty() ? "held" : r) << std::endl;
            if (r == "SKIP") { ++sk; continue; }
            ++done; if (c.nontrivial) { ++nontriv; hs.push_back(c.h); }
            if (!r.empty()) {
                ++gv; if (nv < 40 && gv <= 8) { Case c2; run(g, i, true, c2);
                    viol << (nv ? "," : "") << "{\"group\":\"" << g.name << "\",\"index\":" << i << ",\"msg\":\"" << jesc(r) << "\",\"inputs\":\"" << jesc(c2.d.str().substr(0, 6000)) << "\"}"; ++nv; }
                if (gv >= 50) break;
            } else if (shard == 0 && !has_oi && c.nontrivial && (nontriv == 1)) {
                Case c2; run(g, i, true, c2); std::string t = c2.d.str(); if (t.size() > 700) t = t.substr(0, 700) + "...";
                samples << (fs ? "" : ",") << "\"" << g.name << ":" << i << " " << jesc(t) << "\""; fs = false;
            }
        }
        evals += done; skipped += sk;
        grp << (fg ? "" : ",") << "\"" << g.name << "\":{\"cases\":" << done << ",\"nontrivial\":" << nontriv << ",\"skipped\":" << sk << ",\"violating\":" << gv << ",\"oracle_checks\":" << (g_checks - ck0) << "}"; fg = false;
    }
    if (!hashes.empty()) { FILE* f = fopen(hashes.c_str(), "wb"); if (f) { fwrite(hs.data(), 8, hs.size(), f); fclose(f); } }
    std::ostringstream cn; bool fc = true; for (auto& kv : counters()) { cn << (fc ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; fc = false; }
    std::ostringstream js; js << "{\"evaluations\":" << evals << ",\"skipped\":" << skipped << ",\"checks\":" << g_checks << ",\"groups\":{" << grp.str() << "},\"observed\":{" << cn.str() << "},\"samples\":[" << samples.str() << "],\"violations\":[" << viol.str() << "]}";
    if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (!f) return 3; fputs(js.str().c_str(), f); fclose(f); } else std::cout << js.str() << std::endl;
    return nv ? 1 : 0;
}
