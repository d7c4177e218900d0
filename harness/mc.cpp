#include "mc.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

int verif_angle_mode = 0;
int verif_queue_dedup = 1;

namespace mc {
bool thorough = false, verbose = false;

struct Family { std::string name; uint64_t n; std::function<void(uint64_t)> fn; uint64_t chunk; double hang; };
static std::vector<Family> fams;
static std::vector<std::string> bounds, assumptions;
static std::set<std::string> known;       // keys of known findings

struct Slot {
    volatile uint64_t cur; volatile double t0; volatile int status; // 0 running 1 done 2 violation
    volatile uint64_t nknown;
    char key[256]; char msg[4096]; char desc[4096];
    char knownkeys[2048];
};
static const uint64_t HT = 1ull << 23;
struct Shared {
    std::atomic<uint64_t> execs, steps, nontriv, distinct, cases, htfull, maxdev, capped;
    std::atomic<uint64_t> table[HT];
};
static Shared *sh;
static Slot *slots, *me;
static const int NSLOT = 64;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static std::string vfmt(const char *f, va_list ap)
{
    char b[4000]; vsnprintf(b, sizeof b, f, ap); return b;
}
std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }
void family(const std::string &name, uint64_t n, std::function<void(uint64_t)> fn, uint64_t chunk, double hang)
{
    if (!chunk) chunk = std::max<uint64_t>(1, (n + 255) / 256);
    fams.push_back({name, n, fn, chunk, hang});
}
void bound(const char *f, ...) { va_list ap; va_start(ap, f); bounds.push_back(vfmt(f, ap)); va_end(ap); }
void assumption(const char *f, ...) { va_list ap; va_start(ap, f); assumptions.push_back(vfmt(f, ap)); va_end(ap); }

static std::vector<size_t> choices; static std::vector<size_t> widths; static std::vector<size_t> prefix;
static bool exploring = false; static bool was_capped = false;
static std::string choice_text()
{
    if (!exploring) return "";
    std::string s = " choices=[";
    size_t last = 0; for (size_t i = 0; i < choices.size(); ++i) if (choices[i]) last = i + 1;
    for (size_t i = 0; i < last; ++i) s += (i ? "," : "") + std::to_string(choices[i]);
    return s + "]";
}
void fail(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); throw Violation{s + choice_text(), ""}; }
void fail_key(const std::string &key, const char *f, ...)
{ va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); throw Violation{s + choice_text(), key}; }
void log(const char *f, ...) { if (!verbose) return; va_list ap; va_start(ap, f); vprintf(f, ap); va_end(ap); printf("\n"); }
void describe(const std::string &s) { if (me) { size_t n = std::min(s.size(), sizeof(me->desc) - 1); memcpy(me->desc, s.data(), n); me->desc[n] = 0; } if (verbose) printf("case: %s\n", s.c_str()); }
static uint64_t l_execs, l_steps, l_nontriv;
void step(uint64_t n) { l_steps += n; }
void exec(uint64_t n) { l_execs += n; }
void nontrivial(uint64_t n) { l_nontriv += n; }
void state(uint64_t h)
{
    if (h == 0) h = 1;
    // finalizer
    h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; if (!h) h = 1;
    uint64_t i = h & (HT - 1);
    for (int probe = 0; probe < 512; ++probe, i = (i + 1) & (HT - 1)) {
        uint64_t v = sh->table[i].load(std::memory_order_relaxed);
        if (v == h) return;
        if (v == 0) {
            uint64_t e = 0;
            if (sh->table[i].compare_exchange_strong(e, h)) { sh->distinct++; return; }
            if (e == h) return;
        }
    }
    sh->htfull++;
}
size_t (*pick_policy)(size_t) = nullptr;
size_t choose(size_t n)
{
    if (!exploring) return pick_policy ? pick_policy(n) : 0;
    size_t i = choices.size();
    size_t c = 0;
    if (i < prefix.size()) {
        c = prefix[i];
        if (c >= n) throw Violation{"explorer: replayed choice out of range (nondeterminism not owned)", ""};
    }
    choices.push_back(c); widths.push_back(n);
    return c;
}
bool capped() { return was_capped; }
uint64_t explore(const std::function<void()> &body, int dev, uint64_t maxe)
{
    uint64_t n = 0;
    std::vector<std::vector<size_t>> stack; stack.push_back({});
    while (!stack.empty()) {
        if (n >= maxe) { was_capped = true; sh->capped++; break; }
        prefix = stack.back(); stack.pop_back();
        choices.clear(); widths.clear(); exploring = true;
        try { body(); } catch (PrunedExecution &) {}
        exploring = false; ++n;
        int used = 0; for (size_t c : prefix) if (c) ++used;
        if (used >= dev) continue;
        for (size_t i = choices.size(); i-- > prefix.size();)
            for (size_t a = widths[i]; a-- > 1;) {
                std::vector<size_t> p(choices.begin(), choices.begin() + i); p.push_back(a); stack.push_back(p);
            }
    }
    return n;
}

static void flush()
{
    sh->execs += l_execs; sh->steps += l_steps; sh->nontriv += l_nontriv; l_execs = l_steps = l_nontriv = 0;
}
// runs cases [a,b); returns in child
static void run_range(const Family &f, uint64_t a, uint64_t b, bool only_last_reports)
{
    uint64_t done = 0;
    for (uint64_t i = a; i < b; ++i) {
        me->cur = i; me->t0 = now(); me->desc[0] = 0;
        try { f.fn(i); ++done; }
        catch (Violation &v) {
            exploring = false;
            if (!v.key.empty() && known.count(v.key)) {
                me->nknown++;
                std::string kk = v.key + "\n";
                if (!strstr(me->knownkeys, kk.c_str()) && strlen(me->knownkeys) + kk.size() < sizeof(me->knownkeys)) strcat(me->knownkeys, kk.c_str());
                ++done; continue;
            }
            if (only_last_reports && i + 1 != b) { continue; }
            snprintf(me->key, sizeof me->key, "%s", v.key.c_str());
            snprintf(me->msg, sizeof me->msg, "%s", v.msg.c_str());
            me->status = 2; sh->cases += done; flush(); fflush(stdout); _exit(0);
        }
        catch (std::exception &e) {
            exploring = false;
            snprintf(me->msg, sizeof me->msg, "uncaught exception: %s", e.what()); me->key[0] = 0;
            me->status = 2; sh->cases += done; flush(); fflush(stdout); _exit(0);
        }
    }
    sh->cases += done; flush(); me->status = 1; fflush(stdout); _exit(0);
}
static std::string errfile(int s) { return fmt("/tmp/mc.%d.%d.err", (int) getpid(), s); }
static std::string tail(const std::string &file)
{
    std::ifstream f(file); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
    // keep the informative lines of a sanitizer report / assertion
    std::string out; std::istringstream is(s); std::string l; int n = 0;
    while (std::getline(is, l) && n < 14) {
        if (l.find("ERROR") != std::string::npos || l.find("ssert") != std::string::npos || l.find("runtime error") != std::string::npos
            || l.find("    #") == 0 || l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos) { out += l + " | "; ++n; }
    }
    return out;
}
static pid_t spawn(int s, const std::string &ef, const Family &f, uint64_t a, uint64_t b, bool last)
{
    Slot &sl = slots[s];
    sl.cur = a; sl.t0 = now(); sl.status = 0; sl.key[0] = sl.msg[0] = sl.desc[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
        me = &slots[s];
        int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2);
        if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); }
        run_range(f, a, b, last);
    }
    return p;
}
static uint64_t rss_mb(pid_t p)
{
    std::ifstream f(fmt("/proc/%d/statm", (int) p)); uint64_t a = 0, r = 0; f >> a >> r; return r * 4096 / 1000000;
}
static const uint64_t RSS_LIMIT = 3500;
struct Outcome { bool bad; std::string msg, key, desc; uint64_t idx; };
static Outcome judge(int s, int st, const std::string &ef, const char *killed)
{
    Slot &sl = slots[s]; Outcome o; o.idx = sl.cur; o.desc = sl.desc; o.key = sl.key; o.bad = false;
    if (killed) { o.bad = true; o.msg = killed; return o; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl.status == 1) return o;
    o.bad = true;
    if (sl.status == 2) { o.msg = sl.msg; return o; }
    o.msg = (WIFSIGNALED(st) ? fmt("crash: signal %d ", WTERMSIG(st)) : fmt("crash: exit status %d ", WEXITSTATUS(st))) + tail(ef);
    return o;
}
// run one range alone, with a longer per-case limit
static Outcome run_alone(const Family &f, uint64_t a, uint64_t b, double hang)
{
    int s = NSLOT - 1; std::string ef = errfile(s);
    pid_t p = spawn(s, ef, f, a, b, true);
    const char *killed = nullptr; int st = 0;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - slots[s].t0 > hang) killed = "hang: no result within the time limit, alone";
        else if (rss_mb(p) > RSS_LIMIT) killed = "runaway memory use";
        if (killed) { kill(p, SIGKILL); waitpid(p, &st, 0); break; }
        usleep(500);
    }
    Outcome o = judge(s, st, ef, killed);
    unlink(ef.c_str());
    return o;
}
static std::string jstr(const std::string &s)
{
    std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; } return o + "\"";
}
}
using namespace mc;
std::size_t verif_pick(std::size_t n) { return mc::choose(n); }

int main(int argc, char **argv)
{
    std::string out, rfam; uint64_t ra = 0, rb = 0; bool replay = false; int jobs = 8; double budget = 1e9; std::string only;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--out") out = argv[++i];
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--known") known.insert(argv[++i]);
        else if (a == "--only") only = argv[++i];
        else if (a == "--replay") { replay = true; rfam = argv[++i]; ra = strtoull(argv[++i], 0, 10); rb = strtoull(argv[++i], 0, 10); }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    double start = now();
    sh = (Shared *) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    slots = (Slot *) mmap(0, sizeof(Slot) * NSLOT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    me = &slots[0];
    mc_setup();
    if (replay) {
        verbose = true;
        for (auto &f : fams) if (f.name == rfam) {
            Outcome o = run_alone(f, ra, rb + 1, f.hang * 4);
            if (o.bad) { printf("REPRODUCED: %s case %llu: %s\n", f.name.c_str(), (unsigned long long) o.idx, o.msg.c_str()); return 1; }
            printf("not reproduced\n"); return 0;
        }
        fprintf(stderr, "no family %s\n", rfam.c_str()); return 2;
    }
    struct Job { size_t f; uint64_t a, b; };
    std::vector<Job> q;
    uint64_t total = 0;
    for (size_t f = 0; f < fams.size(); ++f) {
        if (!only.empty() && fams[f].name.find(only) == std::string::npos) continue;
        total += fams[f].n;
        for (uint64_t a = 0; a < fams[f].n; a += fams[f].chunk) q.push_back({f, a, std::min(fams[f].n, a + fams[f].chunk)});
    }
    struct Run { pid_t p; size_t job; bool live; std::string ef; };
    std::vector<Run> runs(jobs, Run{0, 0, false, ""});
    std::vector<double> ftime(fams.size(), 0), jt(jobs, 0);
    size_t next = 0; bool stop = false, over = false; std::vector<std::string> notes;
    bool viol = false; std::string vfam, vmsg, vkey, vdesc; uint64_t va = 0, vb = 0; int unreproduced = 0;
    for (;;) {
        bool any = false;
        for (int s = 0; s < jobs; ++s) {
            Run &r = runs[s];
            if (r.live) {
                int st; pid_t w = waitpid(r.p, &st, WNOHANG); const char *killed = nullptr; const Job &j = q[r.job]; Family &f = fams[j.f];
                if (w == 0) {
                    if (now() - slots[s].t0 > f.hang) killed = "hang";
                    else if (rss_mb(r.p) > RSS_LIMIT) killed = "runaway memory use";
                    if (!killed) { any = true; continue; }
                    kill(r.p, SIGKILL); waitpid(r.p, &st, 0);
                }
                r.live = false; ftime[j.f] += now() - jt[s];
                Outcome o = judge(s, st, r.ef, killed); unlink(r.ef.c_str());
                if (o.bad && !stop) {
                    // replay before reporting: alone, then with the cases that ran before it in the same process
                    Outcome c = run_alone(f, o.idx, o.idx + 1, f.hang * 4); uint64_t from = o.idx;
                    for (int t = 0; !c.bad && t < 3; ++t) { c = run_alone(f, j.a, o.idx + 1, f.hang * 4); from = j.a; }
                    if (c.bad) { stop = viol = true; vfam = f.name; vmsg = c.msg; vkey = c.key; vdesc = c.desc.empty() ? o.desc : c.desc; va = from; vb = o.idx; }
                    else {
                        ++unreproduced; notes.push_back(fmt("NOT REPRODUCED (ignored): %s case %llu: ", f.name.c_str(), (unsigned long long) o.idx) + o.msg);
                        // finish the rest of the chunk
                        if (o.idx + 1 < j.b) q.push_back({j.f, o.idx + 1, j.b});
                        if (killed && !strcmp(killed, "hang")) sh->cases++;
                    }
                }
            }
            if (now() - start > budget) over = true;
            if (!stop && !over && next < q.size()) {
                r.job = next++; const Job &j = q[r.job]; r.ef = errfile(s); jt[s] = now();
                r.p = spawn(s, r.ef, fams[j.f], j.a, j.b, false); r.live = true; any = true;
            }
        }
        if (!any) break;
        if (stop) { for (auto &r : runs) if (r.live) { kill(r.p, SIGKILL); } }
        usleep(300);
    }
    double wall = now() - start;
    std::set<std::string> kk;
    for (int s = 0; s < NSLOT; ++s) { std::istringstream is(slots[s].knownkeys); std::string l; while (std::getline(is, l)) kk.insert(l); }
    uint64_t ncases = sh->cases.load();
    bool exhaustive = !stop && !over && sh->cases.load() == total && !sh->capped.load();
    printf("families=%zu cases=%llu/%llu executions=%llu steps=%llu distinct=%llu nontrivial=%llu wall=%.1fs %s\n", fams.size(), (unsigned long long) sh->cases.load(), (unsigned long long) total,
           (unsigned long long) sh->execs.load(), (unsigned long long) sh->steps.load(), (unsigned long long) sh->distinct.load(), (unsigned long long) sh->nontriv.load(), wall, exhaustive ? "exhaustive" : over ? "CAPPED by time" : stop ? "stopped" : "incomplete");
    for (auto &n : notes) printf("%s\n", n.c_str());
    for (size_t f = 0; f < fams.size(); ++f) if (getenv("MC_TIMES")) printf("  %-40s n=%llu cpu=%.1fs\n", fams[f].name.c_str(), (unsigned long long) fams[f].n, ftime[f]);
    for (auto &k : kk) printf("KNOWN %s\n", k.c_str());
    if (viol) printf("FOUND family=%s case=%llu..%llu %s {%s}\n", vfam.c_str(), (unsigned long long) va, (unsigned long long) vb, vmsg.c_str(), vdesc.c_str());
    if (!out.empty()) {
        std::ofstream o(out);
        o << "{\"cases\":" << sh->cases.load() << ",\"total\":" << total << ",\"execs\":" << sh->execs.load() << ",\"steps\":" << sh->steps.load() << ",\"distinct\":" << sh->distinct.load()
          << ",\"distinct_saturated\":" << sh->htfull.load() << ",\"nontrivial\":" << sh->nontriv.load() << ",\"wall\":" << wall << ",\"exhaustive\":" << (exhaustive ? "true" : "false") << ",\"capped_choices\":" << sh->capped.load() << ",\"over\":" << (over ? "true" : "false");
        o << ",\"unreproduced\":" << unreproduced;
        o << ",\"families\":["; for (size_t f = 0; f < fams.size(); ++f) o << (f ? "," : "") << "{\"name\":" << jstr(fams[f].name) << ",\"cases\":" << fams[f].n << "}"; o << "]";
        o << ",\"bounds\":["; for (size_t i = 0; i < bounds.size(); ++i) o << (i ? "," : "") << jstr(bounds[i]); o << "]";
        o << ",\"assumptions\":["; for (size_t i = 0; i < assumptions.size(); ++i) o << (i ? "," : "") << jstr(assumptions[i]); o << "]";
        o << ",\"known\":["; bool first = true; for (auto &k : kk) { o << (first ? "" : ",") << jstr(k); first = false; } o << "]";
        // a few sample cases, described by re-running them
        o << ",\"samples\":["; first = true;
        if (!viol) for (size_t f = 0; f < fams.size() && f < 8; ++f) {
            if (!fams[f].n) continue;
            run_alone(fams[f], fams[f].n / 2, fams[f].n / 2 + 1, fams[f].hang);
            o << (first ? "" : ",") << jstr(fams[f].name + "#" + std::to_string(fams[f].n / 2) + ": " + slots[NSLOT - 1].desc); first = false;
        }
        o << "],\"violation\":";
        if (viol) o << "{\"family\":" << jstr(vfam) << ",\"from\":" << va << ",\"index\":" << vb << ",\"msg\":" << jstr(vmsg) << ",\"key\":" << jstr(vkey) << ",\"desc\":" << jstr(vdesc) << "}"; else o << "null";
        o << "}\n";
    }
    if (viol) return 1;
    if (!over && !stop && ncases != total) { fprintf(stderr, "incomplete: %llu of %llu\n", (unsigned long long) ncases, (unsigned long long) total); return unreproduced ? 0 : 2; }
    return 0;
}
extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:max_malloc_fill_size=4096:malloc_fill_byte=190:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:handle_abort=1:symbolize=0";
}
