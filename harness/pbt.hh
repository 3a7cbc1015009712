// A small property-based testing engine.
//
// A test case is the list of integer choices the property drew while it ran.
// Fresh cases draw from a generator seeded with (seed, property, case number);
// a failing case is shrunk by deleting, zeroing and bisecting its choices and
// running the property again; the shrunk choices are the replay file.  Cases
// run in forked workers, so a crash, an exit() or a hang of the code under test
// is one more failing case.
#ifndef PBT_HH
#define PBT_HH
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <poll.h>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace pbt {

struct Discard {};
struct Fail { std::string msg; };

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}
inline std::set<std::string>& knownIds() { static std::set<std::string> s; return s; }

class Gen
{
public:
    explicit Gen(uint64_t seed) : m_replay(false), m_rng(seed) {}
    explicit Gen(const std::vector<uint64_t>& in) : m_replay(true), m_in(in), m_rng(0) {}

    // integer in [0, max]
    uint64_t draw(uint64_t max)
    {
        uint64_t v;
        if (m_replay) v = m_pos < m_in.size() ? std::min(m_in[m_pos], max) : 0;
        else v = max == UINT64_MAX ? m_rng() : m_rng() % (max + 1);
        m_pos++;
        out.push_back(v);
        if (logFd >= 0 && write(logFd, &v, 8) != 8) {}
        return v;
    }
    int64_t integer(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
    bool coin() { return draw(1); }
    // true with probability p/100
    bool chance(unsigned p) { return draw(99) >= 100 - p; }
    double unit() { return draw(1u << 30) / double(1u << 30); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    double logu(double lo, double hi) { return lo * std::pow(hi / lo, unit()); }
    // signed, shrinks to zero
    double sreal(double mag) { double u = unit(); return coin() ? -u * mag : u * mag; }
    size_t index(size_t n) { return (size_t)draw(n - 1); }
    template <class T> T pick(const std::vector<T>& v) { return v[index(v.size())]; }
    std::string pick(std::initializer_list<const char*> l)
    {
        std::vector<const char*> v(l);
        return v[index(v.size())];
    }
    // seed for the generator of the code under test
    int seed() { return (int)draw(0x7ffffffe) + 1; }

    template <class T> void note(const std::string& k, const T& v)
    {
        std::ostringstream s;
        s.precision(17);
        s << v;
        if (!desc.empty()) desc += ", ";
        desc += k + "=" + s.str();
        if (descFd >= 0) { std::string t = (desc.size() > k.size() + s.str().size() + 1 ? ", " : "") + k + "=" + s.str(); if (write(descFd, t.data(), t.size()) < 0) {} }
    }
    void nontrivial() { nontriv = true; }
    void label(const std::string& l) { labels.push_back(l); }
    // a listed finding: recorded, not a failure
    void known(const std::string& id, const std::string& msg)
    {
        if (!knownIds().count(id)) throw Fail{msg};
        knowns.push_back(id);
    }

    std::vector<uint64_t> out;
    int logFd = -1, descFd = -1;    // where the draws and notes of a case that may die are kept
    std::string desc;
    bool nontriv = false;
    std::vector<std::string> labels;
    std::vector<std::string> knowns;
private:
    bool m_replay;
    std::vector<uint64_t> m_in;
    size_t m_pos = 0;
    std::mt19937_64 m_rng;
};

template <class... A> std::string cat(const A&... a)
{
    std::ostringstream s;
    s.precision(17);
    int dummy[] = {0, ((s << a), 0)...};
    (void)dummy;
    return s.str();
}
template <class... A> void require(bool ok, const A&... a)
{
    if (!ok) throw Fail{cat(a...)};
}
inline bool near(double a, double b, double rel, double abs = 0)
{
    if (std::isnan(a) || std::isnan(b)) return false;
    if (a == b) return true;
    return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs;
}

struct Prop
{
    std::string name;
    std::function<void(Gen&)> fn;
    int quick, thorough;    // cases
    std::string rule;       // what makes a case non-trivial
};
inline std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
struct Reg
{
    Reg(const char* n, int q, int t, const char* rule, std::function<void(Gen&)> f)
    { props().push_back(Prop{n, f, q, t, rule}); }
};
#define PROPERTY(name, quick, thorough, rule) \
    static void prop_##name(pbt::Gen& g); \
    static pbt::Reg reg_##name(#name, quick, thorough, rule, prop_##name); \
    static void prop_##name(pbt::Gen& g)

// What a forked run of some code did.
struct Outcome { int code = -1; int sig = 0; bool timeout = false; std::string err, out; };

// Runs f in a fork, captures stdout/stderr; f's return value is the exit code.
inline std::string slurp(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
inline std::string& scratchDir() { static std::string d; return d; }
inline std::string tmpName(const std::string& tag)
{
    static unsigned n = 0;
    return scratchDir() + "/" + tag + "-" + std::to_string(getpid()) + "-" + std::to_string(n++);
}
inline Outcome runForked(const std::function<int()>& f, unsigned limit = 60)
{
    std::string eName = tmpName("err"), oName = tmpName("out");
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
        int e = open(eName.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        int o = open(oName.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        dup2(e, 2); dup2(o, 1);
        signal(SIGALRM, SIG_DFL);
        alarm(limit);
        int rc = 99;
        try { rc = f(); }
        catch (Fail& x) { std::cerr << "PBT-FAIL: " << x.msg << std::endl; rc = 98; }
        catch (std::exception& x) { std::cerr << "PBT-EXCEPTION: " << x.what() << std::endl; rc = 97; }
        catch (...) { std::cerr << "PBT-EXCEPTION: unknown" << std::endl; rc = 97; }
        std::cout.flush(); std::cerr.flush();
        fflush(stdout);
        _exit(rc);
    }
    Outcome r;
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st)) r.code = WEXITSTATUS(st);
    else { r.sig = WTERMSIG(st); r.timeout = r.sig == SIGALRM; }
    r.err = slurp(eName); r.out = slurp(oName);
    unlink(eName.c_str()); unlink(oName.c_str());
    return r;
}

struct Result
{
    int status = 0;     // 0 pass, 1 fail, 2 discard, 3 died
    bool nontriv = false;
    std::string desc, msg;
    std::vector<uint64_t> choices;
    std::vector<std::string> labels, knowns;
};

// runs before every case, to put the code under test into a known state
inline std::function<void(Gen&)>& beforeCase() { static std::function<void(Gen&)> f; return f; }

inline Result evalHere(const Prop& p, Gen& g)
{
    Result r;
    try { if (beforeCase()) beforeCase()(g); p.fn(g); r.status = 0; }
    catch (Fail& f) { r.status = 1; r.msg = f.msg; }
    catch (Discard&) { r.status = 2; }
    catch (std::exception& e) { r.status = 1; r.msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { r.status = 1; r.msg = "unexpected exception of unknown type"; }
    r.nontriv = g.nontriv; r.desc = g.desc; r.choices = g.out; r.labels = g.labels; r.knowns = g.knowns;
    return r;
}

inline void putStr(std::string& b, const std::string& s)
{ uint32_t n = s.size(); b.append((char*)&n, 4); b += s; }
inline std::string pack(uint64_t i, const Result& r)
{
    std::string b;
    b.append((char*)&i, 8);
    b.push_back((char)r.status); b.push_back((char)r.nontriv);
    putStr(b, r.desc); putStr(b, r.msg);
    std::string c((const char*)r.choices.data(), r.choices.size() * 8);
    putStr(b, c);
    std::string l, k;
    for (auto& x : r.labels) l += x + "\n";
    for (auto& x : r.knowns) k += x + "\n";
    putStr(b, l); putStr(b, k);
    uint32_t n = b.size();
    return std::string((char*)&n, 4) + b;
}
inline std::vector<std::string> lines(const std::string& s)
{
    std::vector<std::string> v; std::istringstream is(s); std::string x;
    while (std::getline(is, x)) v.push_back(x);
    return v;
}
inline void unpack(const std::string& b, uint64_t& i, Result& r)
{
    size_t p = 0;
    auto getStr = [&]() { uint32_t n; memcpy(&n, &b[p], 4); p += 4; std::string s = b.substr(p, n); p += n; return s; };
    memcpy(&i, &b[p], 8); p += 8;
    r.status = b[p++]; r.nontriv = b[p++];
    r.desc = getStr(); r.msg = getStr();
    std::string c = getStr();
    r.choices.resize(c.size() / 8);
    if (!c.empty()) memcpy(r.choices.data(), c.data(), c.size());
    r.labels = lines(getStr()); r.knowns = lines(getStr());
}
inline bool writeAll(int fd, const std::string& s)
{
    size_t o = 0;
    while (o < s.size())
    {
        ssize_t n = write(fd, s.data() + o, s.size() - o);
        if (n < 0) { if (errno == EINTR) continue; return false; }
        o += n;
    }
    return true;
}

inline unsigned caseLimit() { return 240; }   // seconds

// Runs one case in a fork of its own.
inline Result evalForked(const Prop& p, const std::vector<uint64_t>* choices, uint64_t seed)
{
    int fd[2];
    if (pipe(fd)) { perror("pipe"); _exit(3); }
    std::string eName = tmpName("case-err");
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        int e = open(eName.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        dup2(e, 2);
        int o = open("/dev/null", O_WRONLY);
        dup2(o, 1);
        alarm(caseLimit());
        Gen g = choices ? Gen(*choices) : Gen(seed);
        g.logFd = open((eName + ".draws").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        g.descFd = open((eName + ".desc").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        Result r = evalHere(p, g);
        writeAll(fd[1], pack(0, r));
        _exit(0);
    }
    close(fd[1]);
    std::string b; char buf[65536]; ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) b.append(buf, n);
    close(fd[0]);
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r;
    uint32_t len = 0;
    if (b.size() >= 4) memcpy(&len, b.data(), 4);
    if (b.size() >= 4 && b.size() == len + 4)
    { uint64_t i; unpack(b.substr(4), i, r); }
    else
    {
        r.status = 3;
        std::string err = slurp(eName);
        std::string tail = err.size() > 1500 ? err.substr(0, 1500) : err;
        r.msg = WIFSIGNALED(st) ? cat("the code under test died of signal ", WTERMSIG(st),
            WTERMSIG(st) == SIGALRM ? " (no answer within the limit)" : "", ": ", tail)
            : cat("the code under test ended the process with exit code ", WEXITSTATUS(st), ": ", tail);
        r.desc = slurp(eName + ".desc");
        std::string d = slurp(eName + ".draws");
        r.choices.resize(d.size() / 8);
        if (!r.choices.empty()) memcpy(r.choices.data(), d.data(), r.choices.size() * 8);
    }
    unlink(eName.c_str());
    unlink((eName + ".draws").c_str());
    unlink((eName + ".desc").c_str());
    return r;
}

inline bool bad(const Result& r) { return r.status == 1 || r.status == 3; }

inline Result shrink(const Prop& p, Result best, double seconds)
{
    auto t0 = std::chrono::steady_clock::now();
    auto late = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds; };
    auto attempt = [&](const std::vector<uint64_t>& c) {
        if (late()) return false;
        Result r = evalForked(p, &c, 0);
        if (!bad(r)) return false;
        if (r.choices.size() > best.choices.size()) return false;
        best = r;
        return true;
    };
    bool progress = true;
    while (progress && !late())
    {
        progress = false;
        for (size_t len : {16, 8, 4, 2, 1})
            for (size_t i = 0; i + len <= best.choices.size() && !late();)
            {
                std::vector<uint64_t> c = best.choices;
                c.erase(c.begin() + i, c.begin() + i + len);
                size_t before = best.choices.size();
                if (attempt(c) && best.choices.size() < before) progress = true; else i++;
            }
        for (size_t i = 0; i < best.choices.size() && !late(); i++)
        {
            uint64_t v = best.choices[i];
            if (v == 0) continue;
            std::vector<uint64_t> c = best.choices;
            c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = v;   // lo passes, hi fails
            for (int k = 0; k < 24 && lo + 1 < hi && !late(); k++)
            {
                uint64_t mid = lo + (hi - lo) / 2;
                if (i >= best.choices.size()) break;
                c = best.choices; c[i] = mid;
                if (attempt(c)) { hi = mid; progress = true; } else lo = mid;
            }
        }
    }
    return best;
}

inline std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

struct Stats
{
    uint64_t evals = 0, discards = 0, nontriv = 0;
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> labels, knowns;
    bool failed = false;
    Result fail;
    uint64_t failIndex = 0;
};

inline Stats explore(const Prop& p, uint64_t seed, int cases, int workers, double maxSeconds)
{
    Stats s;
    if (workers > cases) workers = cases;
    struct W { pid_t pid; int fd; std::string buf; uint64_t next; bool open; };
    std::vector<W> ws;
    auto caseSeed = [&](uint64_t i) { return mix(mix(seed * 1000003ull + 17) ^ hashStr(p.name) ^ mix(i)); };
    auto start = [&](int w, uint64_t from) {
        int fd[2];
        if (pipe(fd)) { perror("pipe"); exit(3); }
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0)
        {
            for (auto& x : ws) if (x.open) close(x.fd);
            close(fd[0]);
            int o = open("/dev/null", O_WRONLY);
            dup2(o, 1); dup2(o, 2);
            for (uint64_t i = from; i < (uint64_t)cases; i += workers)
            {
                alarm(caseLimit());
                Gen g(caseSeed(i));
                Result r = evalHere(p, g);
                if (r.status != 1) r.choices.clear();
                if (!writeAll(fd[1], pack(i, r))) _exit(0);
            }
            _exit(0);
        }
        close(fd[1]);
        return W{pid, fd[0], "", from, true};
    };
    auto t0 = std::chrono::steady_clock::now();
    for (int w = 0; w < workers; w++) ws.push_back(start(w, w));
    bool stop = false;
    while (!stop)
    {
        std::vector<pollfd> pf;
        std::vector<int> who;
        for (size_t w = 0; w < ws.size(); w++) if (ws[w].open) { pf.push_back({ws[w].fd, POLLIN, 0}); who.push_back(w); }
        if (pf.empty()) break;
        poll(pf.data(), pf.size(), 1000);
        for (size_t k = 0; k < pf.size() && !stop; k++)
        {
            if (!(pf[k].revents & (POLLIN | POLLHUP | POLLERR))) continue;
            W& w = ws[who[k]];
            char buf[65536];
            ssize_t n = read(w.fd, buf, sizeof buf);
            if (n < 0 && errno == EINTR) continue;
            if (n > 0)
            {
                w.buf.append(buf, n);
                while (w.buf.size() >= 4)
                {
                    uint32_t len; memcpy(&len, w.buf.data(), 4);
                    if (w.buf.size() < len + 4) break;
                    uint64_t i; Result r;
                    unpack(w.buf.substr(4, len), i, r);
                    w.buf.erase(0, len + 4);
                    w.next = i + workers;
                    s.evals++;
                    if (r.status == 2) s.discards++;
                    for (auto& l : r.labels) s.labels[l]++;
                    for (auto& l : r.knowns) s.knowns[l]++;
                    if (r.status != 2 && r.nontriv)
                    {
                        s.nontriv++;
                        s.distinct.insert(hashStr(r.desc));
                        if (s.samples.size() < 4 || (s.samples.size() < 12 && mix(i) % 97 == 0))
                            s.samples.push_back(r.desc.substr(0, 1200));
                    }
                    if (r.status == 1 && (!s.failed || i < s.failIndex)) { s.failed = true; s.fail = r; s.failIndex = i; stop = true; }
                }
            } else
            {
                int st; while (waitpid(w.pid, &st, 0) < 0 && errno == EINTR) {}
                close(w.fd); w.open = false;
                if (w.next < (uint64_t)cases)
                {
                    // The worker died in case w.next.
                    s.failed = true; s.failIndex = w.next; s.fail.status = 3; stop = true;
                }
            }
        }
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > maxSeconds) stop = true;
    }
    for (auto& w : ws) if (w.open) { kill(w.pid, SIGKILL); int st; waitpid(w.pid, &st, 0); close(w.fd); }
    return s;
}

inline int mainImpl(int argc, char** argv)
{
    std::string outFile, replayDir = ".", replay, only;
    uint64_t seed = 1; bool thorough = false; int workers = 6; double scale = 1, maxSeconds = 1e9;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--out") outFile = next();
        else if (a == "--seed") seed = strtoull(next().c_str(), 0, 10);
        else if (a == "--thorough") thorough = true;
        else if (a == "--replay-dir") replayDir = next();
        else if (a == "--replay") replay = next();
        else if (a == "--workers") workers = atoi(next().c_str());
        else if (a == "--only") only = next();
        else if (a == "--scale") scale = atof(next().c_str());
        else if (a == "--max-seconds") maxSeconds = atof(next().c_str());
        else if (a == "--known") { std::string k = next(); std::istringstream is(k); std::string x; while (std::getline(is, x, ',')) knownIds().insert(x); }
        else if (a == "--list") { for (auto& p : props()) std::cout << p.name << "\n"; return 0; }
    }
    char tmpl[] = "/tmp/verif-pbt-XXXXXX";
    scratchDir() = mkdtemp(tmpl);
    if (chdir(scratchDir().c_str())) return 3;
    auto cleanup = [&]() { if (chdir("/")) {} std::string c = "rm -rf '" + scratchDir() + "'"; if (system(c.c_str())) {} };
    if (!replay.empty())
    {
        std::ifstream f(replay);
        std::string name; uint64_t v; std::vector<uint64_t> c;
        f >> name;
        while (f >> v) c.push_back(v);
        int rc = 3;
        for (auto& p : props()) if (p.name == name)
        {
            Result r = evalForked(p, &c, 0);
            std::cout << (bad(r) ? "FAIL " : "PASS ") << name << "\n  " << r.desc << "\n  " << r.msg << "\n";
            rc = bad(r) ? 1 : 0;
        }
        cleanup();
        return rc;
    }
    std::string js = "[";
    bool anyFail = false;
    for (auto& p : props())
    {
        if (!only.empty() && p.name != only) continue;
        int n = std::max(1, (int)((thorough ? p.thorough : p.quick) * scale));
        auto t0 = std::chrono::steady_clock::now();
        Stats s = explore(p, seed, n, workers, maxSeconds);
        std::string rp, note;
        if (s.failed)
        {
            uint64_t cs = mix(mix(seed * 1000003ull + 17) ^ hashStr(p.name) ^ mix(s.failIndex));
            // An interrupted run (crash of the worker itself) must reproduce
            int again = 0;
            Result first;
            for (int k = 0; k < 10 && again < 3; k++) { Result r = evalForked(p, nullptr, cs); if (bad(r)) { again++; first = r; } }
            if (again == 0 && s.fail.status == 3) { s.failed = false; note = "a worker died and the case did not reproduce: dropped"; }
            else
            {
                std::string path = replayDir + "/" + p.name + ".replay";
                if (again == 0) note = "the case fails now and then, not every time";
                Result best = again == 0 ? s.fail : first;
                if (again == 3) best = shrink(p, first, thorough ? 90 : 25);
                std::ofstream f(path);
                f << p.name << "\n";
                for (auto c : best.choices) f << c << " ";
                f << "\n";
                f << "# " << esc(best.desc) << "\n# " << esc(best.msg) << "\n";
                f.close();
                rp = path;
                s.fail = best;
                anyFail = true;
            }
        }
        double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        std::cerr << (s.failed ? "FAIL " : "ok   ") << p.name << ": " << s.evals << " cases, "
                  << s.distinct.size() << " distinct non-trivial, " << s.discards << " discarded, " << secs << " s";
        for (auto& l : s.labels) std::cerr << "; " << l.first << ":" << l.second;
        if (!note.empty()) std::cerr << " (" << note << ")";
        if (s.failed) std::cerr << "\n     " << s.fail.desc << "\n     " << s.fail.msg;
        std::cerr << std::endl;
        if (js.size() > 1) js += ",";
        js += "\n{\"name\":\"" + p.name + "\",\"rule\":\"" + esc(p.rule) + "\",\"evaluations\":" + std::to_string(s.evals)
            + ",\"distinct_nontrivial\":" + std::to_string(s.distinct.size()) + ",\"discarded\":" + std::to_string(s.discards)
            + ",\"wall_s\":" + std::to_string(secs) + ",\"note\":\"" + esc(note) + "\",\"failed\":" + (s.failed ? "true" : "false")
            + ",\"replay\":\"" + esc(rp) + "\",\"case\":\"" + esc(s.failed ? s.fail.desc : "") + "\",\"message\":\""
            + esc(s.failed ? s.fail.msg : "") + "\",\"samples\":[";
        for (size_t i = 0; i < s.samples.size(); i++) js += (i ? "," : "") + ("\"" + esc(s.samples[i]) + "\"");
        js += "],\"labels\":{";
        bool c = false;
        for (auto& l : s.labels) { js += (c ? ",\"" : "\"") + esc(l.first) + "\":" + std::to_string(l.second); c = true; }
        js += "},\"known\":{";
        c = false;
        for (auto& l : s.knowns) { js += (c ? ",\"" : "\"") + esc(l.first) + "\":" + std::to_string(l.second); c = true; }
        js += "}}";
    }
    js += "\n]\n";
    if (!outFile.empty()) { std::ofstream f(outFile); f << js; }
    cleanup();
    return anyFail ? 1 : 0;
}
} // namespace pbt

#define PBT_MAIN int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
#endif
