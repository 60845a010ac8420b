// World: checked aborts with an error stream that may not work.
#include <errno.h>
#include <stdio_ext.h>
#include <iostream>

#include "common.h"

using namespace sim;
using namespace sut;

namespace
{
enum Kind
{
    CHECK,   // a0 form, a1 condition, a2 value, a3 text, a4 text length
    STREAM,  // a0 fault kind, a1 at byte, a2 errno
    NOTE,    // a0 how: the program itself writes to the error stream
    kKinds
};
const char *const kNames[] = {"check", "stream", "note"};
enum Cfg
{
    THREADS,
    DEN,
    PCT,
    SIGABRT_IGNORED,
    OUTPUT,  // standard output: 0 left alone, 1 has text waiting, 2 has text waiting that cannot be written
    BUFFER,  // of the error stream: 0 none, -1 by lines, else full of so many bytes
    kCfg
};
enum Stream
{
    ST_WORKS,
    ST_FAILS,       // from a byte on, with an errno
    ST_SHORT,
    ST_INTERRUPTED,
    ST_SHORT_FAILS,
    kStreams
};
const int kErr[] = {ENOSPC, EIO, EPIPE, EBADF, EAGAIN, EFBIG};
const char *const kErrName[] = {"fault:stream-full-device", "fault:stream-io-error", "fault:stream-broken-pipe",
                                "fault:stream-closed", "fault:stream-would-block", "fault:stream-file-too-big"};

Plan gen(uint64_t seed, const std::string &)
{
    Rng r(seed);
    Plan p;
    const int nt = r.chance(1, 4) ? int(r.range(2, 3)) : 1;
    static const int dens[] = {2, 4, 10, 40};
    p.cfg = {nt, r.pick(dens), r.chance(1, 4), r.chance(1, 4), r.chance(1, 3) ? r.range(1, 2) : 0, 0};
    if (r.chance(1, 3)) p.cfg[BUFFER] = r.chance(1, 3) ? -1 : r.chance(1, 2) ? r.range(16, 600) : int64_t{BUFSIZ};
    for (int t = 0; t < nt; ++t)
    {
        const int n = int(r.range(1, nt > 1 ? 4 : 7));
        for (int i = 0; i < n; ++i)
        {
            if (r.chance(1, 2) && t == 0)
                p.ops.push_back({t, STREAM, {int64_t(r.below(kStreams)), r.chance(1, 2) ? r.range(0, 20) : r.range(0, 300), int64_t(r.below(6)), 0, 0}});
            if (r.chance(1, 6) && t == 0)
            {
                // an earlier write fails; by the time of the check the stream works again
                p.ops.push_back({t, STREAM, {ST_FAILS, r.range(0, 6), int64_t(r.below(6)), 0, 0}});
                p.ops.push_back({t, NOTE, {int64_t(r.below(4)), 0, 0, 0, 0}});
                p.ops.push_back({t, STREAM, {r.chance(1, 5) ? int64_t(r.below(kStreams)) : int64_t(ST_WORKS), r.range(0, 99), int64_t(r.below(6)), 0, 0}});
            }
            int64_t len = r.chance(1, 10) ? r.range(200, 9000) : r.range(0, 40);
            p.ops.push_back({t, CHECK, {int64_t(r.below(uint64_t(kAbort.forms))), i == n - 1 ? int64_t(!r.chance(1, 8)) : r.chance(1, 10), r.range(-99, 9999), int64_t(r.below(1000)), len}});
        }
    }
    over_and_over(p, r, 300);
    return p;
}
std::string text_of(int64_t key, int64_t len)
{
    static const char alphabet[] = "abcXYZ0129 %%s%d\\n\t/:-";
    Rng r(uint64_t(key) + 5);
    std::string s;
    for (int64_t i = 0; i < len && i < 20000; ++i) s += alphabet[r.below(sizeof alphabet - 1)];
    return s;
}
bool has_number(const std::string &s, int n)
{
    std::string d = strf("%d", n);
    for (size_t at = s.find(d); at != std::string::npos; at = s.find(d, at + 1))
    {
        bool l = at == 0 || !isdigit(static_cast<unsigned char>(s[at - 1]));
        bool r = at + d.size() >= s.size() || !isdigit(static_cast<unsigned char>(s[at + d.size()]));
        if (l && r) return true;
    }
    return false;
}
std::string expected(int form, int v, const std::string &t)
{
    const char *x = t.c_str();
    std::vector<char> b(8 * t.size() + 4096);
    auto f = [&](const char *fmt, auto... a)
    {
        snprintf(b.data(), b.size(), fmt, a...);
        return std::string(b.data());
    };
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
    switch (form)
    {
        case 1: return "just text";
        case 2: return t;
        case 3: return f("v=%d s=%s z=%zu c=%c x=%#llx f=%.3f w=%5d%% %s", v, x, size_t(v) * 3, 'q', 0xfedcba9876543210ull, 2.5, v, "end");
        case 5: return "\nreason: no arguments";
        case 6: return f("\nreason: %d %s", v, x);
        case 7: return f(" %s %d %s %d %s %d %s %d %s %d %s", x, v, "b", v + 1, "c", v + 2, "d", v + 3, "e", v + 4, x);
        case 8: return f("\nreason: debug %d", v);
        case 10: return f("\nreason: in a method, %d", v);
        case 11: return f("\nreason: in a destructor, %d", v);
        case 13: return f("\nreason: in a lambda %d", v);
        case 16: return f("\nreason: odd file name, %d", v);
        case 18: return f(x, v, v + 1);
        case 19:
        {
            std::string s = "\n";
            for (int i = 0; i < 320; ++i) s += "0123456789abcdef";
            return s + f("<%d|%s>", v, x);
        }
        case 20: return f("%3$s %1$d %2$*1$d|%4$-8d|%5$.*4$s", 6, v, x, 3, "abcdef");
        case 17: return "\n" + t + t + t + t;
        default: return "";
    }
#pragma GCC diagnostic pop
}

// The program's standard output.  The simulator's own goes elsewhere.
bool g_out_fails;
ssize_t out_write(void *, const char *, size_t n)
{
    if (!g_out_fails) return ssize_t(n);
    count("fault:output-write-failed");
    errno = ENOSPC;
    return 0;
}
struct Output
{
    FILE *real = stdout;
    explicit Output(int64_t how)
    {
        static FILE *f = nullptr;
        static char room[4096];
        if (!how) return;
        if (!f)
        {
            cookie_io_functions_t io{};
            io.write = out_write;
            f = fopencookie(nullptr, "w", io);
            setvbuf(f, room, _IOFBF, sizeof room);
        }
        __fpurge(f);
        clearerr(f);
        g_out_fails = how == 2;
        stdout = f;
        fputs("what the program has to say", stdout);
        count(how == 2 ? "fault:output-fails" : "probe:output-waiting");
    }
    ~Output() { stdout = real; }
};
constexpr size_t kTextRoom = 32768;
struct Run
{
    const Plan &plan;
    Ctx &c;
    int nt;
    bool works = true;
    bool gone = false;  // the process has ended

    Run(const Plan &p, Ctx &x) : plan(p), c(x), nt(int(std::min<int64_t>(std::max<int64_t>(p.cfg[THREADS], 1), 3))) {}
    void stream(const Op &o)
    {
        ErrFaults f{};
        f.writes = g_err_faults.writes;
        f.injected = g_err_faults.injected;
        for (int i = 0; i < 10; ++i) f.writes_by[i] = g_err_faults.writes_by[i];
        g_err_faults = f;
        const int k = int(uint64_t(o.a[0]) % kStreams), e = int(uint64_t(o.a[2]) % 6);
        works = k == ST_WORKS;
        if (k == ST_FAILS || k == ST_SHORT_FAILS)
        {
            g_err_faults.fail_at = int64_t(g_err.size()) + o.a[1];
            g_err_faults.err = kErr[e];
            count(kErrName[e]);
        }
        if (k == ST_SHORT || k == ST_SHORT_FAILS)
        {
            g_err_faults.shorts = true;
            count("fault:stream-short-writes");
        }
        if (k == ST_INTERRUPTED)
        {
            g_err_faults.eintr_every = 1 + int64_t(uint64_t(o.a[1]) % 2);
            count("fault:stream-interrupted");
        }
    }
    void note(const Op &o)
    {
        switch (o.a[0] & 3)
        {
            case 0: fputs("the program notes something\n", stderr); break;
            case 1: fprintf(stderr, "note %d of the program", 17); break;
            case 2: std::cerr << "note " << 18 << std::flush; break;
            default: fputc('n', stderr); break;
        }
        if (ferror(stderr) || !std::cerr) count("fault:earlier-write-failed");
        c.ev("note", o.a[0], ferror(stderr), int64_t(g_err.size()));
    }
    uint64_t written_by(int t) const { return g_err_faults.writes_by[t + 1]; }
    uint64_t written_by_others(int t) const
    {
        uint64_t n = 0;
        for (int i = 0; i < 10; ++i)
            if (i != t + 1) n += g_err_faults.writes_by[i];
        return n;
    }
    void check(const Op &o)
    {
        const int form = int(uint64_t(o.a[0]) % uint64_t(kAbort.forms));
        if (kAbort.is_debug(form) && !kAbort.debug_enabled) return;
        const bool cond = o.a[1] & 1;
        const int v = int(o.a[2]), me = self_thread();
        std::string text = text_of(o.a[3], o.a[4]);
        if (form == 18)
        {
            std::string escaped;
            for (char ch : text) escaped += ch == '%' ? "%%" : std::string(1, ch);
            text = escaped + "<%d|%5d>";
        }
        // at a place of its own, so that its address is the same in every run
        char *room = reinterpret_cast<char *>(arena_base() + kObjOff) + size_t(me + 1) * kTextRoom;
        memcpy(room, text.c_str(), text.size() + 1);
        volatile int continued = 0;
        int evaluated = 0;
        if (nt == 1) g_err.clear();
        const uint64_t w0 = written_by(me), f0 = g_err_faults.injected, o0 = written_by_others(me);
        errno = int(uint64_t(o.a[3]) % 3) * 2;
        int t;
        {
            Output output(nt == 1 ? plan.cfg[OUTPUT] : 0);
            t = guarded([&] { kAbort.call(form, cond, v, room, &continued, &evaluated); }, 2000000);
        }
        if (gone) return;  // another thread ended the process meanwhile
        const bool alone = written_by_others(me) == o0;
        c.ev("check", form, cond, t, int64_t(g_err.size()));
        c.put(uint64_t(continued));
        for (char ch : g_err.substr(0, 400)) c.put(uint64_t(uint8_t(ch)));
        c.at_state(mix(uint64_t(form) * 2 + cond, mix(g_err_faults.injected - f0, std::min<uint64_t>(g_err.size(), 600))));
        c.nontrivial = c.nontrivial || cond;
        if (evaluated != 1) return c.violate("G01", "condition", strf("form %d evaluates its condition %d times", form, evaluated));
        if (!cond)
        {
            if (t != T_NONE || !continued)
                return c.violate("G01", "false-alarm", strf("form %d ended in %s although its condition is false", form, trap_name(t)));
            if (written_by(me) != w0 || (alone && nt == 1 && !g_err.empty()))
                return c.violate("G01", "wrote", strf("form %d wrote to the error stream although its condition is false", form));
            return;
        }
        if (g_err_faults.injected > f0) count("probe:abort-with-failed-diagnostics");
        if (continued || t == T_NONE)
            return c.violate("G01", "continued", strf("form %d returned to its caller although its condition is true", form));
        if (t != T_ABORT)
            return c.violate("G01", "not-abort", strf("form %d ended in %s (%s) instead of abort", form, trap_name(t), g_trap_msg));
        gone = true;
        if (!works || !kAbort.has_message(form)) return;
        if (!alone)
        {
            count("probe:threads-wrote-together");
            return;
        }
        const std::string want = expected(form, v, text);
        if (form != 12 && g_err.find(want) == std::string::npos)
            return c.violate("G01", "message", strf("form %d: the message on the error stream is incomplete (%zu bytes of at least %zu)", form, g_err.size(), want.size()));
        if (form == 12 && (g_err.find("1.25 -5000000000 ") == std::string::npos || g_err.find(text) == std::string::npos))
            return c.violate("G01", "message", "form 12: the message on the error stream is incomplete");
        if (!kAbort.is_macro(form) && form != 12 && nt == 1 && !plan.cfg[BUFFER] && g_err != want)
            return c.violate("G01", "message", strf("form %d: more than the message was written", form));
        if (kAbort.is_macro(form))
        {
            std::string file = form == 16 ? "odd%20dir/100%s%n.cpp" : kAbort.file;
            if (g_err.find(file) == std::string::npos) return c.violate("G01", "no-file", strf("form %d: the message does not name its file", form));
            if (!has_number(g_err, kAbort.line(form))) return c.violate("G01", "no-line", strf("form %d: the message does not name its line", form));
            if (g_err.find(kAbort.func(form)) == std::string::npos)
                return c.violate("G01", "no-function", strf("form %d: the message does not name its function", form));
        }
    }
    void body(int t)
    {
        for (auto &o : plan.ops)
        {
            if (c.stop || gone) return;
            if (int(unsigned(o.thr) % unsigned(nt)) != t) continue;
            if (o.kind == STREAM)
            {
                if (nt == 1) stream(o);
            }
            else if (o.kind == NOTE)
            {
                if (nt == 1) note(o);
            }
            else check(o);
        }
    }
    void go()
    {
        g_sigabrt_ignored = plan.cfg[SIGABRT_IGNORED] & 1;
        if (const int64_t size = plan.cfg[BUFFER])
        {
            // what is in the buffer when the process dies is lost
            setvbuf(stderr, reinterpret_cast<char *>(arena_base() + kObjOff + 16 * kTextRoom), size < 0 ? _IOLBF : _IOFBF,
                    size_t(size < 0 ? 400 : std::min<int64_t>(size, kTextRoom)));
            count(size < 0 ? "fault:stream-line-buffered" : "fault:stream-buffered");
        }
        if (g_sigabrt_ignored) count("fault:sigabrt-ignored");
        if (nt == 1) return body(0);
        for (auto &o : plan.ops)
            if (o.kind == STREAM) stream(o);  // before the threads start
            else if (o.kind == NOTE) note(o);
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < nt; ++t) bodies.push_back([this, t] { body(t); });
        ThreadOpts to;
        to.num = 1;
        to.den = unsigned(std::max<int64_t>(plan.cfg[DEN], 1));
        to.pct = plan.cfg[PCT];
        run_threads(plan, c, bodies, to);
        if (!c.stop && !gone && deadlocked()) c.violate("G01", "stuck", "threads wait for each other for ever");
    }
};
void exec(const Plan &p, Ctx &c)
{
    if (p.cfg.size() < kCfg) return c.diverge("bad plan");
    Run(p, c).go();
}
}  // namespace
namespace sim
{
const World g_world = {"abort", kNames, kKinds, gen, exec};
}
