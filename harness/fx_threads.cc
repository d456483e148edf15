// concurrency: which locks protect the libraries, reading from several threads, reading after fork
#include "fx.h"
#include "fx_interpose.h"
#include <condition_variable>
#include <csignal>
#include <mutex>
#include <omp.h>
#include <sys/wait.h>
#include <poll.h>
#include <thread>
#include <unistd.h>

OP("monitor")
{
    J o = J::obj();
    if (c["on"].i()) {
        fxi::reset();
        fxi::on = 1;
        return o;
    }
    fxi::on = 0;
    const fxi::Report r = fxi::report();
    static const char* lib[] = {"netcdf", "udunits"};
    J calls = J::arr();
    for (auto& x : r.calls) {
        J e = J::obj(), l = J::arr();
        for (int k : x.locks) l.push(k + 1);
        e.set("lib", lib[x.lib]);
        e.set("locks", l);
        e.set("first", x.first);
        calls.push(e);
    }
    J edges = J::arr();
    for (auto& x : r.edges) { J e = J::arr(); e.push(x.first + 1); e.push(x.second + 1); edges.push(e); }
    o.set("calls", calls);
    o.set("edges", edges);
    o.set("self", r.selfLock);
    return o;
}

J readOne(const J& c);
static J readObs(const J& c)
{
    J o;
    try {
        o = readOne(c);
        if (!o.has("st")) o.set("st", "ok");
    } catch (std::exception&) {
        o = J::obj();
        o.set("st", "err");
    }
    return o;
}

// The schedule says in which order the threads pass their reads of the source.  A thread that does not come by in time
// (it waits for a lock another one holds, or has finished) loses its turn.
namespace {
std::mutex gm;
std::condition_variable gcv;
std::vector<int> sched;
size_t at = 0;
bool gating = false;
std::vector<bool> finished;
thread_local int me = -1;
void skip() { while (at < sched.size() && finished[sched[at]]) at++; }
} // namespace
static std::atomic<unsigned> jitter{0};
void gate()
{
    if (jitter) {
        const unsigned h = (jitter += 2654435761u);
        if (h >> 30) usleep((h >> 28) * 60);
    }
    if (!gating || me < 0) return;
    std::unique_lock<std::mutex> l(gm);
    skip();
    if (at >= sched.size()) return;
    const size_t before = at;
    if (!gcv.wait_for(l, std::chrono::milliseconds(20), [&] { skip(); return at >= sched.size() || sched[at] == me; })) {
        if (at == before) at++;
    }
    else if (at < sched.size() && sched[at] == me) at++;
    gcv.notify_all();
}

OP("par")
{
    const J& ths = c["reads"];
    const size_t n = ths.size();
    std::vector<J> res(n);
    sched.clear();
    for (size_t i = 0; i < c["sched"].size(); ++i) sched.push_back(c["sched"][i].i());
    at = 0;
    finished.assign(n, false);
    const long rep = c.i("rep", 1);
    gating = rep == 1;
    std::vector<std::thread> t;
    for (size_t k = 0; k < n; ++k)
        t.emplace_back([&, k] {
            me = k;
            // the same reads over and over: the first answer that differs from the first round's is kept
            std::string first;
            for (long r = 0; r < rep; ++r) {
                J a = J::arr();
                for (size_t i = 0; i < ths[k].size(); ++i) {
                    gate();
                    a.push(readObs(ths[k][i]));
                }
                if (r == 0) { first = a.dump(); res[k] = a; }
                else if (a.dump() != first) { res[k] = a; break; }
            }
            std::lock_guard<std::mutex> l(gm);
            finished[k] = true;
            gcv.notify_all();
        });
    for (auto& x : t) x.join();
    gating = false;
    J o = J::obj(), all = J::arr();
    for (auto& r : res) all.push(r);
    o.set("res", all);
    return o;
}

OP("threads") { omp_set_num_threads(c["n"].i()); jitter = c.i("jitter", 0); return J::obj(); }

// children of this process read, while it reads, too
OP("forkread")
{
    const J& kids = c["kids"];
    std::vector<std::pair<pid_t, int>> ps;
    for (size_t k = 0; k < kids.size(); ++k) {
        int fd[2];
        if (pipe(fd)) throw std::runtime_error("harness: pipe");
        pid_t p = fork();
        if (p < 0) throw std::runtime_error("harness: fork");
        if (p == 0) {
            close(fd[0]);
            alarm(10);
            J a = J::arr();
            for (size_t i = 0; i < kids[k].size(); ++i) a.push(readObs(kids[k][i]));
            const std::string s = a.dump();
            size_t w = 0;
            while (w < s.size()) { ssize_t r = write(fd[1], s.data() + w, s.size() - w); if (r <= 0) break; w += r; }
            _exit(0);
        }
        close(fd[1]);
        ps.push_back({p, fd[0]});
    }
    J mine = J::arr();
    for (size_t i = 0; i < c["own"].size(); ++i) mine.push(readObs(c["own"][i]));
    J all = J::arr();
    for (auto& x : ps) {
        std::string s;
        char buf[4096];
        ssize_t r;
        while ((r = read(x.second, buf, sizeof buf)) > 0) s.append(buf, r);
        close(x.second);
        int st = 0;
        waitpid(x.first, &st, 0);
        J k = J::obj();
        if (st == 0 && !s.empty()) { k.set("st", "ok"); k.set("res", J::parse(s)); }
        else k.set("st", "lost"); // the child did not come back
        all.push(k);
    }
    J o = J::obj();
    o.set("own", mine);
    o.set("kids", all);
    return o;
}

// a command during which a call of netCDF fails; what it made is dropped
OP("ncfault")
{
    const J& k = c["cmd"];
    auto it = handlers().find(k["op"].str());
    if (it == handlers().end()) throw std::runtime_error("harness: op");
    fxi::failAt(c["n"].i());
    std::string st = "ok";
    try {
        J o = it->second(k);
        st = o.has("st") ? o["st"].str() : "ok";
    } catch (std::exception& ex) {
        if (std::string(ex.what()).compare(0, 8, "harness:") == 0) throw;
        st = "err";
    }
    J o = J::obj();
    o.set("hit", fxi::wasHit());
    o.set("left", fxi::heldNow());
    if (k["op"].str() != "read" && k.has("id")) R.erase(k["id"].str());
    return o;
}
