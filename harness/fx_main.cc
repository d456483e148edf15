#include "fx.h"
#include "fx_interpose.h"
#include "fimex/Logger.h"
#include <iostream>
#include <unistd.h>
#include <sys/resource.h>
#include <cstdio>

std::map<std::string, Handler>& handlers() { static std::map<std::string, Handler> h; return h; }
std::map<std::string, CDMReader_p> R;
std::string scratch = ".";

CDMReader_p rd(const J& c, const char* key)
{
    auto it = R.find(c[key].str());
    if (it == R.end() || !it->second) throw std::runtime_error("no-reader");
    return it->second;
}

std::string tmpfile_(const std::string& suffix)
{
    static int n = 0;
    return scratch + "/t" + std::to_string(n++) + suffix;
}

int main(int argc, char* argv[])
{
    if (argc > 1) scratch = argv[1];
    if (!getenv("FX_LOG")) defaultLogLevel(Logger::OFF);
    // the protocol has its own descriptor, whatever the library prints goes to stderr
    FILE* proto = fdopen(dup(1), "w");
    dup2(2, 1);
    if (!getenv("FX_NOLIMIT")) {
        struct rlimit rl;
        rl.rlim_cur = rl.rlim_max = 4ul << 30;
        setrlimit(RLIMIT_AS, &rl);
    }
    std::string line;
    std::ios::sync_with_stdio(false);
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        J c = J::parse(line);
        J o;
        auto it = handlers().find(c["op"].str());
        if (it == handlers().end()) { std::cerr << "harness: unknown op " << c["op"].str() << std::endl; return 3; }
        alarm(25); // a call that does not come back ends the process
        try {
            o = it->second(c);
            if (!o.has("st")) o.set("st", "ok");
        } catch (std::exception& ex) {
            o = J::obj();
            o.set("st", "err");
            if (getenv("FX_WHY")) std::cerr << c["op"].str() << ": " << ex.what() << std::endl;
            if (std::string(ex.what()).compare(0, 8, "harness:") == 0) { std::cerr << ex.what() << " in " << line.substr(0, 300) << std::endl; return 3; }
        }
        alarm(0);
        if (fxi::on && fxi::heldNow()) o.set("locksLeft", fxi::heldNow());
        const std::string out = o.dump() + "\n";
        fwrite(out.data(), 1, out.size(), proto);
        fflush(proto);
    }
    R.clear();
    return 0;
}
