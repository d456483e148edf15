// files: found by pattern, opened by what they are
#include "fx.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/FileUtils.h"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <cstdlib>

static void parents(const std::string& f)
{
    for (size_t p = f.find('/', scratch.size() + 1); p != std::string::npos; p = f.find('/', p + 1)) mkdir(f.substr(0, p).c_str(), 0755);
}
static std::string text(const J& a)
{
    std::string s;
    for (auto& e : a.a) s += (char)e.i();
    return s;
}
OP("glob")
{
    static int n = 0;
    const std::string root = scratch + "/g" + std::to_string(n++);
    mkdir(root.c_str(), 0755);
    for (auto& d : c["dirs"].a) {
        parents(root + "/" + text(d) + "/");
        mkdir((root + "/" + text(d)).c_str(), 0755);
    }
    for (auto& f : c["files"].a) {
        parents(root + "/" + text(f));
        std::ofstream(root + "/" + text(f)) << "x";
    }
    std::vector<std::string> r;
    std::string pre;
    if (c["rel"].i()) {
        char old[4096];
        if (!getcwd(old, sizeof old) || chdir(root.c_str()) != 0) throw std::runtime_error("chdir");
        try { globFiles(r, text(c["g"])); } catch (...) { if (chdir(old)) {} throw; }
        if (chdir(old) != 0) throw std::runtime_error("chdir");
    } else {
        pre = root + "/";
        globFiles(r, pre + text(c["g"]));
    }
    J o = J::obj(), l = J::arr();
    for (auto& s : r) {
        std::string t = s;
        if (!pre.empty() && t.compare(0, pre.size(), pre) == 0) t = t.substr(pre.size());
        while (t.compare(0, 2, "./") == 0) t = t.substr(2);
        J e = J::arr();
        for (char ch : t) e.push((double)(unsigned char)ch);
        l.push(e);
    }
    o.set("r", l);
    if (system(("rm -rf '" + root + "'").c_str())) {}
    return o;
}
static std::string path(const J& c) { return scratch + "/w-" + c["file"].str(); }
OP("save")
{
    parents(path(c));
    unlink(path(c).c_str());
    CDMFileReaderFactory::createWriter(rd(c, "from"), c["type"].str(), path(c));
    return J::obj();
}
OP("putfile")
{
    parents(path(c));
    unlink(path(c).c_str());
    std::ofstream f(path(c));
    if (c["kind"].str() == "ncml")
        f << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\" location=\"" << scratch << "/w-" << c["ref"].str() << "\"/>\n";
    else
        for (long i = 0; i < c["n"].i(); ++i) f << (char)('A' + i % 7);
    return J::obj();
}
OP("detect")
{
    R.erase(c["id"].str());
    R[c["id"].str()] = CDMFileReaderFactory::create(c["type"].str(), (c["url"].i() ? "file:" : "") + path(c));
    return J::obj();
}
OP("globopen")
{
    R.erase(c["id"].str());
    R[c["id"].str()] = CDMFileReaderFactory::create(c["type"].str(), "glob:" + scratch + "/w-" + c["g"].str());
    return J::obj();
}
