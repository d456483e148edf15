#include <sys/uio.h>
#include "fx.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/XMLInputString.h"
#include "fimex/XMLInputFile.h"

#include <fstream>
#include <sstream>

std::string ncmlDoc(const J& d);
static std::string num(double v)
{
    std::ostringstream o;
    o.precision(12);
    o << v;
    return o.str();
}
static std::string prop(const char* n, const std::string& v) { return v.empty() ? std::string() : std::string(" ") + n + "=\"" + v + "\""; }
static std::string att(const J& a)
{
    std::string x = "<attribute" + prop("name", a["name"].str()) + prop("newname", a["newname"].str());
    const J& v = a["v"];
    if (v.has("t")) {
        x += prop("type", v["t"].str());
        x += " value=\"" + (v["t"].str() == "string" ? v["s"].str() : num(v["m"][0].d() / 1000)) + "\"";
    }
    return x + "/>\n";
}
static std::string config(const J& f)
{
    std::string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<cdm_ncwriter_config>\n<default" + prop("filetype", f["ft"].str());
    if (f.i("comp", -1) >= 0) x += prop("compressionLevel", num(f["comp"].i()));
    if (f.i("auto", 1) == 0) x += prop("autoRemoveUnusedDimension", "false");
    x += "/>\n";
    if (f.has("ncml")) {
        const std::string n = scratch + "/w.ncml";
        std::ofstream(n) << ncmlDoc(f["ncml"]);
        x += "<ncmlConfig filename=\"" + n + "\"/>\n";
    }
    for (auto& a : f["atts"].a) x += att(a);
    for (auto& v : f["vars"].a) {
        x += "<variable" + prop("name", v["name"].str()) + prop("newname", v["newname"].str()) + prop("type", v["type"].str());
        if (v.i("comp", -1) >= 0) x += prop("compressionLevel", num(v["comp"].i()));
        x += ">\n";
        for (auto& a : v["atts"].a) x += att(a);
        for (auto& a : v["rmatts"].a) x += "<remove type=\"attribute\"" + prop("name", a.str()) + "/>\n";
        x += "</variable>\n";
    }
    for (auto& d : f["dims"].a) {
        x += "<dimension" + prop("name", d["name"].str()) + prop("newname", d["newname"].str());
        if (d.i("chunk", 0) > 0) x += prop("chunkSize", num(d["chunk"].i()));
        x += "/>\n";
    }
    for (auto& r : f["rm"].a) x += "<remove" + prop("type", r[0].str()) + prop("name", r[1].str()) + "/>\n";
    return x + "</cdm_ncwriter_config>\n";
}
OP("write")
{
    const std::string f = scratch + "/w-" + c["file"].str();
    if (c["cfg"].o.empty()) CDMFileReaderFactory::createWriter(rd(c, "from"), c["type"].str(), f);
    else if (c.i("cfgfile", 0)) {
        const std::string n = scratch + "/w.xml";
        std::ofstream(n) << config(c["cfg"]);
        CDMFileReaderFactory::createWriter(rd(c, "from"), c["type"].str(), f, n);
    } else CDMFileReaderFactory::createWriter(rd(c, "from"), c["type"].str(), f, XMLInputString(config(c["cfg"]), "fx"));
    return J::obj();
}
OP("open")
{
    for (auto& r : R)
        if (CDMReaderWriter_p w = std::dynamic_pointer_cast<CDMReaderWriter>(r.second)) w->sync();
    R[c["id"].str()] = CDMFileReaderFactory::create(c.str("as", "netcdf"), scratch + "/w-" + c["file"].str());
    return J::obj();
}

// faults: the nth write to a file while armed fails (once, or from then on)
#include <cerrno>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
namespace {
struct Fault { bool armed = false; int n = 0, seen = 0; bool once = false; bool hit = false; } fault, rfault;
bool failing(int fd, Fault& fault)
{
    if (!fault.armed || fd < 3) return false;
    const int k = ++fault.seen;
    if (k == fault.n || (k > fault.n && !fault.once)) {
        fault.hit = true;
        errno = &fault == &rfault ? EIO : ENOSPC;
        return true;
    }
    return false;
}
} // namespace
extern "C" {
ssize_t write(int fd, const void* b, size_t n) { return failing(fd, fault) ? -1 : syscall(SYS_write, fd, b, n); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return failing(fd, fault) ? -1 : syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int n) { return failing(fd, fault) ? -1 : syscall(SYS_writev, fd, v, n); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return failing(fd, fault) ? -1 : syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t read(int fd, void* b, size_t n) { return failing(fd, rfault) ? -1 : syscall(SYS_read, fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return failing(fd, rfault) ? -1 : syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return failing(fd, rfault) ? -1 : syscall(SYS_pread64, fd, b, n, o); }
}
// in a process of its own: the libraries below do not recover from failed writes
static J inChild(std::function<J()> job)
{
    int p[2];
    if (pipe(p) != 0) exit(3);
    const pid_t pid = fork();
    if (pid < 0) exit(3);
    if (pid == 0) {
        close(p[0]);
        J o;
        try {
            o = job();
            o.set("done", 1);
        } catch (std::exception& e) {
            o = J::obj().set("done", 0);
        }
        fault.armed = rfault.armed = false;
        o.set("hit", fault.hit || rfault.hit || (readFault && readsSeen >= readFault) ? 1 : 0);
        const std::string s = o.dump();
        for (size_t k = 0; k < s.size();) {
            const ssize_t n = ::write(p[1], s.data() + k, s.size() - k);
            if (n <= 0) _exit(1);
            k += n;
        }
        _exit(0);
    }
    close(p[1]);
    std::string s;
    char b[4096];
    for (ssize_t n; (n = ::read(p[0], b, sizeof(b))) > 0;) s.append(b, n);
    close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    // a process that dies has not succeeded
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) return J::obj().set("done", 0).set("hit", 1);
    return J::parse(s);
}
OP("writefault")
{
    const std::string f = scratch + "/w-" + c["file"].str();
    CDMReader_p from = rd(c, "from");
    return inChild([&]() {
        fault.n = c["n"].i(), fault.once = c.i("once", 0), fault.armed = c["what"].str() == "write";
        readsSeen = 0, readFault = c["what"].str() == "read" ? c["n"].i() : 0;
        CDMFileReaderFactory::createWriter(from, c["type"].str(), f);
        return J::obj();
    });
}
OP("readfault")
{
    const std::string f = scratch + "/w-" + c["file"].str();
    return inChild([&]() {
        rfault.n = c["n"].i(), rfault.once = c.i("once", 0), rfault.armed = c["at"].str() == "open";
        CDMReader_p r = CDMFileReaderFactory::create("netcdf", f);
        rfault.armed = true;
        return obsData(r->getData(c["var"].str()));
    });
}
