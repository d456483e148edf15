// changing files in place, and filling one file with the data of another
#include "fx.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/FillWriter.h"

#include <fstream>
#include <sstream>

static CDMReaderWriter_p rw(const J& c)
{
    CDMReaderWriter_p r = std::dynamic_pointer_cast<CDMReaderWriter>(rd(c));
    if (!r) throw std::runtime_error("no reader-writer");
    return r;
}
OP("rw")
{
    const std::string f = scratch + "/w-" + c["file"].str();
    R[c["id"].str()] = CDMFileReaderFactory::createReaderWriter("netcdf+rw", f);
    return J::obj();
}
OP("sync")
{
    rw(c)->sync();
    return J::obj();
}
OP("put")
{
    CDMReaderWriter_p r = rw(c);
    const std::string v = c["var"].str(), mode = c["mode"].str();
    DataPtr d;
    if (mode == "raw") d = mkData(dtype(c["t"].str()), c["d"]);
    else {
        std::vector<double> x;
        for (auto& e : c["d"].a) {
            const double q = dec(e.d());
            x.push_back(q == q ? q / 1000 : q);
        }
        d = createData(CDM_DOUBLE, x.begin(), x.end());
    }
    if (c.has("pos")) {
        const size_t p = c["pos"].i();
        if (mode == "raw") r->putDataSlice(v, p, d);
        else if (mode == "scaled") r->putScaledDataSlice(v, p, d);
        else r->putScaledDataSliceInUnit(v, c["unit"].str(), p, d);
    } else {
        SliceBuilder sb(r->getCDM(), v, true);
        for (auto& s : c["sl"].o) sb.setStartAndSize(s.first, s.second[0].i(), s.second[1].i());
        if (mode == "raw") r->putDataSlice(v, sb, d);
        else if (mode == "scaled") r->putScaledDataSlice(v, sb, d);
        else r->putScaledDataSliceInUnit(v, c["unit"].str(), sb, d);
    }
    return J::obj();
}
static std::string list(const J& l)
{
    std::string s;
    for (auto& e : l.a) s += (s.empty() ? "" : ",") + std::to_string((int)e.i());
    return s;
}
OP("fill")
{
    CDMReaderWriter_p io = rw(c);
    std::string cfg;
    if (!c["tr"].a.empty()) {
        cfg = scratch + "/fill.xml";
        std::ofstream o(cfg);
        o << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<cdmFillWriter xmlns=\"http://www.met.no/schema/fimex/cdmFillWriterConfig\">\n";
        for (auto& t : c["tr"].a)
            o << "<translate inputDimension=\"" << t["i"].str() << "\" inputSlices=\"" << list(t["is"]) << "\" outputDimension=\"" << t["o"].str()
              << "\" outputSlices=\"" << list(t["os"]) << "\"/>\n";
        o << "</cdmFillWriter>\n";
    }
    FillWriter(rd(c, "from"), io, cfg);
    return J::obj();
}
