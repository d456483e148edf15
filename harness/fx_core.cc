#include "fx.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMDataType.h"
#include "fimex/CDMException.h"
#include "fimex/CDMExtractor.h"
#include "fimex/Data.h"
#include "fimex/MathUtils.h"

#include <algorithm>
#include <cmath>
#include <limits>

double enc(double v, double scale, bool exact)
{
    if (std::isnan(v)) return V_NAN;
    if (std::isinf(v)) return V_INF;
    const double x = v * scale;
    if (std::fabs(x) > 1.9e9) return V_BIG;
    const double r = std::nearbyint(x);
    if (exact && r != x) return V_FRAC;
    return r == 0 ? 0 : r;
}
double dec(double c)
{
    if (c == V_NAN) return std::numeric_limits<double>::quiet_NaN();
    if (c == V_INF) return std::numeric_limits<double>::infinity();
    return c;
}
static const struct { const char* n; CDMDataType t; } TYPES[] = {
    {"nat", CDM_NAT}, {"char", CDM_CHAR}, {"short", CDM_SHORT}, {"int", CDM_INT}, {"float", CDM_FLOAT}, {"double", CDM_DOUBLE}, {"string", CDM_STRING},
    {"uchar", CDM_UCHAR}, {"ushort", CDM_USHORT}, {"uint", CDM_UINT}, {"int64", CDM_INT64}, {"uint64", CDM_UINT64}, {"strings", CDM_STRINGS}};
CDMDataType dtype(const std::string& n)
{
    for (auto& t : TYPES) if (n == t.n) return t.t;
    throw std::runtime_error("harness: unknown type " + n);
}
std::string dtypeName(CDMDataType t)
{
    for (auto& x : TYPES) if (x.t == t) return x.n;
    return "?";
}
J encData(DataPtr d, double scale, bool exact)
{
    J a = J::arr();
    if (!d) return a;
    const size_t n = d->size();
    auto v = d->asDouble();
    for (size_t i = 0; i < n; ++i) a.push(enc(v[i], scale, exact));
    return a;
}
J obsData(DataPtr d, double scale, bool exact)
{
    J o = J::obj();
    if (!d) { o.set("st", "err"); return o; } // no data is no answer
    if (d->getDataType() == CDM_STRINGS) {
        J a = J::arr();
        auto v = d->asStrings();
        for (size_t i = 0; i < d->size(); ++i) a.push(v[i]);
        o.set("t", "strings").set("d", a);
        return o;
    }
    if (d->getDataType() == CDM_STRING) {
        o.set("t", "string").set("d", J::arr()).set("s", d->asString());
        return o;
    }
    o.set("t", dtypeName(d->getDataType()));
    o.set("d", encData(d, scale, exact));
    return o;
}
int readFault = 0, readsSeen = 0;
bool readFails() { return readFault && __atomic_add_fetch(&readsSeen, 1, __ATOMIC_SEQ_CST) == readFault; }
template <class T> static DataPtr mkT(const J& vals)
{
    auto a = make_shared_array<T>(vals.size());
    for (size_t i = 0; i < vals.size(); ++i) a[i] = static_cast<T>(dec(vals[i].d()));
    return createData(vals.size(), a);
}
DataPtr mkData(CDMDataType t, const J& vals)
{
    switch (t) {
    case CDM_CHAR: return mkT<char>(vals);
    case CDM_SHORT: return mkT<short>(vals);
    case CDM_INT: return mkT<int>(vals);
    case CDM_INT64: return mkT<long long>(vals);
    case CDM_UCHAR: return mkT<unsigned char>(vals);
    case CDM_USHORT: return mkT<unsigned short>(vals);
    case CDM_UINT: return mkT<unsigned int>(vals);
    case CDM_UINT64: return mkT<unsigned long long>(vals);
    case CDM_FLOAT: return mkT<float>(vals);
    case CDM_DOUBLE: return mkT<double>(vals);
    case CDM_STRINGS: {
        auto a = make_shared_array<std::string>(vals.size());
        for (size_t i = 0; i < vals.size(); ++i) a[i] = vals[i].str();
        return createData(vals.size(), a);
    }
    default: throw std::runtime_error("harness: data type");
    }
}
// attribute coding: {"t":"string","s":text} or {"t":type,"m":[values in thousandths]}
CDMAttribute mkAttr(const std::string& name, const J& spec)
{
    const std::string t = spec["t"].str();
    if (t == "string") return CDMAttribute(name, spec["s"].str());
    if (t == "strings") return CDMAttribute(name, mkData(CDM_STRINGS, spec["l"]));
    const J& m = spec["m"];
    const CDMDataType dt = dtype(t);
    J v = J::arr();
    for (size_t i = 0; i < m.size(); ++i) {
        const double x = m[i].d();
        v.push((x == V_NAN || x == V_INF) ? x : x / 1000);
    }
    return CDMAttribute(name, mkData(dt, v));
}
J attrSpec(const CDMAttribute& a)
{
    const CDMDataType t = a.getDataType();
    J r = J::obj();
    if (t == CDM_STRINGS) {
        J l = J::arr();
        DataPtr d = a.getData();
        auto v = d->asStrings();
        for (size_t i = 0; i < d->size(); ++i) l.push(v[i]);
        r.set("t", "strings").set("l", l);
        return r;
    }
    if (t == CDM_STRING) {
        r.set("t", "string").set("s", a.getStringValue());
        return r;
    }
    J m = J::arr();
    DataPtr d = a.getData();
    auto v = d->asDouble();
    for (size_t i = 0; i < d->size(); ++i) m.push(enc(v[i], 1000, false));
    r.set("t", dtypeName(t)).set("m", m);
    return r;
}
J describe(const CDM& cdm)
{
    J o = J::obj(), dims = J::obj(), vars = J::obj(), ga = J::obj();
    auto ds = cdm.getDimensions();
    std::sort(ds.begin(), ds.end(), [](const CDMDimension& a, const CDMDimension& b) { return a.getName() < b.getName(); });
    long dup = 0;
    for (auto& d : ds) {
        if (dims.has(d.getName())) ++dup;
        J r = J::obj();
        r.set("len", d.getLength()).set("u", d.isUnlimited() ? 1 : 0);
        dims.o.emplace_back(d.getName(), r);
    }
    std::vector<const CDMVariable*> vs;
    for (auto& v : cdm.getVariables()) vs.push_back(&v);
    std::sort(vs.begin(), vs.end(), [](const CDMVariable* a, const CDMVariable* b) { return a->getName() < b->getName(); });
    auto atts = [&](const std::string& n) {
        J a = J::obj();
        auto av = cdm.getAttributes(n);
        std::sort(av.begin(), av.end(), [](const CDMAttribute& x, const CDMAttribute& y) { return x.getName() < y.getName(); });
        for (auto& x : av) {
            if (a.has(x.getName())) ++dup;
            a.o.emplace_back(x.getName(), attrSpec(x));
        }
        return a;
    };
    for (auto v : vs) {
        if (vars.has(v->getName())) ++dup;
        J r = J::obj(), sh = J::arr();
        for (auto& d : v->getShape()) sh.push(d);
        r.set("t", dtypeName(v->getDataType())).set("sh", sh).set("a", atts(v->getName()));
        vars.o.emplace_back(v->getName(), r);
    }
    o.set("dims", dims).set("vars", vars).set("ga", atts(CDM::globalAttributeNS())).set("dup", dup);
    return o;
}
CDM mkCDM(const J& ds, bool withData, std::map<std::string, DataPtr>* store)
{
    CDM cdm;
    for (auto& d : ds["dims"].o) {
        CDMDimension dim(d.first, d.second["len"].i());
        dim.setUnlimited(d.second["u"].i() != 0);
        cdm.addDimension(dim);
    }
    for (auto& v : ds["vars"].o) {
        std::vector<std::string> sh;
        for (auto& s : v.second["sh"].a) sh.push_back(s.str());
        const CDMDataType t = dtype(v.second["t"].str());
        CDMVariable var(v.first, t, sh);
        DataPtr dp;
        if (v.second.has("s")) dp = createData(v.second["s"].str());
        else if (v.second.has("d")) dp = mkData(t, v.second["d"]);
        if (dp && withData) var.setData(dp);
        if (dp && store) (*store)[v.first] = dp;
        cdm.addVariable(var);
        if (v.second.has("a"))
            for (auto& a : v.second["a"].o) cdm.addAttribute(v.first, mkAttr(a.first, a.second));
    }
    if (ds.has("ga"))
        for (auto& a : ds["ga"].o) cdm.addAttribute(CDM::globalAttributeNS(), mkAttr(a.first, a.second));
    return cdm;
}

namespace {
// data kept in the metadata object
class MemReader : public CDMReader
{
public:
    MemReader(const J& ds) { *cdm_ = mkCDM(ds, true, nullptr); }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& v, size_t p) override { return getDataSliceFromMemory(cdm_->getVariable(v), p); }
};
// data kept outside, delivered as fresh copies, slice by slice along the unlimited dimension
class StoreReader : public CDMReader
{
public:
    std::map<std::string, DataPtr> st;
    StoreReader(const J& ds) { *cdm_ = mkCDM(ds, false, &st); }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& vn, size_t p) override
    {
        const CDMVariable& v = cdm_->getVariable(vn);
        gate();
        if (readFails()) throw CDMException("read failure");
        DataPtr d = st.at(vn);
        if (!cdm_->hasUnlimitedDim(v)) return d->clone();
        const size_t n = cdm_->getUnlimitedDim()->getLength();
        if (p >= n) throw CDMException("slice out of range");
        std::vector<size_t> full, start, size;
        for (auto& s : v.getShape()) {
            const CDMDimension& dim = cdm_->getDimension(s);
            full.push_back(dim.getLength());
            start.push_back(dim.isUnlimited() ? p : 0);
            size.push_back(dim.isUnlimited() ? 1 : dim.getLength());
        }
        // own copy, not Data::slice: this is the harness' reference source
        const size_t nd = full.size();
        size_t tot = 1;
        for (size_t k = 0; k < nd; ++k) tot *= size[k];
        auto all = d->asDouble();
        std::vector<double> out(tot);
        for (size_t i = 0; i < tot; ++i) {
            size_t r = i, off = 0, str = 1;
            for (size_t k = 0; k < nd; ++k) { off += (start[k] + r % size[k]) * str; r /= size[k]; str *= full[k]; }
            out[i] = all[off];
        }
        J a = J::arr();
        for (double x : out) a.push(std::isnan(x) ? V_NAN : x);
        gate();
        return mkData(d->getDataType(), a);
    }
};
} // namespace

CDMReader_p mkSource(const J& ds, const std::string& kind, const std::string& path)
{
    if (kind == "mem") return std::make_shared<MemReader>(ds);
    if (kind == "store") return std::make_shared<StoreReader>(ds);
    // file kinds
    CDMReader_p m = std::make_shared<MemReader>(ds);
    const std::string f = path.empty() ? tmpfile_(".nc") : path;
    CDMFileReaderFactory::createWriter(m, kind, f);
    return CDMFileReaderFactory::create("netcdf", f);
}

void resetCdms();
OP("reset") { R.clear(); resetCdms(); return J::obj(); }
std::map<std::string, std::string> files;
OP("src")
{
    const std::string path = scratch + "/" + c.str("file", "f-" + c["id"].str() + ".nc");
    CDMReader_p r = mkSource(c["ds"], c["kind"].str(), path);
    files[c["id"].str()] = path;
    R[c["id"].str()] = r;
    return J::obj();
}
OP("drop") { R.erase(c["id"].str()); return J::obj(); }
OP("desc")
{
    J o = describe(rd(c)->getCDM());
    if (c.has("names")) { // only these variables
        J v = J::obj();
        for (auto& x : o["vars"].o)
            for (auto& n : c["names"].a)
                if (n.str() == x.first) v.o.push_back(x);
        o.set("vars", v);
    }
    return o;
}

static SliceBuilder mkSB(CDMReader_p r, const J& c)
{
    SliceBuilder sb(r->getCDM(), c["var"].str());
    // "sl": {dim:[start,size]}
    for (auto& s : c["sl"].o) sb.setStartAndSize(s.first, s.second[0].i(), s.second[1].i());
    return sb;
}
J readOne(const J& c)
{
    CDMReader_p r = rd(c);
    const std::string v = c["var"].str(), mode = c.str("mode", "raw");
    const double sc = c.d("scale", 1);
    const bool ex = c.i("exact", 1);
    DataPtr d;
    if (c.has("sl")) {
        SliceBuilder sb = mkSB(r, c);
        if (mode == "raw") d = r->getDataSlice(v, sb);
        else if (mode == "scaled") d = r->getScaledDataSlice(v, sb);
        else d = r->getScaledDataSliceInUnit(v, c["unit"].str(), sb);
    } else if (c.has("pos")) {
        const size_t p = c["pos"].i();
        if (mode == "raw") d = r->getDataSlice(v, p);
        else if (mode == "scaled") d = r->getScaledDataSlice(v, p);
        else d = r->getScaledDataSliceInUnit(v, c["unit"].str(), p);
    } else {
        if (mode == "raw") d = r->getData(v);
        else if (mode == "scaled") d = r->getScaledData(v);
        else d = r->getScaledDataInUnit(v, c["unit"].str());
    }
    J o = obsData(d, sc, ex);
    if (c.has("ty") && o.has("t")) o.set("t", "any"); // the type is not looked at
    return o;
}
OP("read") { return readOne(c); }

// type conversion: values v stand for v*mul, scale and offset in eighths
OP("conv")
{
    const double mul = c.d("mul", 1);
    J v = J::arr();
    for (auto& x : c["d"].a) v.push(x.d() == V_NAN ? x.d() : x.d() * mul);
    DataPtr d = mkData(dtype(c["t"].str()), v);
    DataPtr n = d->convertDataType(c["fill"].d() * mul, c["sf"].d() / 8, c["ao"].d() * mul / 8, dtype(c["nt"].str()), c["nfill"].d() * mul, c["nsf"].d() / 8,
                                   c["nao"].d() * mul / 8);
    return obsData(n, 1 / mul, true);
}
