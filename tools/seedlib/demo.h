#pragma once
#include "fimex/CDM.h"
#include "fimex/CDMAttribute.h"
#include "fimex/CDMDimension.h"
#include "fimex/CDMException.h"
#include "fimex/CDMReader.h"
#include "fimex/CDMVariable.h"
#include "fimex/Data.h"
#include "fimex/SliceBuilder.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
using namespace MetNoFimex;
typedef std::vector<double> V;
typedef std::vector<std::string> S;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
static int bad = 0;
inline V values(DataPtr d)
{
    V v;
    if (!d) { v.push_back(-987654); return v; }
    auto a = d->asDouble();
    for (size_t i = 0; i < d->size(); ++i) v.push_back(a[i]);
    return v;
}
inline std::string show(const V& v) { std::string s; for (double x : v) { char b[40]; snprintf(b, 40, "%.9g ", x); s += b; } return s; }
inline void expect(const char* what, const V& got, const V& want, double tol = 0)
{
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < got.size(); ++i)
        ok = (std::isnan(got[i]) && std::isnan(want[i])) || std::fabs(got[i] - want[i]) <= tol;
    if (!ok) { ++bad; std::cout << what << ": got " << show(got) << " expected " << show(want) << std::endl; }
}
inline void expectTrue(const char* what, bool b) { if (!b) { ++bad; std::cout << what << ": failed" << std::endl; } }
template <class F> inline bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
template <class T> inline DataPtr mkd(const V& v)
{
    auto a = make_shared_array<T>(v.size());
    for (size_t i = 0; i < v.size(); ++i) a[i] = static_cast<T>(v[i]);
    return createData(v.size(), a);
}
inline DataPtr mk(CDMDataType t, const V& v)
{
    switch (t) {
    case CDM_CHAR: return mkd<char>(v);
    case CDM_SHORT: return mkd<short>(v);
    case CDM_INT: return mkd<int>(v);
    case CDM_FLOAT: return mkd<float>(v);
    case CDM_UCHAR: return mkd<unsigned char>(v);
    case CDM_INT64: return mkd<long long>(v);
    default: return mkd<double>(v);
    }
}
// a reader on given values; inMemory: data in the CDM, else delivered slice by slice (unlimited dimension slowest)
class Reader : public CDMReader
{
public:
    std::map<std::string, V> st;
    bool mem;
    Reader(bool inMemory = false) : mem(inMemory) {}
    Reader& dim(const std::string& n, long len, bool unlim = false) { CDMDimension d(n, len); d.setUnlimited(unlim); cdm_->addDimension(d); return *this; }
    Reader& var(const std::string& n, CDMDataType t, const S& shape, const V& v)
    {
        CDMVariable x(n, t, shape);
        if (mem) x.setData(mk(t, v));
        cdm_->addVariable(x);
        st[n] = v;
        return *this;
    }
    Reader& att(const std::string& v, const std::string& n, const std::string& val) { cdm_->addAttribute(v, CDMAttribute(n, val)); return *this; }
    Reader& att(const std::string& v, const std::string& n, CDMDataType t, double val) { cdm_->addAttribute(v, CDMAttribute(n, mk(t, V(1, val)))); return *this; }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& vn, size_t p) override
    {
        const CDMVariable& v = cdm_->getVariable(vn);
        if (v.hasData()) return getDataSliceFromMemory(v, p);
        V d = st.at(vn);
        if (cdm_->hasUnlimitedDim(v)) {
            const size_t n = cdm_->getUnlimitedDim()->getLength(), k = d.size() / n;
            if (p >= n) throw CDMException("out of range");
            d = V(d.begin() + p * k, d.begin() + (p + 1) * k);
        }
        return mk(v.getDataType(), d);
    }
};
