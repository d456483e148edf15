// the C interface; every call is made the way a C program makes it
#include "fx.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/c_fimex.h"
#include "fimex/mifi_cdm_reader.h"

#include <cstdlib>
#include <fstream>

std::string ncmlDoc(const J& d);
namespace {
struct Failed : std::runtime_error { Failed(const std::string& w) : std::runtime_error(w) {} };
struct H { // a handle, freed after use
    mifi_cdm_reader* h;
    explicit H(mifi_cdm_reader* p) : h(p) { if (!h) throw Failed("no reader"); }
    ~H() { mifi_free_cdm_reader(h); }
    operator mifi_cdm_reader*() { return h; }
};
mifi_cdm_reader* wrap(const J& c, const char* k) { return new mifi_cdm_reader(rd(c, k)); }
void check(int rc) { if (rc != 0) throw Failed("rc"); }
struct SB {
    mifi_slicebuilder* s;
    SB(mifi_cdm_reader* r, const J& c) : s(mifi_new_slicebuilder(r, c["var"].str().c_str()))
    {
        if (!s) throw Failed("no slicebuilder");
        for (auto& e : c["sl"].o) {
            if (mifi_slicebuilder_set_dim_start_size(s, e.first.c_str(), e.second[0].i(), e.second[1].i()) != 0) {
                mifi_free_slicebuilder(s);
                throw Failed("slice");
            }
        }
    }
    ~SB() { mifi_free_slicebuilder(s); }
    size_t size() const
    {
        const int n = mifi_slicebuilder_ndims(s);
        std::vector<unsigned> a(n + 1), b(n + 1);
        check(mifi_slicebuilder_get_start_size(s, a.data(), b.data()));
        size_t z = 1;
        for (int i = 0; i < n; ++i) z *= b[i];
        return z;
    }
};
J milli(const double* d, size_t n)
{
    J a = J::arr();
    for (size_t i = 0; i < n; ++i) a.push(enc(d[i], 1000, false));
    return J::obj().set("t", "double").set("d", a);
}
int twice(mifi_cdm_reader*, const char*, size_t, double* d, size_t n)
{
    for (size_t i = 0; i < n; ++i) d[i] = 2 * d[i] + 1;
    return 0;
}
int fails(mifi_cdm_reader*, const char*, size_t, double*, size_t) { return 7; }
// nests: asks the reader it is called for about another variable
int sizes(mifi_cdm_reader* r, const char* v, size_t, double* d, size_t n)
{
    const size_t k = mifi_get_variable_number(r);
    for (size_t i = 0; i < n; ++i) d[i] = double(k);
    return 0;
}
std::string own(const char* p)
{
    std::string s = p ? p : "(null)";
    free(const_cast<char*>(p));
    return s;
}
J call(const J& c)
{
    const std::string f = c["f"].str();
    for (const char* k : {"from", "id"})
        if (c.has(k) && (f == "set" || f == "desc" || f == "read" || f == "put" || f == "slice" || k[0] == 'f') && !R.count(c[k].str())) throw Failed("no reader");
    if (f == "open") {
        const std::string file = scratch + "/w-" + c["file"].str(), t = c["type"].str();
        H h(mifi_new_io_reader(t.c_str(), file.c_str(), ""));
        R[c["id"].str()] = h.h->reader_;
        return J::obj();
    }
    if (f == "ncml") {
        H from(wrap(c, "from"));
        const std::string n = scratch + "/c.ncml";
        std::ofstream(n) << ncmlDoc(c["doc"]);
        R.erase(c["id"].str());
        H h(mifi_new_ncml_modifier(from, n.c_str()));
        R[c["id"].str()] = h.h->reader_;
        return J::obj();
    }
    if (f == "write") {
        H from(wrap(c, "from"));
        const std::string file = scratch + "/w-" + c["file"].str();
        check(mifi_writer(from, c["type"].str().c_str(), file.c_str(), c.i("null", 0) ? 0 : ""));
        return J::obj();
    }
    if (f == "callback") {
        H from(wrap(c, "from"));
        H h(mifi_new_c_reader(from));
        R[c["id"].str()] = h.h->reader_;
        return J::obj();
    }
    if (f == "set") {
        H h(wrap(c, "id"));
        const std::string w = c["what"].str();
        check(mifi_set_callback_double(h, c["var"].str().c_str(), w == "twice" ? twice : w == "sizes" ? sizes : fails));
        return J::obj();
    }
    H h(wrap(c, "id"));
    if (f == "desc") {
        J v = J::obj(), d = J::obj();
        const size_t nv = mifi_get_variable_number(h), nd = mifi_get_dimension_number(h);
        for (size_t i = 0; i < nv; ++i) {
            const char* n = mifi_get_variable_name(h, i);
            if (!n) throw Failed("name");
            v.set(n, dtypeName(CDMDataType(mifi_get_variable_type(h, n))));
        }
        for (size_t i = 0; i < nd; ++i) {
            const char* n = mifi_get_dimension_name(h, i);
            if (!n) throw Failed("name");
            d.set(n, double(mifi_get_dimension_size(h, n)));
        }
        return J::obj().set("nv", double(nv)).set("nd", double(nd)).set("v", v).set("d", d).set("u", std::string(mifi_get_unlimited_dimension_name(h)))
            .set("none", double(mifi_get_dimension_size(h, "none")));
    }
    const std::string v = c["var"].str();
    if (f == "read") {
        if (c.has("sl")) {
            SB sb(h, c);
            const size_t n = sb.size();
            std::vector<double> b(n + 4, 4711);
            size_t got = 999999;
            check(mifi_fill_scaled_double_dataslice(h, v.c_str(), sb.s, c.str("unit", "").c_str(), b.data(), &got));
            if (got != n) throw Failed("size");
            for (size_t i = n; i < b.size(); ++i) if (b[i] != 4711) return J::obj().set("overrun", 1);
            return milli(b.data(), n);
        }
        double* d = 0;
        size_t n = 0;
        check(c.has("pos") ? mifi_get_double_dataslice(h, v.c_str(), c["pos"].i(), &d, &n) : mifi_get_double_data(h, v.c_str(), &d, &n));
        J o = milli(d, n);
        free(d);
        return o;
    }
    if (f == "put") {
        SB sb(h, c);
        std::vector<double> b;
        for (auto& e : c["d"].a) {
            const double q = dec(e.d());
            b.push_back(q == q ? q / 1000 : q);
        }
        check(mifi_write_scaled_double_dataslice(h, v.c_str(), sb.s, c.str("unit", "").c_str(), b.data(), b.size()));
        return J::obj();
    }
    if (f == "slice") {
        SB sb(h, c);
        const int n = mifi_slicebuilder_ndims(sb.s);
        std::vector<unsigned> a(n + 1, 77), b(n + 1, 77);
        check(mifi_slicebuilder_get_start_size(sb.s, a.data(), b.data()));
        J l = J::arr();
        for (int i = 0; i < n; ++i) {
            const std::string nm = own(mifi_slicebuilder_dimname(sb.s, i));
            // the copying variant: enough room, exactly enough, too little
            for (int room : {20, int(nm.size()) + 1, int(nm.size())}) {
                std::vector<char> x(room + 2, '#');
                const int k = mifi_slicebuilder_dimname_cpy(sb.s, i, x.data(), room);
                const bool fits = room > int(nm.size());
                if (k != (fits ? int(nm.size()) + 1 : 0) || x[room] != '#' || (fits && nm != x.data())) throw Failed("copy");
            }
            l.push(J::arr().push(nm).push(double(a[i])).push(double(b[i])));
        }
        const std::string beyond = own(mifi_slicebuilder_dimname(sb.s, n));
        return J::obj().set("l", l).set("beyond", beyond);
    }
    throw std::runtime_error("unknown C call");
}
} // namespace
OP("capi")
{
    // failures are reported by return values; anything thrown would end a C program
    try {
        return call(c);
    } catch (Failed&) {
        throw std::runtime_error("failed");
    } catch (std::exception& e) {
        return J::obj().set("escaped", 1).set("what", std::string(e.what()));
    }
}
