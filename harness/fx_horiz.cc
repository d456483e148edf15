#include "fx.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/interpolation.h"

static int method(const std::string& m)
{
    const int i = mifi_string_to_interpolation_method(m.c_str());
    if (i == MIFI_INTERPOL_UNKNOWN) throw std::runtime_error("harness: method " + m);
    return i;
}
static std::vector<double> vec(const J& a, double q)
{
    std::vector<double> v;
    for (auto& x : a.a) v.push_back(x.d() / q);
    return v;
}
OP("p2p")
{
    std::vector<double> axis = vec(c["axis"], 1), p;
    const double q = c["q"].d(), r = c["r"].d();
    for (auto& x : c["pts"].a) p.push_back(x.d() == V_NAN ? dec(x.d()) : x.d() / q);
    const std::string t = c["type"].str();
    mifi_points2position(p.data(), p.size(), axis.data(), axis.size(), t == "lon" ? MIFI_LONGITUDE : t == "lat" ? MIFI_LATITUDE : MIFI_PROJ_AXIS);
    J o = J::obj(), d = J::arr();
    for (double x : p) d.push(enc(x, r, false));
    o.set("d", d);
    return o;
}
OP("hval")
{
    const int nx = c["nx"].i(), ny = c["ny"].i(), nz = c["nz"].i();
    const double q = c["q"].d();
    const std::string m = c["m"].str();
    std::vector<float> f, out(nz, 77);
    for (auto& x : c["d"].a) f.push_back(dec(x.d()));
    double den = 1;
    const double x = c["x"].d() / q, y = c["y"].d() / q;
    // exact size on the heap, so that a sanitizer sees reads outside
    std::unique_ptr<float[]> in(new float[f.size()]);
    std::copy(f.begin(), f.end(), in.get());
    if (m == "nearestneighbor") mifi_get_values_f(in.get(), out.data(), x, y, nx, ny, nz);
    else if (m == "bilinear") { mifi_get_values_bilinear_f(in.get(), out.data(), x, y, nx, ny, nz); den = q * q; }
    else { mifi_get_values_bicubic_f(in.get(), out.data(), x, y, nx, ny, nz); den = 4 * q * q * q * q * q * q; }
    J o = J::obj(), d = J::arr();
    for (float v : out) d.push(enc(v, den, true));
    o.set("d", d);
    return o;
}
OP("interp")
{
    auto i = std::make_shared<CDMInterpolator>(rd(c, "from"));
    if (c.has("pre")) {
        for (auto& x : c["pre"].a) i->addPreprocess(std::make_shared<InterpolatorCreepFillVal2d>(0, 1, x.d()));
        for (auto& x : c["post"].a) i->addPostprocess(std::make_shared<InterpolatorCreepFillVal2d>(0, 1, x.d()));
    }
    R[c["id"].str()] = i;
    return J::obj();
}
static std::shared_ptr<CDMInterpolator> ip(const J& c) { return std::dynamic_pointer_cast<CDMInterpolator>(rd(c)); }
OP("interpto")
{
    const double q = c["q"].d();
    ip(c)->changeProjection(method(c["m"].str()), c["proj"].str(), vec(c["xs"], q), vec(c["ys"], q), c["xu"].str(), c["yu"].str(), dtype(c["xt"].str()), dtype(c["yt"].str()));
    return J::obj();
}
OP("interppts")
{
    const double q = c["q"].d();
    if (c.has("tmpl")) ip(c)->changeProjection(method(c["m"].str()), rd(c, "tmpl"), c["ref"].str());
    else ip(c)->changeProjection(method(c["m"].str()), vec(c["lon"], q), vec(c["lat"], q));
    return J::obj();
}
