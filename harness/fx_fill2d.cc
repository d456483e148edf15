// filling of undefined values in a 2d-field
#include "fx.h"
#include "fimex/interpolation.h"
#include <cmath>

OP("fill2d")
{
    const size_t nx = c["nx"].i(), ny = c["ny"].i();
    std::vector<float> f(nx * ny), g;
    for (size_t i = 0; i < f.size(); ++i) f[i] = dec(c["d"][i].n);
    g = f;
    size_t n = 987654;
    int r;
    const std::string k = c["kind"].str();
    if (k == "laplace") r = mifi_fill2d_f(nx, ny, f.data(), 1e-6f, c["cor"].i() / 10.f, c["loops"].i(), &n);
    else if (k == "creep") r = mifi_creepfill2d_f(nx, ny, f.data(), c["repeat"].i(), c["weight"].i(), &n);
    else r = mifi_creepfillval2d_f(nx, ny, f.data(), c["def"].i(), c["repeat"].i(), c["weight"].i(), &n);
    if (r != MIFI_OK) throw CDMException("fill2d");
    J o = J::obj(), d = J::arr();
    long same = 0;
    for (size_t i = 0; i < f.size(); ++i) {
        // thousandths; what was there must be there unchanged, to the bit
        if (!std::isnan(g[i]) && f[i] == g[i]) same++;
        d.push(std::isnan(f[i]) ? V_NAN : std::isfinite(f[i]) && std::fabs(f[i]) < 1e6 ? std::round(double(f[i]) * 1000) : V_BIG);
    }
    o.set("n", (double)n);
    o.set("same", (double)same);
    o.set("d", d);
    return o;
}
