PROP = "C15"
FILE = "src/CachedForwardInterpolation.cc"
OLD = "if (count == 0 || f > val)"
NEW = "if (f > val)"
NEEDS = "forward_max and a target cell whose source values are all negative"
BREAKS = "the maximum of negative values comes out as 0"
INC = ["fimex/CDMInterpolator.h", "fimex/mifi_constants.h"]
DEMO = r'''
    auto r = std::make_shared<Reader>(true);
    r->dim("lon", 4).dim("lat", 2);
    r->var("lon", CDM_DOUBLE, {"lon"}, {0, 1, 2, 3}).att("lon", "units", "degrees_east").att("lon", "standard_name", "longitude");
    r->var("lat", CDM_DOUBLE, {"lat"}, {10, 11}).att("lat", "units", "degrees_north").att("lat", "standard_name", "latitude");
    r->var("p", CDM_FLOAT, {"lon", "lat"}, {-5, -7, 3, 1, -6, -9, 2, 4});
    auto p = std::make_shared<CDMInterpolator>(r);
    p->changeProjection(MIFI_INTERPOL_FORWARD_MAX, "+proj=longlat +datum=WGS84 +no_defs", V{0.5, 2.5}, V{10.5, 20}, "degrees_east", "degrees_north");
    V v = values(p->getData("p"));
    expect("cells", V(v.begin(), v.begin() + 2), {-5, 4});
'''
