PROP = "C18"
FILE = "src/CDMOverlay.cc"
OLD = "        && cdmT.getAddOffset(varName) == cdmB.getAddOffset(varName))"
NEW = "        && cdmT.getScaleFactor(varName) != 0)"
NEEDS = "an overlay of real variables that have the same unit and scale but another add_offset"
BREAKS = "values of the base come out shifted by the difference of the offsets"
INC = ["fimex/CDMOverlay.h", "fimex/mifi_constants.h"]
DEMO = r'''
    auto mkr = [](double off, const V& p) {
        auto r = std::make_shared<Reader>();
        r->dim("lon", 3).dim("lat", 2);
        r->var("lon", CDM_DOUBLE, {"lon"}, {0, 1, 2}).att("lon", "units", "degrees_east").att("lon", "standard_name", "longitude");
        r->var("lat", CDM_DOUBLE, {"lat"}, {10, 11}).att("lat", "units", "degrees_north").att("lat", "standard_name", "latitude");
        r->var("p", CDM_FLOAT, {"lon", "lat"}, p).att("p", "units", "K").att("p", "add_offset", CDM_DOUBLE, off).att("p", "_FillValue", CDM_FLOAT, -99);
        return r;
    };
    auto base = mkr(100, {1, 2, 3, 4, 5, 6}), top = mkr(50, {7, -99, 8, 9, -99, 10});
    auto o = std::make_shared<CDMOverlay>(base, top, MIFI_INTERPOL_NEAREST_NEIGHBOR);
    expect("overlay", values(o->getScaledData("p")), {57, 102, 58, 59, 105, 60}, 1e-4);
'''
