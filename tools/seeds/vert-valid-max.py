PROP = "C17"
FILE = "src/CDMVerticalInterpolator.cc"
OLD = "    if (!std::isnan(valid_max)) {"
NEW = "    if (!std::isnan(valid_max) && std::isnan(valid_min)) {"
NEEDS = "a variable with both valid_min and valid_max, and an extrapolated value above valid_max"
BREAKS = "the result exceeds valid_max"
INC = ["fimex/CDMVerticalInterpolator.h", "fimex/vertical_coordinate_transformations.h"]
DEMO = r'''
    auto r = std::make_shared<Reader>();
    r->dim("lon", 2).dim("lat", 2).dim("p", 2);
    r->var("lon", CDM_DOUBLE, {"lon"}, {0, 1}).att("lon", "units", "degrees_east").att("lon", "standard_name", "longitude");
    r->var("lat", CDM_DOUBLE, {"lat"}, {10, 11}).att("lat", "units", "degrees_north").att("lat", "standard_name", "latitude");
    r->var("p", CDM_DOUBLE, {"p"}, {100, 200}).att("p", "units", "hPa").att("p", "standard_name", "air_pressure").att("p", "axis", "Z");
    r->var("rh", CDM_FLOAT, {"lon", "lat", "p"}, {80, 80, 80, 80, 90, 95, 98, 99}).att("rh", "valid_min", CDM_FLOAT, 0).att("rh", "valid_max", CDM_FLOAT, 100);
    auto v = std::make_shared<CDMVerticalInterpolator>(r, "pressure", "linear");
    v->interpolateToFixed({400});
    expect("rh", values(v->getData("rh")), {100, 100, 100, 100});
'''
