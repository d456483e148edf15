PROP = "C23"
FILE = "src/coordSys/CoordinateSystem.cc"
OLD = "{CoordinateAxis::GeoZ, CoordinateAxis::Height,CoordinateAxis::Depth,CoordinateAxis::Pressure});"
NEW = "{CoordinateAxis::GeoZ, CoordinateAxis::Height,CoordinateAxis::Pressure});"
NEEDS = "a vertical axis recognised as depth (an ocean dataset)"
BREAKS = "the coordinate system reports no vertical axis"
INC = ["fimex/coordSys/CoordinateSystem.h", "fimex/coordSys/CoordinateAxis.h"]
DEMO = r'''
    auto r = std::make_shared<Reader>(true);
    r->dim("lon", 2).dim("lat", 2).dim("depth", 3);
    r->var("lon", CDM_DOUBLE, {"lon"}, {1, 2}).att("lon", "units", "degrees_east").att("lon", "standard_name", "longitude");
    r->var("lat", CDM_DOUBLE, {"lat"}, {1, 2}).att("lat", "units", "degrees_north").att("lat", "standard_name", "latitude");
    r->var("depth", CDM_DOUBLE, {"depth"}, {0, 10, 20}).att("depth", "units", "m").att("depth", "standard_name", "depth").att("depth", "positive", "down");
    r->var("v", CDM_FLOAT, {"lon", "lat", "depth"}, V(12, 1.));
    bool found = false;
    for (auto& cs : listCoordinateSystems(r))
        if (cs->isComplete("v")) found = cs->getGeoZAxis() && cs->getGeoZAxis()->getName() == "depth";
    expectTrue("vertical axis of v", found);
'''
