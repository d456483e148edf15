PROP = "C16"
FILE = "src/CDMInterpolator.cc"
OLD = '''    for (int z = 0; z < nz; z++) { // using int instead of size_t because of openMP < 3.0
        // find the start of the slice
        float* arrayPos = array + (z*nx*ny);
        for (size_t i = 0; i < processes.size(); i++) {
            processes[i]->operator()(arrayPos, nx, ny);
        }
    }'''
NEW = '''    for (int z = 0; z < nz; z++) { // using int instead of size_t because of openMP < 3.0
        // find the start of the slice
        float* arrayPos = array + (z*nx*ny);
        if (!std::isnan(arrayPos[0]) && !std::isnan(arrayPos[nx*ny - 1]) && !std::isnan(arrayPos[nx - 1]))
            continue; // nothing undefined in this slice
        for (size_t i = 0; i < processes.size(); i++) {
            processes[i]->operator()(arrayPos, nx, ny);
        }
    }'''
NEEDS = "a layer with undefined values whose corners are defined, and a fill process before or after the interpolation"
BREAKS = "the undefined values of that layer are not filled"
INC = ["fimex/CDMInterpolator.h", "fimex/interpolation.h"]
DEMO = r'''
    auto r = std::make_shared<Reader>();
    V v;
    for (int z = 0; z < 2; ++z) for (int i = 0; i < 9; ++i) v.push_back((z == 0 && i == 0) || (z == 1 && i == 4) ? -99 : i);
    r->dim("lon", 3).dim("lat", 3).dim("z", 2).var("lon", CDM_DOUBLE, {"lon"}, {10, 11, 12}).var("lat", CDM_DOUBLE, {"lat"}, {50, 51, 52})
        .var("z", CDM_DOUBLE, {"z"}, {1, 2}).var("v", CDM_DOUBLE, {"lon", "lat", "z"}, v).att("v", "_FillValue", CDM_DOUBLE, -99);
    CDM& c = const_cast<CDM&>(r->getCDM());
    c.addAttribute("lon", CDMAttribute("units", "degrees_east"));
    c.addAttribute("lat", CDMAttribute("units", "degrees_north"));
    c.addAttribute("lon", CDMAttribute("standard_name", "longitude"));
    c.addAttribute("lat", CDMAttribute("standard_name", "latitude"));
    auto ip = std::make_shared<CDMInterpolator>(r);
    ip->addPostprocess(std::make_shared<InterpolatorCreepFillVal2d>(0, 1, 77.f));
    ip->changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, "+proj=longlat +datum=WGS84 +no_defs", V{10, 11, 12}, V{50, 51, 52}, "degree", "degree", CDM_DOUBLE, CDM_DOUBLE);
    V w = values(ip->getData("v"));
    expect("size", {double(w.size())}, {18});
    expect("filled", {w[0], w[13]}, {77, 77});
'''
