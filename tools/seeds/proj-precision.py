PROP = "C27"
FILE = "src/coordSys/ProjectionImpl.cc"
OLD = '''std::setprecision(std::numeric_limits<T>::digits10 + 1) << v'''
NEW = '''std::setprecision(std::numeric_limits<float>::digits10 + 3) << v'''
NEEDS = "a projection parameter with more than nine significant digits, such as a false easting given to centimetres"
BREAKS = "the projection string loses digits, so coordinates shift"
INC = ["fimex/coordSys/Projection.h"]
DEMO = r'''
    auto p = Projection::createByProj4("+proj=stere +lat_0=90 +lon_0=-32 +lat_ts=60 +x_0=1234567.8125 +y_0=7654321.9375 +R=6371000 +no_defs");
    std::vector<double> xs(1, 10), ys(1, 65);
    p->convertFromLonLat(xs, ys);
    auto o = Projection::createByProj4("+proj=stere +lat_0=90 +lon_0=-32 +lat_ts=60 +R=6371000 +no_defs");
    std::vector<double> x0(1, 10), y0(1, 65);
    o->convertFromLonLat(x0, y0);
    expect("offset", {xs[0] - x0[0], ys[0] - y0[0]}, {1234567.8125, 7654321.9375}, 1e-4);
'''
