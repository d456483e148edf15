PROP = "C11"
FILE = "src/FillWriter.cc"
OLD = "if (changes > 0 || (iDim.getLength() != oDimsIt->getLength())) {"
NEW = "if (changes > 0 || (iDim.getLength() > oDimsIt->getLength())) {"
NEEDS = "filling from a dataset whose dimension has just the first values of the file's"
BREAKS = "the values are not written where they belong (or an error is raised)"
INC = ["fimex/CDMFileReaderFactory.h", "fimex/FillWriter.h"]
DEMO = r'''
    auto mkr = [](const V& x, const V& p) {
        auto r = std::make_shared<Reader>(true);
        r->dim("x", x.size()).dim("y", 2);
        r->var("x", CDM_DOUBLE, {"x"}, x).var("y", CDM_DOUBLE, {"y"}, {1, 2}).var("p", CDM_DOUBLE, {"x", "y"}, p);
        return r;
    };
    CDMFileReaderFactory::createWriter(mkr({1, 2, 3}, {0, 0, 0, 0, 0, 0}), "netcdf4", "o.nc");
    try {
        auto io = CDMFileReaderFactory::createReaderWriter("netcdf", "o.nc");
        FillWriter fw(mkr({1, 2}, {5, 6, 7, 8}), io);
        io->sync();
    } catch (std::exception& e) {
        expectTrue(e.what(), false);
    }
    expect("p", values(CDMFileReaderFactory::create("netcdf", "o.nc")->getData("p")), {5, 6, 0, 7, 8, 0});
'''
