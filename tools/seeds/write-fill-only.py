PROP = "C12"
FILE = "src/io/netcdf/NetCDF_CDMWriter.cc"
OLD = "(newType != oldType || newUnit != oldUnit || oldFill != newFill || oldScale != newScale || oldOffset != newOffset)) {"
NEW = "(newType != oldType || newUnit != oldUnit || oldScale != newScale || oldOffset != newOffset)) {"
NEEDS = "a writer configuration that changes only the _FillValue of a variable with missing values"
BREAKS = "the file announces the new fill value but holds the old one, so missing values become values"
INC = ["fimex/CDMFileReaderFactory.h", "fimex/XMLInputString.h"]
DEMO = r'''
    char dir[] = "/tmp/demoXXXXXX";
    if (!mkdtemp(dir)) return 2;
    const std::string f = std::string(dir) + "/a.nc", g = std::string(dir) + "/c.xml";
    auto r = std::make_shared<Reader>();
    r->dim("x", 3).var("v", CDM_INT, {"x"}, {1, -5, 3}).att("v", "_FillValue", CDM_INT, -5);
    FILE* o = fopen(g.c_str(), "w");
    fputs("<cdm_ncwriter_config><variable name=\"v\"><attribute name=\"_FillValue\" value=\"-99\" type=\"int\"/></variable></cdm_ncwriter_config>", o);
    fclose(o);
    CDMFileReaderFactory::createWriter(r, "netcdf4", f, g);
    {
        auto i = CDMFileReaderFactory::create("netcdf", f);
        expect("raw", values(i->getData("v")), {1, -99, 3});
        expect("scaled", values(i->getScaledData("v")), {1, NaN, 3});
    }
    unlink(f.c_str());
    unlink(g.c_str());
    rmdir(dir);
'''
