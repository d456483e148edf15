PROP = "C28"
FILE = "src/XMLUtils.cc"
OLD = 'input.find_first_of("&<>\\"\'")'
NEW = 'input.find_first_of("&<>")'
NEEDS = "an attribute text with a double quote and none of & < >"
BREAKS = "the NcML document cannot be read, or the text is cut"
INC = ["fimex/CDMFileReaderFactory.h", "fimex/NcmlCDMWriter.h"]
DEMO = r'''
    char d[] = "/tmp/ncmldemoXXXXXX";
    if (!mkdtemp(d)) return 2;
    const std::string f = std::string(d) + "/a.ncml";
    auto r = std::make_shared<Reader>(true);
    r->dim("x", 2).var("p", CDM_INT, {"x"}, {1, 2}).att("p", "long_name", "the \"best\" one");
    NcmlCDMWriter(r, f);
    std::string got;
    try {
        auto n = CDMFileReaderFactory::create("ncml", f);
        got = n->getCDM().getAttribute("p", "long_name").getStringValue();
    } catch (std::exception& e) {
        got = e.what();
    }
    unlink(f.c_str()), rmdir(d);
    expectTrue("text", got == "the \"best\" one");
'''
