PROP = "C09"
FILE = "src/CDMQualityExtractor.cc"
OLD = '''                if (cdmS.getAttribute(statusVar, "valid_range", attr)) {
                    minFlag = attr.getData()->asDouble()[0];
                    maxFlag = attr.getData()->asDouble()[1];
                }
                if (!std::isnan(minFlag)) {
                    double* sdIt = &sd[0];
                    while (sdIt != &sd[sizeS]) {
                        if (*sdIt < minFlag) {'''
NEW = '''                if (cdmS.getAttribute(statusVar, "valid_range", attr)) {
                    minFlag = attr.getData()->asDouble()[0];
                    maxFlag = attr.getData()->asDouble()[1];
                }
                if (!std::isnan(minFlag) && minFlag < maxFlag) {
                    double* sdIt = &sd[0];
                    while (sdIt != &sd[sizeS]) {
                        if (*sdIt < minFlag) {'''
NEEDS = "a status variable with valid_min only (no valid_max or valid_range), and status values below it"
BREAKS = "values whose status is below the valid minimum are passed on"
INC = ["fimex/CDMQualityExtractor.h", "fimex/XMLInputString.h"]
DEMO = r'''
    auto r = std::make_shared<Reader>();
    r->dim("x", 3).var("v", CDM_DOUBLE, {"x"}, {1, 2, 3}).att("v", "_FillValue", CDM_DOUBLE, -9).var("s", CDM_INT, {"x"}, {0, 5, 9}).att("s", "valid_min", CDM_INT, 5);
    char dir[] = "/tmp/demoXXXXXX";
    if (!mkdtemp(dir)) return 2;
    const std::string g = std::string(dir) + "/q.xml";
    FILE* o = fopen(g.c_str(), "w");
    fputs("<cdmQualityConfig><variable name=\"v\"><status_flag_variable name=\"s\"><allowed_values use=\"all\"/></status_flag_variable></variable></cdmQualityConfig>", o);
    fclose(o);
    auto q = std::make_shared<CDMQualityExtractor>(r, "", g);
    expect("v", values(q->getData("v")), {-9, 2, 3});
    unlink(g.c_str());
    rmdir(dir);
'''
