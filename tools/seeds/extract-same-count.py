PROP = "C03"
FILE = "src/CDMExtractor.cc"
OLD = '''    // keep track of changes
    dim.setLength(slices.size());
'''
NEW = '''    // keep track of changes, if there are any
    if (dim.getLength() == slices.size())
        return;
    dim.setLength(slices.size());
'''
NEEDS = "a second selection on the same dimension, with as many positions as the first one"
BREAKS = "the second selection is taken for a selection of everything and ignored"
INC = ["fimex/CDMExtractor.h"]
DEMO = r'''
    auto r = std::make_shared<Reader>();
    r->dim("x", 5).dim("y", 2).var("v", CDM_INT, {"x", "y"}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9});
    auto e = std::make_shared<CDMExtractor>(r);
    e->reduceDimension("x", std::set<size_t>{0, 1, 2, 3, 4});
    expect("all", values(e->getData("v")), {0, 1, 2, 3, 4, 5, 6, 7, 8, 9});
    e->reduceDimension("x", std::set<size_t>{0, 2});
    expect("first", values(e->getData("v")), {0, 2, 5, 7});
    e->reduceDimension("x", std::set<size_t>{1, 4});
    expect("second", values(e->getData("v")), {1, 4, 6, 9});
'''
