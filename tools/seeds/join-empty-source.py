PROP = "C05"
FILE = "src/AggregationReader.cc"
OLD = '''            if (cdm_->getDimension(dim).getLength() != rCdm.getDimension(dim).getLength()) {
                return false;
            }
        }
    }

    return true;
}

bool AggregationReader::checkJoinNewDims('''
NEW = '''            if (cdm_->getDimension(dim).getLength() > rCdm.getDimension(dim).getLength()) {
                return false;
            }
        }
    }

    return true;
}

bool AggregationReader::checkJoinNewDims('''
NEEDS = "a later source in which a non-joined dimension of a joined variable is longer than in the first source"
BREAKS = "its data are accepted instead of being replaced by fill values: positions get slices of another size"
INC = ["fimex/AggregationReader.h"]
DEMO = r'''
    AggregationReader a("joinExisting");
    for (int k = 0; k < 2; ++k) {
        auto r = std::make_shared<Reader>();
        const int nx = 2 + k;
        r->dim("x", nx).dim("t", 1, true).var("v", CDM_INT, {"x", "t"}, V(nx, 10. * k + 1)).att("v", "_FillValue", CDM_INT, 99);
        a.addReader(r, "r" + std::to_string(k), "");
    }
    a.initAggregation();
    expect("v at 0", values(a.getDataSlice("v", 0)), {1, 1});
    expect("v at 1", values(a.getDataSlice("v", 1)), {99, 99});
'''
