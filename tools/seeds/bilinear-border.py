PROP = "C14"
FILE = "src/interpolation.c"
OLD = '''                    outvalues[z] = (1 - yfrac)*s00 + (yfrac*s10);
                    pos += iy*ix;
'''
NEW = '''                    outvalues[z] = (1 - yfrac)*s00 + (yfrac*s10);
                    pos += ix;
'''
NEEDS = "bilinear interpolation of a field with several levels at a point within half a cell outside the first or last column"
BREAKS = "levels above the first are taken from the next rows of the first level"
INC = ["fimex/interpolation.h"]
DEMO = r'''
    float in[18], out[2];
    for (int i = 0; i < 18; ++i) in[i] = i * i;
    mifi_get_values_bilinear_f(in, out, 2.25, 0.5, 3, 3, 2);
    expect("last column", V(out, out + 2), {(4 + 25) / 2., (121 + 196) / 2.}, 1e-4);
    mifi_get_values_bilinear_f(in, out, 0.5, 0.5, 3, 3, 2);
    expect("inside", V(out, out + 2), {(0 + 1 + 9 + 16) / 4., (81 + 100 + 144 + 169) / 4.}, 1e-4);
'''
