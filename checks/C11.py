import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C11")
exe = c.build("asan", ["filters.cpp"])
c.run(exe, c.n(24000, 600000), mode="c11", cpu=60)
for k, n in [("streams decoded", 20000), ("pieces decoded", 4000), ("late change", 1500)] + [("filter " + f, 5000) for f in ("ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "LZWDecode", "FlateDecode")] + [("predictor %d" % p, 300) for p in (1, 2, 10, 11, 12, 13, 14, 15)] + [("bits %d" % b, 500) for b in (1, 2, 4, 8, 16)]: c.need(k, n)
c.finish("data encoded by the harness's own encoders with every freedom of the standard (white space, odd digits, z groups, run splits, early and late code change, clears, zlib parameters, predictors of every pixel size), wrapped in files with "
         "direct and indirect Filter / DecodeParms entries or fed in pieces to the decode stream; the decoded bytes are compared with the data; distinct = different filter and parameter combinations")
