import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C33")
exe = c.build("asan", ["geom.cpp"])
n = c.n(120000, 4000000)
c.run(exe, n, mode="c33", cpu=60)
for k in ("array round trip", "vector transform", "matrix product", "translated", "translated along x", "rotation", "rotation inverse", "rotation part", "rect round trips", "rect transforms", "frame rotations", "points classified", "rect arrays refused", "colour conversions",
          "colour round trips", "components refused", "hex colours", "gray texts", "named colours"): c.need(k, n // 5)
for k in ("overlapping rects", "disjoint rects", "colour arrays refused", "short arrays refused"): c.need(k, n // 20)
c.need("separation functions", n // 200)
c.finish("random, degenerate and extreme matrices, vectors, rectangles and colours; every operation is recomputed in extended precision from its definition, arrays and texts are read back, values outside the domains must be refused; distinct = different inputs")
