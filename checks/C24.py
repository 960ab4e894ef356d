import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C24")
exe = c.build("asan", ["fonts.cpp"])
n = c.n(6000, 60000); c.run(exe, n, mode="c24f", cpu=120)
s = c.n(8000, 60000); c.run(exe, s, mode="c24s", cpu=60)
w = c.n(12000, 120000); c.run(exe, w, mode="c24w", cpu=60)
for k, v in [("glyphs compared", 20 * n), ("simple widths compared", 8 * n), ("tables checked", 2 * n), ("subsets", n // 4), ("made fonts", n // 2), ("system fonts", n // 8), ("fonts with placed components", n // 10), ("composite fonts", n // 2), ("simple fonts", n // 6), ("string lengths compared", 2 * n), ("encoded lengths compared", 2 * n), ("loaded lengths compared", 2 * n),
             ("standard widths compared", 8 * s), ("embedded standard glyphs", 4 * s), ("foreign lengths compared", 6 * w), ("glyph maps compared", w // 40), ("foreign composite", w // 8), ("foreign Type3", w // 8)]: c.need(k, v)
c.finish("fonts generated with other glyph orders, metrics counts, index formats, units and component glyphs with every kind of placement, and system fonts, used for texts and saved in all embedding modes: the embedded program is parsed as an sfnt (directory, checksums), opened with FreeType, and every used code is followed through encoding and CID to a glyph whose outline and advance "
         "equal those of the original; widths, descriptor, CIDSet and lengths against the original; standard fonts against AFM widths; widths of foreign fonts against the generator; distinct = kinds of fonts with glyph counts")
