import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/oracle")
import os
from runner import Check
import fontread
c = Check("C23")
exe = c.build("asan", ["encodings.cpp"])
n = c.n(3000, 40000)
c.run(exe, n, mode="c23m", cpu=60)
c.run(exe, n, mode="c23c", cpu=60)
c.run(exe, n, mode="c23d", cpu=60)
g = c.n(64, 256); c.run(exe, g, mode="c23n", cpu=60)
d = c.work + "/fonts"; os.makedirs(d, exist_ok=True); f = c.n(1200, 12000)
c.run(exe, f, mode="c23f", cpu=90, artefacts=d)
c.strict(d, "f*.pdf", fn=fontread.check_texts, ext=".exp")
for k, v in [("codes looked up", 100 * n), ("sequences looked up", 100 * n), ("maps moved", n // 2), ("runs with ligatures", n // 2), ("encoded steps compared", 5 * n), ("unmapped codes read", 10 * n), ("table codes compared", 400 * n), ("difference encodings compared", n // 2), ("loaded encodings compared", n // 2), ("encodings saved", n // 8),
             ("names compared with the font engine", 1000 * g), ("texts encoded", 4 * f), ("saved texts compared", 4 * f), ("fonts: dynamic", f // 4), ("fonts: differences", f // 8), ("fonts: map", f // 8), ("foreign texts refused", f), ("strings read independently", 4 * f)]: c.need(k, v)
c.finish("character maps against a plain map (mixed code sizes, ligatures and their prefixes); CMap streams written by a generator of its own and compared code by code; predefined tables and differences against tables transcribed from ISO 32000-1 annex D; glyph names of all characters against the "
         "Unicode charmap FreeType synthesizes; fonts of all encodings used for texts, saved, loaded, read again, and the strings decoded by a reader of its own through the code spaces, CMaps and ToUnicode of the file; distinct = shapes of maps, tables and fonts")
