import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C20")
exe = c.build("asan", ["painter.cpp"])
n = c.n(16000, 250000)
c.run(exe, n, mode="c20", cpu=60)
for k, m in [("drawing operations compared", 20 * n), ("reported states compared", 5 * n), ("saved contents compared", n), ("sessions on forms", n // 3), ("sessions on loaded pages", n // 2), ("sessions on new pages", n // 3), ("sessions before the content", n // 6),
             ("canvas switches without finishing", n // 4), ("arcs", n // 6), ("smooth curves after curves", n // 80), ("smooth quadratic curves after curves", n // 80), ("rounded rectangles", n // 2), ("clipping paths", n // 3), ("restores", n // 2), ("texts drawn", n),
             ("texts added", n // 2), ("texts with tabs", n // 3), ("aligned texts", n // 5), ("images drawn", n // 12), ("forms drawn", n // 12), ("misuses refused", n // 2), ("precisions", n // 8), ("inherited resources", n // 10)]: c.need(k, m)
c.finish("drawing sessions made of random calls (state, paths and shapes, text, images, forms, marked content, saves and restores, precisions, misuses) on new pages, loaded pages with content and colliding or inherited resource names, and forms; "
         "the content, in memory and after saving, is read by an independent interpreter with its own graphics state, and every operation must have the geometry, state and resources the calls asked for; distinct = saved documents")
