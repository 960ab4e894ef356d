import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C16")
exe = c.build("asan", ["pages.cpp"])
n = c.n(20000, 200000)
c.run(exe, n, mode="c16", cpu=60)
for k, m in [("documents with a tree", n // 2), ("new documents", n // 8), ("pages created", n), ("pages moved", n // 2), ("pages removed", n // 2), ("attributes set", n // 2), ("reloaded", n // 8), ("held pages compared", n), ("trees compared", 5 * n), ("nodes checked", 20 * n), ("invalid requests refused", n)]: c.need(k, m)
c.finish("histories of page operations over page trees of any nesting; a walker of its own reads the stored tree (kids, counts, parents, inherited attributes) after every operation and compares order, "
         "attributes and page objects held since earlier with a plain list; distinct = operation with page count")
