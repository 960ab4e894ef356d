import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C18")
exe = c.build("asan", ["nametree.cpp"])
n = c.n(4000, 60000)
c.run(exe, n, mode="c18", cpu=60)
m = c.n(4000, 40000)
c.run(exe, m, mode="c18a", cpu=60)
for k, v in [("new documents", n // 3), ("trees of other producers", n), ("reloaded", n // 4), ("saved trees compared", 3 * n), ("stored entries compared", 300 * n), ("trees of three levels or more", n // 2), ("trees with wide keys", n // 8), ("keys found", 50 * n), ("keys absent", 10 * n), ("values replaced", 20 * n), ("enumerations compared", 4 * n),
             ("attachments compared", 50 * m), ("named destinations compared", 20 * m), ("files attached from disk", 2 * m), ("files attached from memory", 5 * m)]: c.need(k, v)
c.finish("insertion histories (ascending, descending, random, duplicates; ASCII, PDFDocEncoding and UTF-16 keys) on new trees and trees of other producers, up to some thousand keys; lookups and enumerations compared with a map; the tree is walked by a walker of its own "
         "(order, exact limits, uniqueness, content) before and after saving; attachments and named destinations compared with what was stored; distinct = tree shape with operation")
