import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C19")
exe = c.build("asan", ["outlines.cpp"])
n = c.n(8000, 150000)
c.run(exe, n, mode="c19", cpu=60)
c.run(exe, c.n(600, 6000), mode="c19h", cpu=120)
for k, m in [("loaded outlines", n // 3), ("new documents", n // 3), ("items created", 2 * n), ("items erased", n), ("chains inserted", n // 3), ("invalid insertions refused", n // 2), ("properties set", n), ("conflicts refused", n // 6), ("reloaded", n // 2), ("stored items compared", 50 * n), ("long chains or nests read", 100), ("loops or nests refused", 50)]: c.need(k, m)
c.finish("edit histories on new outlines and outlines of other producers; after every operation the tree shown by the interface and the stored dictionaries (first, last, next, previous, parent, title, destination, "
         "action, colour, format; read by a walker of its own) are compared with a list model, again after saving; long, deep and looping chains; distinct = operation with tree shape")
