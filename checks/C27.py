import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C27")
exe = c.build("asan", ["annots.cpp"])
n = c.n(8000, 150000)
c.run(exe, n, mode="c27", cpu=60)
for k, m in [("loaded documents", n // 3), ("new documents", n // 3), ("annotations created", 5 * n), ("annotations of other producers", n), ("direct annotations", n // 4), ("invalid annotations", n // 6), ("annotations removed", n), ("edits", 8 * n),
             ("destinations set", n // 5), ("destinations compared", n), ("destinations refused beside actions", n // 30), ("links to named destinations", n // 40), ("named destinations followed", n // 2), ("actions set", n // 5), ("appearances set", n // 2), ("documents reloaded", n), ("stored annotations compared", 5 * n), ("annotations compared", 15 * n)]: c.need(k, m)
c.finish("edit histories of annotations of all 29 types on new documents and documents of other producers; every page's list and every getter (rectangle, flags, title, contents, colour, action, destination, appearance, "
         "characteristics, quad points, file, open state) and the stored dictionaries (read by code of its own) are compared with a model, before and after saving; destinations are followed to page and view; distinct = operation with type")
