import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C26")
exe = c.build("asan", ["fields.cpp"])
n = c.n(8000, 150000)
c.run(exe, n, mode="c26", cpu=60)
for k, m in [("loaded documents", n // 3), ("new documents", n // 3), ("fields of other producers", n), ("invalid fields", n // 8), ("fields created on pages", n), ("fields created in the form", n), ("fields created with a known name", n // 5), ("fields moved below a parent", n // 8), ("creations refused", n // 4), ("children created", n // 3),
             ("children refused", n // 3), ("fields removed", n // 2), ("kids removed", n // 8), ("widgets removed", n // 10), ("flags set", n), ("texts set", n // 4), ("texts refused", n // 100), ("choices added", n // 3), ("choices selected", n // 60), ("check boxes set", n // 4), ("captions set", n // 2), ("actions set", n // 2),
             ("fields compared", 20 * n), ("flags compared", 100 * n), ("stored fields compared", 4 * n), ("stored widgets compared", 2 * n), ("documents reloaded", n)]: c.need(k, m)
c.finish("edit histories of forms with fields of all seven types on new documents and on forms of other producers (nested to four levels, inherited and indirect attributes, invalid entries); every field's name, type, flags, texts, choices, "
         "state, captions, its place in the hierarchy and its widget's place on the page, and the stored dictionaries (read by code of its own), are compared with a model, before and after saving; distinct = kind of field with its place and flags")
