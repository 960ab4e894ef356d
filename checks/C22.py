import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools"); sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/oracle")
from runner import Check
c = Check("C22")
exe = c.build("asan", ["text.cpp"])
n = c.n(9000, 150000)
c.run(exe, n, mode="c22", cpu=60)
for k, m in [("documents", 0.6), ("entries compared", 8), ("entries with forms compared", 3), ("extractions", 2), ("painted pages", 0.18), ("raw contents", 0.35), ("rotated pages", 0.13), ("forms", 0.18), ("forms with a matrix", 0.09), ("transformations", 0.3), ("text matrices", 0.35), ("moved with Td", 0.35), ("moved with TD", 0.35), ("moved with T*", 0.35),
             ("shown with TJ", 0.5), ("adjustments", 0.6), ("shown with '", 0.15), ("shown with \"", 0.15), ("drawn with DrawText", 0.2), ("drawn with AddText", 0.2), ("character spacing set", 0.25), ("word spacing set", 0.25), ("scaling set", 0.25), ("standard fonts", 0.5), ("simple fonts", 0.25), ("composite fonts", 0.25),
             ("texts drawn", 4), ("texts continued", 1.2), ("texts joined with a space", 0.13), ("texts separated by a gap", 0.45), ("clipped extractions", 0.5), ("pattern extractions", 0.28), ("whole word extractions", 0.15), ("substring extractions", 0.22), ("regex extractions", 0.22)]: c.need(k, int(m * n))
c.finish("pages drawn by hand and with the painter, with several fonts and encodings, text states, matrices, text showing operators and nested forms, saved, loaded and extracted with every combination of the flags; monitor: a text machine of its own predicts every entry, its position and its length; distinct = content")
