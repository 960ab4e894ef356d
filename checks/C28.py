import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools"); sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/oracle")
from runner import Check
import xmp, os
c = Check("C28")
exe = c.build("asan", ["meta.cpp"])
c.run(exe, c.n(4000, 60000), mode="c28d", cpu=60)
n = c.n(6000, 60000); d = c.work + "/meta"; os.makedirs(d, exist_ok=True)
c.run(exe, n, mode="c28", cpu=60, artefacts=d)
c.strict(d, "m*.pdf", xmp.check_file, ".txt")
for k, m in [("dates through both notations", 20000), ("partial PDF dates", 20000), ("W3C dates of each precision", 20000), ("damaged dates", 20000), ("current time", 2000), ("documents with a packet of another producer", n // 3), ("text values set", n), ("dates set", n // 3), ("keywords set", n // 6), ("conformance set", n // 6),
             ("synchronised documents reloaded", n // 4), ("unsynchronised documents reloaded", n // 4), ("files read", n // 2), ("packets read", n // 3), ("packet values read", n), ("unrelated properties compared", n // 2), ("packet dates read", n // 3)]: c.need(k, m)
c.finish("dates of all years, offsets, precisions and spellings against a calendar of its own; edit histories of every metadata field on new documents and on documents with packets of another producer, with saving and reloading; "
         "an XML reader of its own compares information dictionary, packet and the packet's unrelated properties; distinct = operation with synchronisation state")
