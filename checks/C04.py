import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools"); sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/oracle")
import os
from runner import Check
import pdfgen, strict
c = Check("C04")
exe = c.build("asan", ["docs.cpp"])
n = c.n(2500, 30000)
for mode in ("c03", "c05"):
    d = c.work + "/" + mode; pdfgen.corpus_parallel(d, c.seed + 23, n // 2)
    c.run(exe, n, mode=mode, cpu=60, artefacts=d, only_artefacts=True)
    c.strict(d)
for k, m in [("files read strictly", 3 * n), ("objects read strictly", 40 * n), ("entries checked", 60 * n), ("updates read strictly", n), ("free entries", 5 * n)]: c.need(k, int(m))
c.finish("every file saved in full or as an update in the C03 and C05 histories is read by an independent strict reader: header, end, every cross-reference entry and offset, free list, size, stream lengths, and the objects found are compared with the value model; "
         "distinct = options, device and graph size")
