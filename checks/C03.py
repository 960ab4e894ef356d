import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools"); sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/oracle")
from runner import Check
import pdfgen
c = Check("C03")
exe = c.build("asan", ["docs.cpp"])
n = c.n(5000, 80000); d = c.work + "/corpus"
pdfgen.corpus_parallel(d, c.seed + 11, n // 2)
c.run(exe, n, mode="c03", cpu=60, artefacts=d)
for k, m in [("documents", n), ("saves", n * 1.5), ("objects compared", 20 * n), ("loaded documents", n // 10), ("changes", 10 * n), ("stream contents set", 5 * n), ("versions chosen", n // 4), ("collected", n // 2)] + [("save to " + x, n // 5) for x in ("string", "vector", "file", "ostream", "buffer")]: c.need(k, int(m))
c.finish("random object graphs built through every mutator (and files of the independent generator) saved with random options, versions and devices, one to three times with edits between; a value model kept beside the library is compared "
         "with memory before and after the save and with the reloaded graph; distinct = options, device and graph size")
