import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools"); sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/oracle")
from runner import Check
import pdfgen
c = Check("C05")
exe = c.build("asan", ["docs.cpp"])
n = c.n(3000, 40000); d = c.work + "/corpus"
pdfgen.corpus_parallel(d, c.seed + 37, n)
c.run(exe, n, mode="c05", cpu=60, artefacts=d)
c.strict(d)
for k, m in [("updates", 2 * n), ("updated graphs compared", 2 * n), ("old revisions compared", 2 * n), ("updates of an updated document", n // 2), ("updates of a file", n // 2), ("read before an update", n // 2), ("loaded objects changed in depth", n // 5),
             ("loaded objects removed", n // 5), ("loaded stream replaced", n // 10), ("corpus file with leading bytes", n // 20), ("version raised", n // 50), ("updates read strictly", n), ("changes", 2 * n)]: c.need(k, int(m))
c.finish("chains of one to four updates on generated and saved files with random edits through nested accessors, interleaved with plain reads; monitors compare the old bytes, the reloaded graph of every revision and, through the strict reader, "
         "that the appended section holds exactly the changed objects; distinct = history and graph size")
