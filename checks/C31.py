import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools"); sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/oracle")
from runner import Check
import pdfgen
c = Check("C31")
exe = c.build("asan", ["faults.cpp"])
n = c.n(2400, 40000); d = c.work + "/corpus"
pdfgen.corpus_parallel(d, c.seed + 59, n)
c.run(exe, n, mode="c31", cpu=60, artefacts=d)
for k, m in [("cases checked for leaks", 0.12), ("corpus files", 0.25), ("encrypted files", 0.1), ("document used before", 0.1), ("failed loads", 0.25), ("loaded again", 0.2), ("failed loads before destruction", 0.06), ("failed readings", 0.02), ("read again", 0.02), ("saved after a fault while reading", 0.008),
             ("failed saves", 0.13), ("saved after failures", 0.07), ("failed updates", 0.2), ("updated after failures", 0.12), ("failed by the source", 0.02), ("written after source failures", 0.02), ("written without source fault", 0.05), ("failed signings", 0.1), ("signed after failures", 0.07),
             ("files that did not fit", 0.12), ("files that fit", 0.03), ("files written again", 0.12), ("loaded streams replaced", 0.05), ("new encrypted documents", 0.03), ("written without fault", 0.03)]: c.need(k, int(m * n))
c.finish("loads, on-demand reads, saves, updates and signings over devices that fail once or for good at any operation, with the library's errors or foreign ones, after partial writes, through sources that fail while writing, limited and full files, and failing signers, "
         "each tried again afterwards; monitors: failure reported or content complete, document unchanged, the retry complete, no growth of memory over repetitions; distinct = history of failures")
