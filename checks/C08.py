import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools"); sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/oracle")
from runner import Check
import pdfgen
c = Check("C08")
exe = c.build("asan", ["docs.cpp"])
n = c.n(4000, 60000); d = c.work + "/corpus"
pdfgen.corpus_parallel(d, c.seed, n)
c.run(exe, n, mode="c08", cpu=60, artefacts=d)
for k, m in [("files", n * .9), ("objects compared", 20 * n), ("files with hybrid sections", n // 10), ("files with cross-reference streams", n // 5), ("files with tables", n // 5), ("eager loads", n * .9), ("loads from a file", n // 10), ("loads from a stream", n // 10), ("lookups", 20 * n), ("revisions", n * 1.5)]: c.need(k, int(m))
c.finish("files written by the harness's own writer (tables, cross-reference streams with every field width and predictor, hybrid sections, object streams, indirect lengths, revisions that free, hide, move and reuse objects, bytes before "
         "the header, all end-of-line and comment placements), loaded on demand in random order, eagerly, from a file and from an input stream; the whole graph is compared with what the writer meant; distinct = kinds and object counts")
