import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools"); sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/oracle")
from runner import Check
import pdfgen, cryptcheck
c = Check("C13")
exe = c.build("asan", ["crypt.cpp"])
n = c.n(2500, 25000); d = c.work + "/foreign"
pdfgen.corpus_parallel(d, c.seed + 113, n, (), fn=pdfgen.corpus_crypt)
c.run(exe, n, mode="c13", cpu=60, artefacts=d)
m = c.n(700, 7000); p = c.work + "/plain"
pdfgen.corpus_parallel(p, c.seed + 213, m)
c.run(exe, m, mode="c12", cpu=60, artefacts=p, only_artefacts=True)
c.strict(p, fn=cryptcheck.check_file)
for k, v in [("encrypted saves", m), ("objects decrypted", 10 * m), ("streams decrypted", m), ("passwords authenticated", 2 * m)]: c.need(k, v)
c.finish("files encrypted by an independent security handler (every V and R, key length, crypt filter arrangement, unencrypted metadata, object streams, updates) are opened by the library with either password and compared with their value model; files the library encrypted "
         "are opened by the independent handler, decrypted and compared with the value model; distinct = algorithm, arrangement and file kind")
