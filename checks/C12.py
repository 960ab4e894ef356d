import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools"); sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/oracle")
from runner import Check
import pdfgen, cryptcheck
c = Check("C12")
exe = c.build("asan", ["crypt.cpp"])
n = c.n(1500, 15000); d = c.work + "/plain"
pdfgen.corpus_parallel(d, c.seed + 112, n)
c.run(exe, n, mode="c12", cpu=60, artefacts=d)
c.strict(d, fn=cryptcheck.check_file)
for k, m in [("encrypted saves", n), ("encrypted updates", n // 5), ("encryption removed", n // 8), ("copies of encrypted documents", n // 20), ("plain files loaded", n // 8), ("opened with the right password", 3 * n), ("wrong passwords refused", 8 * n), ("marks searched for", 8 * n), ("objects compared", 20 * n),
             ("reopened", n // 2), ("encrypted with AESV2", n // 10), ("encrypted with AESV3", n // 10), ("encrypted with AESV3R6", n // 10), ("encrypted with RC4V1", n // 10), ("encrypted with RC4V2 40", n // 50), ("encrypted with RC4V2 128", n // 50),
             ("updates with other passwords refused", n // 200), ("passwords authenticated", 2 * n), ("wrong passwords tried", 2 * n)]: c.need(k, m)
c.finish("histories of saves, updates, reopenings and changes of protection with every algorithm, key length, password pair and permission set; every string and stream planted in the document is searched for in the saved bytes; the right passwords open, "
         "wrong and mutilated ones are refused, and the decrypted graph equals the model; an independent security handler tries the same passwords; distinct = history and algorithm")
