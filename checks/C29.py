import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools"); sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/oracle")
from runner import Check
import pdfgen
c = Check("C29")
exe = c.build("asan", ["sign.cpp"])
n = c.n(1200, 16000); d = c.work + "/corpus"
pdfgen.corpus_parallel(d, c.seed + 53, n)
c.run(exe, n, mode="c29", cpu=60, artefacts=d)
c.strict(d)
ne = c.n(900, 12000)
c.run(exe, ne, mode="edge", cpu=60)
for k, m in (("value starts at a buffer boundary", 0.2), ("value ends at a buffer boundary", 0.09), ("value starts at a buffer boundary (nearby)", 0.1), ("value ends at a buffer boundary (nearby)", 0.05)): c.need(k, int(m * ne))
for k, m in [("signings", 1.5), ("signatures verified", 1.7), ("earlier signatures verified", 1), ("failed signings", 0.4), ("signed after a failure", 0.3), ("certifications", 0.2), ("encrypted files", 0.1), ("large files", 0.12),
             ("loaded from the device that is signed", 0.5), ("prepared fields signed", 0.15), ("field on a page", 0.7), ("field without a page", 0.5), ("files for the strict reader", 0.9)]: c.need(k, int(m * n * 0.55))
for k in ("buffer", "file", "stream", "string", "vector"): c.need("signed in a " + k, n // 10)
c.finish("chains of up to three signatures on generated, saved and encrypted files in devices of every kind, interleaved with edits, reloads and signers that fail at every callback; monitors compare the bytes before, the byte range, what the signer was "
         "fed and what the file holds, every earlier signature, the reloaded graph, and read the file with the strict reader; files are padded so that the value begins or ends at a multiple of common buffer sizes; distinct = kind of device, history and size")
