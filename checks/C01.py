import sys, os; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools"); sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/oracle")
from runner import Check
import pdfgen
c = Check("C01")
exe = c.build("asan", ["hostile.cpp"])
d = os.path.join(c.work, "corpus"); os.makedirs(d + "/crypt", exist_ok=True)
pdfgen.corpus_parallel(d, c.seed, 150)
pdfgen.corpus_parallel(d + "/crypt", c.seed + 1, 60, fn=pdfgen.corpus_crypt)
n = c.n(16000, 400000)
c.run(exe, n, mode="c01", cpu=60, artefacts=d)
for k, m in [("actions visited", 6582 * n // 16000), ("annotations visited", 22231 * n // 16000), ("bytes mutated", 4374 * n // 16000), ("destinations visited", 6916 * n // 16000), ("documents appended", 114 * n // 16000), ("documents saved", 345 * n // 16000), ("documents updated", 370 * n // 16000), ("documents visited", 2814 * n // 16000), ("eager loads", 338 * n // 16000), ("external objects visited", 16788 * n // 16000), ("fields visited", 25243 * n // 16000), ("files cut", 1182 * n // 16000), ("files loaded", 2535 * n // 16000), ("files put together again", 1987 * n // 16000), ("files refused", 6726 * n // 16000), ("fonts visited", 18119 * n // 16000), ("forms visited", 2373 * n // 16000), ("from generated files", 3850 * n // 16000), ("from rich files", 5749 * n // 16000), ("images decoded", 4821 * n // 16000), ("loads tried again", 1273 * n // 16000), ("name trees visited", 9674 * n // 16000), ("objects mutated", 3018 * n // 16000), ("outline items visited", 9661 * n // 16000), ("pages visited", 5638 * n // 16000), ("signatures visited", 4531 * n // 16000), ("steps refused", 84601 * n // 16000), ("streams decoded", 46350 * n // 16000), ("texts extracted", 511 * n // 16000), ("token soups", 626 * n // 16000)]: c.need(k, m)
c.finish("files by an independent writer (plain, compressed, updated, encrypted), rich documents using every part of the interface and files by the library, all mutated (bytes, tokens, numbers, names, references, objects, splices, deep nesting, cuts) or built from token soup; "
         "opened by buffer, device and eager parsing with right and wrong passwords, then every part visited through the public interface and saved; nothing but PdfError may come out, no sanitizer report, no unbounded recursion, time or memory; distinct = way of opening with its last refusal")
