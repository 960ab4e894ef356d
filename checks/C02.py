import sys, os; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools"); sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/oracle")
from runner import Check
c = Check("C02")
exe = c.build("asan", ["hostile.cpp"]); img = c.build("asan", ["images.cpp"]); fnt = c.build("asan", ["fonts.cpp"])
n = c.n(16000, 300000); m = c.n(8000, 150000)
c.run(exe, n, mode="c02", cpu=60)
c.run(img, m, mode="c02i", cpu=60)
c.run(fnt, m, mode="c02f", cpu=60)
for k, v in [("content items read", 664220 * n // 16000), ("dates read", 5743 * n // 16000), ("dictionaries changed", 11602 * n // 16000), ("documents saved", 189 * n // 16000), ("documents updated", 232 * n // 16000), ("eager loads", 197 * n // 16000), ("external objects visited", 28180 * n // 16000), ("fields visited", 50657 * n // 16000), ("files loaded", 4488 * n // 16000), ("filter payloads decoded", 11838 * n // 16000), ("filter payloads refused", 11472 * n // 16000), ("fonts visited", 20481 * n // 16000), ("images decoded", 7219 * n // 16000), ("metadata saved", 2327 * n // 16000), ("packets read", 631 * n // 16000), ("pages visited", 10291 * n // 16000), ("payloads changed", 56007 * n // 16000), ("streams decoded", 86621 * n // 16000), ("strings tried", 15948 * n // 16000), ("texts extracted", 679 * n // 16000), ("steps refused", 168385 * n // 16000)] + [("images loaded after a refusal", m // 5), ("image decoded done", m), ("image loaded done", m // 6), ("image loaded refused", m // 3), ("font created done", m // 2), ("font saved done", m // 3), ("font saved refused", m // 20), ("metrics made", m // 10)]: c.need(k, v)
c.finish("documents using every part of the interface whose payloads (content, CMaps, font programs, encodings, images, metadata, dates) are mutated before they are stored in sound files; content read, filters decoded, metadata, dates, strings and colours read directly; "
         "damaged PNG, TIFF and JPEG images loaded, decoded, drawn and exported; damaged TrueType programs imported, measured, subset and embedded; nothing but PdfError may come out, no sanitizer report, no endless reading, and the document stays usable; distinct = kind of input with how it was refused")
