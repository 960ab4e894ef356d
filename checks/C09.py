import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C09")
exe = c.build("asan", ["values.cpp"])
c.run(exe, c.n(200000, 6000000), mode="c09", cpu=20)
c.need("round trips", 100000)
for k in ("ascii texts", "PDFDoc texts", "unicode texts", "foreign pdfdoc", "foreign utf16be", "foreign utf8"): c.need(k, 5000)
c.finish("a random Unicode text (ASCII, PDFDocEncoding, BMP, supplementary, byte order mark look-alikes, control characters) is stored, written, decoded by an independent PDF text "
         "string decoder, read back, compared and written again; the same text in the encodings of other producers is read; distinct = different texts")
