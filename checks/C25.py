import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C25")
exe = c.build("asan", ["images.cpp"])
n = c.n(20000, 400000)
c.run(exe, n, mode="c25", cpu=60)
for k, m in [("images interpreted", 2 * n), ("saved images compared", 2 * n), ("stored files compared", n), ("decodings compared", 4 * n), ("decodings refused", n), ("PNG files", n // 3), ("PNG files interlaced", n // 10), ("PNG files with transparency", n // 5), ("TIFF files", n // 3), ("JPEG files", n // 3), ("fax images", n // 3),
             ("raw images", n // 3), ("pixel arrays", n // 3), ("images with decode arrays", n // 20), ("soft masks", n // 12), ("misuses refused", n // 40), ("unsupported files refused", n // 40), ("files read", n // 3), ("exported gray images compared", n // 4), ("images set again", n // 5)] + \
            [("PNG type %d depth %d" % td, n // 200) for td in [(0, 1), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)]] + \
            [("TIFF photometric %d depth %d" % td, n // 200) for td in [(0, 1), (0, 8), (0, 16), (1, 1), (1, 8), (1, 16), (2, 8), (3, 1), (3, 2), (3, 4), (3, 8), (5, 8)]] + [("fax images K %d" % k, n // 20) for k in (-1, 0, 1)]: c.need(k, m)
c.finish("random pixels stored as pixel arrays, raw data of every depth and colour space, and as PNG, TIFF, JPEG and fax data written by independent encoders, alone or again on the same object, with soft masks and decode arrays; the stored dictionary and data, in memory and after saving, are turned to colours by an independent interpreter and compared; "
         "decoding to every pixel layout and row size must give the same colours or be refused; lossy data must be stored byte for byte; distinct = saved documents")
