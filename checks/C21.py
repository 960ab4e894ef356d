import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C21")
exe = c.build("asan", ["content.cpp"])
n = c.n(30000, 400000)
c.run(exe, n, mode="c21", cpu=60)
for k, m in [("events compared", 8 * n), ("operands compared", 10 * n), ("contents read to the end", n // 2), ("contents in several streams", n // 3), ("forms entered", n // 3), ("recursive forms", n // 20), ("invalid form names", n // 3),
             ("image data compared", n // 3), ("images given to the handler", n // 10), ("inline images above 4 KiB", n // 40), ("images at the end of the content", n // 30), ("missing end marks", n // 100), ("bad inline image dictionaries", n // 20),
             ("forms that end inside image data", n // 80), ("forms that end inside an image dictionary", n // 80), ("wrong operand counts", n // 4), ("unknown operators", n // 5), ("malformed numbers", n // 10), ("stray delimiters", n // 10), ("raised warnings", n // 30)]: c.need(k, m)
c.finish("contents written by a generator that knows their operations: every operator of ISO 32000-1 annex A and unknown ones, operands of every type and spelling, wrong operand counts, malformed tokens, inline images, forms (nested, recursive, missing, invalid), "
         "split over streams at token boundaries; every event the reader reports is compared with the list; distinct = document bytes")
