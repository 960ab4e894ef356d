import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C30")
exe = c.build("asan", ["devices.cpp"])
n = c.n(16000, 300000)
c.run(exe, n, mode="c30", cpu=60)
for k, m in [("operations", 40 * n), ("reads", 5 * n), ("writes", 2 * n), ("seeks", 4 * n), ("seeks refused", 2 * n), ("writes refused", n // 4), ("access errors", 2 * n), ("peeks", 2 * n), ("copies", 2 * n), ("lengths", 10 * n), ("stores compared", 2 * n),
             ("files opened", n // 8), ("opens refused", n // 20), ("page contents read", n // 10), ("reals written", n // 10)] + [("kind " + k, n // 60) for k in ("string", "vector", "buffer", "const container", "span", "read span", "write span", "file", "stringstream", "istringstream", "ostringstream", "fstream", "null", "write container")]: c.need(k, m)
c.finish("random histories of read / peek / write / seek / copy / flush / length queries with boundary and hostile amounts on fourteen device kinds, every file mode and page contents split over streams; each result, position, length, end mark and the "
         "underlying store are compared with a byte array and a cursor; distinct = device, operation, previous operation, position class and outcome")
