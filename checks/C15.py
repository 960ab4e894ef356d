import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C15")
exe = c.build("asan", ["store.cpp"])
c.run(exe, c.n(40000, 1500000), mode="c15", cpu=60)
for k, n in (("values compared", 1000000), ("changes tracked", 50000), ("reads not tracked", 500000), ("comparisons", 10000), ("comparisons of equal values", 2000), ("array operations", 10000),
             ("dictionary operations", 10000), ("streams compared", 20000), ("assignments within one value", 3000), ("containers assigned", 500), ("references added", 1000)): c.need(k, n)
c.finish("random histories of copies, moves, assignments (also between a value and its own parts), scalar sets, array and dictionary edits, stream writes and assignments on five values in two documents; after each "
         "step every value, its stream, its owners and its change mark are compared with a pure value model; distinct = different operation sequences")
