import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C17")
exe = c.build("asan", ["pages.cpp"])
n = c.n(12000, 100000)
c.run(exe, n, mode="c17", cpu=60)
for k, m in [("imports", n), ("pages imported", n), ("copied objects compared", 8 * n), ("target objects compared", 20 * n), ("forms compared", n // 4), ("streams compared", n), ("saved pages compared", n), ("own pages copied", n // 8), ("invalid requests refused", n // 8)]: c.need(k, m)
c.finish("imports of pages, ranges and whole documents and forms made of pages between documents with shared, cyclic, dangling and free objects; the object graph reachable from every copied page is compared "
         "with a second load of the source by an isomorphism walk, the previous objects of the target with their state before; repeated on the saved file; distinct = import and page counts")
