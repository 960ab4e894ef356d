import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C14")
exe = c.build("asan", ["store.cpp"])
c.run(exe, c.n(12000, 400000), mode="c14", cpu=60)
for k, n in (("invariant checks", 100000), ("numbers reused", 5000), ("garbage collections", 5000), ("objects collected", 5000), ("objects replaced", 5000), ("save and reload", 2000), ("document copies", 2000),
             ("histories beyond 65536 objects", 1), ("histories to the last generation", 1), ("long reference chains", 1), ("replacements of absent objects", 2000)): c.need(k, n)
c.finish("random histories of create / remove / replace / look up / link / collect / switch reuse / save and reload / copy on the object list, each call compared with a reference map and the whole list compared "
         "with it after the steps; special histories pass 65536 objects, exhaust the generations of a number and build reference chains of 30000 objects; distinct = different operation sequences")
