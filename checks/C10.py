import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C10")
exe = c.build("asan", ["filters.cpp"])
c.run(exe, c.n(40000, 600000), mode="c10", cpu=60)
for k, n in (("chain round trips", 3000), ("filter round trips", 3000), ("block decodes", 1000), ("chunked reads", 100000), ("stream checks", 20000), ("appends", 3000), ("stream copies", 1500), ("stream moves", 1000), ("unwraps", 1500), ("moved input streams", 300), ("moved output streams", 200), ("data set over old parameters", 1000), ("streams reloaded", 1000)): c.need(k, n)
c.finish("random data through single filters, chains of up to four filters and histories of set / write / append / copy / move / unwrap / partial read on stream objects, with random splits of every write and read; the encoded bytes are "
         "checked by independent strict decoders, the decoded bytes with the data kept by the harness; distinct = different chains with size and read counts, or operation histories")
