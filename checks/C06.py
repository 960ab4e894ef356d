import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C06")
exe = c.build("asan", ["values.cpp"])
c.run(exe, c.n(80000, 3000000), mode="c06", cpu=20)
c.need("values read back", 100000)
for k in ("null", "bool", "int", "real", "string", "name", "ref", "array", "dict"): c.need("values " + k, 1000)
c.finish("a random value (all types, nested to depth 4, boundary integers, reals of every magnitude, strings and names of arbitrary bytes) is written "
         "in every write mode, read back by the library's tokenizer and compared with the model value; then written and read a second time; "
         "distinct = different written texts")
