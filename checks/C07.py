import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C07")
exe = c.build("asan", ["values.cpp"])
c.run(exe, c.n(120000, 4000000), mode="c07", cpu=20)
c.need("values compared", 100000)
for k in ("comments", "octal escapes", "line continuations", "unescaped parentheses", "hex strings with an odd digit count", "escaped name characters", "numbers with a plus sign",
          "references", "unescaped line ends in strings", "ignored backslashes", "empty names"): c.need(k, 300)
c.finish("a random list of values is spelled with random choices the specification allows (white space, comments, escapes, octal codes, line ends, hex case and odd digits, "
         "signs, leading zeros, name codes, references); the values read by the PDF tokenizer or the content tokenizer are compared with those the spelling stands for; distinct = different texts")
