import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/tools")
from runner import Check
c = Check("C32")
exe = c.build("tsan", ["threads.cpp"])
n = c.n(400, 8000)
c.run(exe, n, cpu=120, env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:suppressions=" + __file__.rsplit("/", 2)[0] + "/harness/tsan.supp"})
c.need("processes", n * 9 // 10); c.need("threads", 2 * n); c.need("jobs compared", 5 * n)
for k in ("dates formatted", "documents encrypted", "documents made with fonts", "encodings used", "errors raised", "files rewritten", "files visited", "filters used", "fonts searched", "images loaded", "metadata kept", "outlines, fields and names", "pages imported", "system fonts embedded", "texts extracted", "values parsed"):
    c.need(k, n // 4)
c.finish("every case is a process whose 2 to 8 threads start together and each work on documents of their own (fonts, files, encryption, encodings, filters, images, metadata, dates, text extraction, errors, forms, values, font search, imports), so they race for everything the library "
         "initialises on first use; ThreadSanitizer reports unsynchronised accesses, every result must equal the one of the same work done alone; distinct = different distributions of work over threads")
