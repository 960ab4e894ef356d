"""Builds the library variants and every harness once; the checks then only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
TARGETS = [("asan", ["values.cpp"]), ("asan", ["store.cpp"]), ("asan", ["filters.cpp"]), ("asan", ["docs.cpp"]), ("asan", ["devices.cpp"]), ("asan", ["geom.cpp"]), ("asan", ["meta.cpp"]), ("asan", ["crypt.cpp"]), ("asan", ["pages.cpp"]), ("asan", ["outlines.cpp"]), ("asan", ["nametree.cpp"]), ("asan", ["encodings.cpp"]), ("asan", ["fonts.cpp"]), ("asan", ["content.cpp"]), ("asan", ["painter.cpp"]), ("asan", ["images.cpp"]), ("asan", ["annots.cpp"]), ("asan", ["fields.cpp"]), ("asan", ["hostile.cpp"]), ("tsan", ["threads.cpp"]), ("asan", ["sign.cpp"]), ("asan", ["faults.cpp"]), ("asan", ["text.cpp"])]
if __name__ == "__main__":
    for variant, src in TARGETS:
        print(B.build(variant, src, "h_" + os.path.splitext(src[0])[0]))
