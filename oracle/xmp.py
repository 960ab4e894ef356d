"""Offline checker of C28: reads the information dictionary and the XMP packet of a saved file with an XML parser of its own
and compares both with the values the harness recorded, and the packet's other content with the packet the document started from."""
import collections, xml.etree.ElementTree as ET
import pdfread, pdftext
RDF = "{http://www.w3.org/1999/02/22-rdf-syntax-ns#}"; DC = "{http://purl.org/dc/elements/1.1/}"; PDF = "{http://ns.adobe.com/pdf/1.3/}"; XMP = "{http://ns.adobe.com/xap/1.0/}"; AID = "{http://www.aiim.org/pdfa/ns/id/}"; XML = "{http://www.w3.org/XML/1998/namespace}"
MANAGED = {DC + "title", DC + "creator", DC + "description", PDF + "Keywords", PDF + "Producer", XMP + "CreatorTool", XMP + "CreateDate", XMP + "ModifyDate", AID + "part", AID + "conformance", AID + "rev"}
LEVELS = ["", "1B", "1A", "2B", "2A", "2U", "3B", "3A", "3U", "4E", "4F"]
def value(e):
    """the value of a property element as a plain structure"""
    if e.get(RDF + "resource") is not None: return ("uri", e.get(RDF + "resource"))
    kids = list(e); attrs = {k: v for k, v in e.attrib.items() if not k.startswith(XML) and not k.startswith(RDF)}; lang = e.get(XML + "lang")
    if e.get(RDF + "parseType") != "Resource" and len(kids) == 1 and kids[0].tag in (RDF + "Seq", RDF + "Bag", RDF + "Alt"): return ("list", kids[0].tag, [(k.get(XML + "lang"), value(k)) for k in kids[0]])
    if len(kids) == 1 and kids[0].tag == RDF + "Description": return value_struct(kids[0], attrs)
    if kids or attrs or e.get(RDF + "parseType") == "Resource": return value_struct(e, {})
    t = e.text or ""
    if e.tag in (DC + "date", DC + "language"): return ("list", RDF + ("Seq" if e.tag == DC + "date" else "Bag"), [(None, ("text", t, None))])   # arrays by definition, written without array notation
    return ("text", t, lang)
def value_struct(e, attrs): return ("struct", sorted([(k, ("text", v, None)) for k, v in list(attrs.items()) + [a for a in e.attrib.items() if not a[0].startswith(RDF) and not a[0].startswith(XML)]] + [(k.tag, value(k)) for k in e], key=repr))
def props(xml):
    """multiset of (property, value) over all top level descriptions"""
    root = ET.fromstring(xml); out = []
    for rdf in root.iter(RDF + "RDF"):
        for d in rdf:
            if d.tag != RDF + "Description": continue
            for k, v in d.attrib.items():
                if k.startswith(RDF) or k.startswith(XML): continue
                out.append((k, ("list", RDF + "Seq", [(None, ("text", v, None))]) if k == DC + "date" else ("text", v, None)))
            out += [(k.tag, value(k)) for k in d]
    return out
def first(v):
    if v is None: return None
    if v[0] == "list": return v[2][0][1][1] if v[2] else None
    return v[1]
def xml_ok(s): return "".join(c for c in s if ord(c) >= 32 and c not in "\ufffe\uffff" or c in "\t\n\r")
def check_file(path):
    out, n = [], collections.Counter(); facts = {}
    for l in open(path[:-4] + ".txt"):
        k, _, v = l.rstrip("\n").partition(" "); facts[k] = v
    T = lambda k: bytes.fromhex(facts[k]).decode("utf-8") if k in facts else None
    pdf = pdfread.Pdf(open(path, "rb").read())
    for p in pdf.problems: out.append(("structure:" + p[0], p[1]))
    info = pdf.resolve(pdf.trailer.get(b"Info")) or {}; root = pdf.resolve(pdf.trailer[b"Root"]); synced = facts["synced"] == "1"
    md = pdf.resolve(root.get(b"Metadata")); xml = pdfread.decode_stream(md, pdf.resolve)[0] if isinstance(md, pdfread.Stream) else None
    got = {}
    if xml is not None:
        if md.d.get(b"Type") != b"Metadata" or md.d.get(b"Subtype") != b"XML": out.append(("metadata-stream-type", repr(md.d)))
        try: got = props(xml)
        except ET.ParseError as e: out.append(("packet-not-xml", "%s in %r" % (e, xml[:600]))); return out, n
        dup = [k for k, c in collections.Counter(k for k, _ in got).items() if c > 1 and k in MANAGED]
        if dup: out.append(("property-twice", repr(dup)))
        other = sorted([x for x in got if x[0] not in MANAGED], key=repr); got = dict(got); n["packets read"] += 1
        if "original" in facts:
            want = sorted([x for x in props(bytes.fromhex(facts["original"])) if x[0] not in MANAGED], key=repr); n["unrelated properties compared"] += len(want)
            if want != other: out.append(("unrelated-content", "lost %r, new %r" % ([x for x in want if x not in other], [x for x in other if x not in want])))
    elif "original" in facts: out.append(("packet-lost", facts["history"]))
    for key, prop in (("Title", DC + "title"), ("Author", DC + "creator"), ("Subject", DC + "description"), ("Keywords", PDF + "Keywords"), ("Creator", XMP + "CreatorTool"), ("Producer", PDF + "Producer")):
        want = T(key); iv = info.get(key.encode()); iv = pdftext.text(pdf.resolve(iv)) if iv is not None else None
        if iv is not None and iv != want: out.append(("info:" + key, "%r should be %r" % (iv, want)))
        if iv is None and want is not None and xml is None: out.append(("info:" + key, "missing, should be %r" % want))
        n["information values read"] += 1
        if synced and xml is not None:
            xv = first(got.get(prop)); n["packet values read"] += 1
            if want is None and prop in got: out.append(("xmp:" + key, "%r should be missing" % xv))
            if want is not None and (prop not in got or (xv or "") != xml_ok(want)): out.append(("xmp:" + key, "%r should be %r" % (xv, want)))
            if prop in (DC + "title", DC + "description") and prop in got and (got[prop][0] != "list" or got[prop][1] != RDF + "Alt" or any(l is None for l, _ in got[prop][2])): out.append(("xmp-type:" + key, repr(got[prop])))
            if prop == DC + "creator" and prop in got and (got[prop][0] != "list" or got[prop][1] != RDF + "Seq"): out.append(("xmp-type:" + key, repr(got[prop])))
    for key, prop in (("CreationDate", XMP + "CreateDate"), ("ModDate", XMP + "ModifyDate")):
        want = tuple(int(x) for x in facts[key].split()) if key in facts else None; iv = info.get(key.encode()); iv = pdftext.pdf_date(pdftext.text(pdf.resolve(iv))) if iv is not None else None
        if iv is not None and iv != want: out.append(("info:" + key, "%r should be %r" % (iv, want)))
        if synced and xml is not None:
            xv = got.get(prop); xd = pdftext.w3c_date(xv[1]) if xv is not None else None; n["packet dates read"] += 1
            if xd != want: out.append(("xmp:" + key, "%r = %r should be %r" % (xv, xd, want)))
    t = info.get(b"Trapped"); t = bytes(t).decode() if t is not None else "Unknown"
    if t != facts["Trapped"]: out.append(("info:Trapped", t + " should be " + facts["Trapped"]))
    if synced and xml is not None:
        lv = (first(got.get(AID + "part")) or "") + (first(got.get(AID + "conformance")) or ""); n["conformance levels read"] += 1
        if lv != LEVELS[int(facts["level"])]: out.append(("xmp:level", "%r should be %r" % (lv, LEVELS[int(facts["level"])])))
    n["files read"] += 1; h = bytes.fromhex(facts.get("history", "")).decode("utf-8", "replace")
    return [(k, m + " | " + h) for k, m in out], n
