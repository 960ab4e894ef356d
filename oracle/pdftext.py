"""Text strings of ISO 32000 (PDFDocEncoding, UTF-16, UTF-8) and PDF dates, independent of the library."""
import re, calendar
_T = [chr(i) for i in range(256)]
for i, c in enumerate((0x2D8, 0x2C7, 0x2C6, 0x2D9, 0x2DD, 0x2DB, 0x2DA, 0x2DC)): _T[0x18 + i] = chr(c)
for i, c in enumerate((0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x192, 0x2044, 0x2039, 0x203A, 0x2212, 0x2030, 0x201E, 0x201C, 0x201D, 0x2018, 0x2019, 0x201A, 0x2122, 0xFB01, 0xFB02, 0x141, 0x152, 0x160, 0x178, 0x17D,
                       0x131, 0x142, 0x153, 0x161, 0x17E, None, 0x20AC)): _T[0x80 + i] = chr(c) if c else None
_T[0x7F] = _T[0xAD] = None; _T[0x16] = "\x17"
def text(b):
    b = bytes(b)
    if b[:2] == b"\xfe\xff": return b[2:].decode("utf-16-be")
    if b[:2] == b"\xff\xfe": return b[2:].decode("utf-16-le")
    if b[:3] == b"\xef\xbb\xbf": return b[3:].decode("utf-8")
    return "".join(_T[c] for c in b)
def _secs(g, off):
    y, mo, d, h, m, s = (int(x) if x else v for x, v in zip(g, (0, 1, 1, 0, 0, 0)))
    if y < 1: y += 400; s -= 146097 * 86400   # timegm knows no year 0; 400 years are a whole number of weeks and days
    return calendar.timegm((y, mo, d, h, m, 0)) + s - off * 60
def pdf_date(t):
    m = re.fullmatch(r"D:(\d{4})(\d\d)?(\d\d)?(\d\d)?(\d\d)?(\d\d)?(?:(Z)(?:00'(?:00'?)?)?|([+-])(\d\d)(?:'(\d\d)?'?)?)?", t)
    if not m: return None
    off = 0 if not m.group(8) else int(m.group(8) + "1") * (int(m.group(9)) * 60 + int(m.group(10) or 0))
    return _secs(m.groups()[:6], off), (off if m.group(7) or m.group(8) else 9999)
def w3c_date(t):
    m = re.fullmatch(r"(\d{4})(?:-(\d\d)(?:-(\d\d)(?:T(\d\d):(\d\d)(?::(\d\d)(?:\.\d+)?)?(Z|([+-])(\d\d):(\d\d))?)?)?)?", t)
    if not m: return None
    off = 0 if not m.group(8) else int(m.group(8) + "1") * (int(m.group(9)) * 60 + int(m.group(10)))
    return _secs(m.groups()[:6], off), (off if m.group(7) else 9999)
