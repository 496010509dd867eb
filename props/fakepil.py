"""A stand-in for PIL (a native library): images are lists of channel values, which may be symbolic.

"Encoded" images are a png header, the dimensions and the plain RGBA bytes, so that what is written can be read back;
real png files (the templates and fonts in the repo) are decoded.
"""
import zlib, struct

HEADER = b"\x89PNG\r\n\x1a\n"
MARK = b"FAKE"
_real = {}
OVERRIDES = {}   # pixel (x, y) -> rgba, applied to real png-s when they are opened

def decode_png(data):
    pos, idat, w, h = 8, b"", 0, 0
    while pos < len(data):
        n, t = struct.unpack(">I4s", data[pos:pos + 8])
        body = data[pos + 8:pos + 8 + n]
        if t == b"IHDR":
            w, h, depth, ctype, _, _, inter = struct.unpack(">IIBBBBB", body)
            assert (depth, ctype, inter) == (8, 6, 0)
        elif t == b"IDAT": idat += body
        pos += 12 + n
    raw = zlib.decompress(idat)
    out, prev, p, st = [], bytearray(w * 4), 0, w * 4
    for y in range(h):
        f = raw[p]; line = bytearray(raw[p + 1:p + 1 + st]); p += 1 + st
        for i in range(st):
            a = line[i - 4] if i >= 4 else 0
            b = prev[i]
            c = prev[i - 4] if i >= 4 else 0
            if f == 1: line[i] = (line[i] + a) & 255
            elif f == 2: line[i] = (line[i] + b) & 255
            elif f == 3: line[i] = (line[i] + (a + b >> 1)) & 255
            elif f == 4:
                q = a + b - c
                pa, pb, pc = abs(q - a), abs(q - b), abs(q - c)
                line[i] = (line[i] + (a if pa <= pb and pa <= pc else b if pb <= pc else c)) & 255
        out.append(line); prev = line
    return w, h, [tuple(l[4 * x:4 * x + 4]) for l in out for x in range(w)]

class Pixels:
    def __init__(s, im): s.im = im
    def __getitem__(s, xy): return s.im.px[xy[0] + xy[1] * s.im.width]
    def __setitem__(s, xy, v): s.im.px[xy[0] + xy[1] * s.im.width] = tuple(v) if s.im.mode not in ("L", "P") else v

class Image:
    def __init__(s, w, h, px, mode="RGBA"):
        s.width, s.height, s.px, s.mode = w, h, px, mode
    @property
    def size(s): return (s.width, s.height)
    def load(s): return Pixels(s)
    def convert(s, mode): return Image(s.width, s.height, list(s.px), mode)
    def copy(s): return Image(s.width, s.height, list(s.px), s.mode)
    def getpixel(s, xy): return s.px[xy[0] + xy[1] * s.width]
    def putpalette(s, raw, mode): s.palette = (raw, mode)
    def putpixel(s, xy, v): s.px[xy[0] + xy[1] * s.width] = tuple(v)
    def getdata(s): return list(s.px)
    def putdata(s, d): s.px = [tuple(p) for p in d]
    def getchannel(s, c):
        i = "RGBA".index(c)
        return Image(s.width, s.height, [p[i] for p in s.px], "L")
    def resize(s, size, resample=None):
        w, h = size
        return Image(w, h, [s.px[(x * s.width // w) + (y * s.height // h) * s.width] for y in range(h) for x in range(w)], s.mode)
    def crop(s, box):
        x0, y0, x1, y1 = box
        zero = 0 if s.mode == "L" else (0, 0, 0, 0)
        return Image(x1 - x0, y1 - y0, [s.px[x + y * s.width] if 0 <= x < s.width and 0 <= y < s.height else zero for y in range(y0, y1) for x in range(x0, x1)], s.mode)
    def alpha_composite(s, src, dest=(0, 0)):
        # (only opaque and fully transparent pixels are drawn here)
        dx, dy = dest
        for y in range(src.height):
            for x in range(src.width):
                p = src.px[x + y * src.width]
                if p[3] == 255 and 0 <= x + dx < s.width and 0 <= y + dy < s.height: s.px[x + dx + (y + dy) * s.width] = p
    def paste(s, color, box=None, mask=None):
        x0, y0 = (box[0], box[1]) if box else (0, 0)
        x1, y1 = (box[2], box[3]) if box else (s.width, s.height)
        for y in range(y0, y1):
            for x in range(x0, x1):
                if mask is None or mask.px[(x - x0) + (y - y0) * mask.width]:
                    if 0 <= x < s.width and 0 <= y < s.height:
                        s.px[x + y * s.width] = color if s.mode == "L" else tuple(color) if not isinstance(color, int) else (color, 0, 0, 0)
    def tobytes(s, encoder="raw", raw=None, stride=0, orient=1):
        """(bytes in the given raw format, possibly bottom to top)"""
        order = {"RGBA": (0, 1, 2, 3), "BGRA": (2, 1, 0, 3), "RGB": (0, 1, 2)}[raw or s.mode] if s.mode not in ("P", "L") else None
        rows = range(s.height) if orient > 0 else range(s.height - 1, -1, -1)
        pxs = [s.px[x + y * s.width] for y in rows for x in range(s.width)]
        return mkb([p[c] for p in pxs for c in order] if order else pxs)
    def save(s, dest, format="png", **opts):
        if format != "png": raise KeyError(format)
        dest.write(HEADER + MARK + struct.pack("<HH", s.width, s.height))
        dest.write(mkb([c for p in s.px for c in p]))

def mkb(items):
    from sys import modules
    if "sym.core" in modules:
        from sym.seq import mkbytes
        return mkbytes(items)
    return bytes(items)

class Module:
    NEAREST = 0
    def open(s, f):
        data = f.read()
        if data[8:12] == MARK:
            w, h = data[12] | data[13] << 8, data[14] | data[15] << 8
            return Image(w, h, [(data[i], data[i + 1], data[i + 2], data[i + 3]) for i in range(16, 16 + 4 * w * h, 4)])
        data = bytes(data)
        if data not in _real: _real[data] = decode_png(data)
        w, h, px = _real[data]
        px = list(px)
        for (x, y), v in OVERRIDES.get((w, h), {}).items(): px[x + y * w] = v
        return Image(w, h, px)
    def new(s, mode, size): return Image(size[0], size[1], [(0, 0, 0, 0)] * (size[0] * size[1]), mode)
    def frombytes(s, mode, size, data, decoder="raw", raw=None, *a):
        if mode in ("P", "L"): return Image(size[0], size[1], list(data), mode)
        order = (2, 1, 0, 3) if raw == "BGRA" else (0, 1, 2, 3)
        return Image(size[0], size[1], [tuple(data[i + k] for k in order) for i in range(0, len(data), 4)], mode)

MODULE = Module()

def parse(data):
    """the picture that was saved"""
    import io
    return MODULE.open(io.BytesIO(data) if type(data) is bytes else Reader(data))

class Reader:
    def __init__(s, d): s.d = d
    def read(s): return s.d

def install():
    import media_utils
    OVERRIDES.clear()
    media_utils._pil_module = lambda: MODULE
