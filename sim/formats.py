"""
Independent encoders for the topography formats the code under test reads.

encode(fmt, data, sx, sy, opt) -> (bytes, expected heights in um, expected step x, expected step y, {layer: array})
They are written from the format layouts, not with the writers of the code under test.
"""
import io
import struct
import zipfile
import zlib
import lzma
import hashlib
import random

import numpy as np

# one entry per reader; suffix used for the file
SUFFIX = {'plu': '.plu', 'plux': '.plux', 'nms': '.nms', 'opd': '.opd', 'opd4': '.opd', 'os3d': '.os3d', 'x3p': '.x3p',
          'x3pI': '.x3p', 'xyz': '.xyz', 'zmg': '.zmg', 'tmd': '.tmd', 'fits': '.fits', 'gwy': '.gwy', 'vk4': '.vk4',
          'vk6': '.vk6', 'vk7': '.vk7', 'al3d': '.al3d', 'sdfb': '.sdf', 'sdf16': '.sdf', 'sdfa': '.sdf',
          'dat': '.dat', 'dat3': '.dat', 'sur': '.sur', 'sur16': '.sur', 'surz': '.sur', 'sflz': '.sflz',
          'sflzf': '.sflz', 'surrgb': '.sur'}
FORMATS = list(SUFFIX)
# formats that carry a marker at the start which identifies them
MAGIC_FORMATS = [f for f in FORMATS if f not in ('plu', 'plux', 'nms', 'xyz', 'vk6', 'vk7', 'x3p', 'x3pI')]
# formats able to represent non-measured points
NAN_FORMATS = ['plu', 'opd', 'opd4', 'os3d', 'x3p', 'tmd', 'fits', 'gwy', 'al3d', 'sdfb', 'sdfa', 'dat', 'dat3', 'sur',
               'plux', 'sdf16']
TEXT_FORMATS = ['sdfa', 'xyz']
SOME = '\0some name '      # key of an expected layer whose name is not determined


def _img(shape, seed, ch=None):
    r = np.random.RandomState(seed)
    return r.randint(0, 256, size=shape if ch is None else shape + (ch,)).astype('uint8')


class _R:
    """Draws what a format leaves open (further header fields, texts, block orders, units). Plain values when not rich."""

    def __init__(self, o):
        self.rich = bool(o.get('rich'))
        self.dst = 0.9 if o.get('dst') else 0.05
        self.r = random.Random(o['seed'] * 7 + 5)

    def pick(self, plain, *others):
        return self.r.choice((plain,) + others) if self.rich else plain

    def int(self, plain, a, b):
        return self.r.randint(a, b) if self.rich else plain

    def float(self, plain, a, b):
        return round(self.r.uniform(a, b), 3) if self.rich else plain

    def order(self, items):
        items = list(items)
        if self.rich:
            self.r.shuffle(items)
        return items

    def date(self):
        if not self.rich:
            return 2024, 3, 5, 14, 22, 10
        if self.r.random() < self.dst:
            # hours that are left out or come twice where the clocks are changed
            return self.r.choice([(2022, 3, 27, 2, 30, 0), (2022, 10, 30, 2, 30, 0), (2023, 3, 12, 2, 15, 0), (2023, 11, 5, 1, 45, 0)])
        return (self.r.randint(1990, 2037), self.r.randint(1, 12), self.r.randint(1, 28), self.r.randint(0, 23),
                self.r.randint(0, 59), self.r.randint(0, 59))

    def text(self, plain, most):
        if not self.rich:
            return plain
        return ''.join(self.r.choice('abc XYZ_019-+.') for _ in range(self.r.randint(0, most)))


WEEKDAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
LENGTHS = {'m': 1e6, 'mm': 1e3, 'um': 1.0, 'µm': 1.0, 'nm': 1e-3, 'cm': 1e4, 'dm': 1e5, 'pm': 1e-6,
           'μm': 1.0, '㎛': 1.0}        # with a Greek mu, and in one character


def ctime(t):
    import datetime
    w = datetime.date(*t[:3]).weekday()
    return f'{WEEKDAYS[w]} {MONTHS[t[1] - 1]} {t[2]:02d} {t[3]:02d}:{t[4]:02d}:{t[5]:02d} {t[0]}'


def plu(d, sx, sy, o):
    R = _R(o)
    d = d.astype('f4')
    raw = d.copy()
    raw[np.isnan(raw)] = 1000001
    ny, nx = d.shape
    sx, sy = np.float32(sx), np.float32(sy)
    b = ctime(R.date()).encode().ljust(128, b'\x00') + R.text('comment', 200).encode().ljust(256, b'\x00') + b'\x00' * 4
    b += struct.pack('<IIIfffffff', ny, nx, R.int(1, 0, 9), R.float(1.0, 0.1, 3), sx, sy, R.float(0, -5, 5), R.float(0, -5, 5),
                     R.float(1.0, 0, 4), R.float(0, -9, 9))
    ax, ay = R.int(nx, 1, 900), R.int(ny, 1, 900)
    b += struct.pack('<10Id f I I bbbbb 3x I'.replace(' ', ''), R.int(1, 0, 9), 2, 3, 4, 5, ax, ay, nx, ny, 1, 0.1, 10.0, 7, 0, 1, 1, 1, 1, 1, 1)
    b += raw.tobytes() + b'\x00' * 16
    img = _img((ny, nx), o['seed'], 3)
    if o.get('gray'):
        img = np.repeat(img[:, :, :1], 3, axis=2)
    b += img.tobytes()
    lay = {'Grayscale': img[:, :, 0]} if o.get('gray') else {'RGB': img}
    return b, d.astype('f8'), float(sx), float(sy), lay


def _zip(entries, stored=False):
    bio = io.BytesIO()
    with zipfile.ZipFile(bio, 'w', zipfile.ZIP_STORED if stored else zipfile.ZIP_DEFLATED) as z:
        for n, data in entries:
            zi = zipfile.ZipInfo(n, (2024, 3, 5, 14, 22, 10))
            zi.compress_type = zipfile.ZIP_STORED if stored else zipfile.ZIP_DEFLATED
            z.writestr(zi, data)
    return bio.getvalue()


def plux(d, sx, sy, o):
    R = _R(o)
    d = d.astype('f4')
    ny, nx = d.shape
    xml = (f'<xml><GENERAL><DATE>{ctime(R.date())}</DATE><IMAGE_SIZE_X>{nx}</IMAGE_SIZE_X>'
           f'<IMAGE_SIZE_Y>{ny}</IMAGE_SIZE_Y><FOV_X>{sx!r}</FOV_X><FOV_Y>{sy!r}</FOV_Y></GENERAL>'
           + R.pick('<INFO><SIZE>2</SIZE><ITEM_0><NAME>Device</NAME><VALUE>S neox</VALUE></ITEM_0></INFO>', '',
                    '<INFO><SIZE>2</SIZE><ITEM_0><NAME>Comment</NAME><VALUE>a &lt;b&gt; µ</VALUE></ITEM_0><ITEM_1><NAME>Zoom</NAME>'
                    '<VALUE>2</VALUE></ITEM_1></INFO><LAYER_0><FILENAME_Z>LAYER_0.raw</FILENAME_Z></LAYER_0>') + '</xml>').encode()
    img = _img((ny, nx), o['seed'], 3)
    if R.pick(False, False, True):
        img = np.repeat(img[:, :, :1], 3, axis=2)
    elif R.pick(False, False, False, True):
        img[:, :, R.int(1, 1, 2)] = img[:, :, 0]        # two equal channels make no grey image
    entries = [('LAYER_0.raw', d.tobytes()), ('LAYER_0.stack.raw', img.tobytes()), ('index.xml', xml)]
    lay = {'Grayscale': img[:, :, 0]} if (img == img[:, :, :1]).all() else {'RGB': img}
    if R.pick(False, False, True):
        del entries[1]
        lay = {}
    if R.pick(False, True):
        entries.append(('recipe.txt', b'LAYER_0.raw' * 7))
    return _zip(R.order(entries), o.get('stored')), d.astype('f8'), sx, sy, lay


def nms(d, sx, sy, o):
    ny, nx = d.shape
    lo, hi = float(np.nanmin(d)), float(np.nanmax(d))
    if hi <= lo:
        hi = lo + 1
    q = np.round((np.nan_to_num(d, nan=lo) - lo) / (hi - lo) * 60000).astype('u2')
    R = _R(o)
    b = bytearray(R.r.getrandbits(8) if R.rich else 0 for _ in range(3468))
    b[:16] = bytes(16)
    struct.pack_into('<2d', b, 16, lo, hi)
    t = R.date()
    b[1076:1092] = f'{t[0]}-{t[1]:02d}-{t[2]:02d} {t[3]:02d}:{t[4]:02d}'.encode()
    struct.pack_into('<2I', b, 1368, nx, ny)
    struct.pack_into('<2d', b, 1376, sx * 1e3, sy * 1e3)
    h = q / (2 ** 16 - 2) * (hi - lo) + hi
    return bytes(b) + q.tobytes() + _img((ny, nx), o['seed']).tobytes(), h, sx, sy, {'Grayscale': _img((ny, nx), o['seed'])}


def _opd(d, sx, sy, o, itemsize):
    # array blocks are stored column wise: data = rot90(stored.reshape(nx, ny))
    R = _R(o)
    aspect = np.float32(sy / sx)
    px = np.float32(sx / 1e3)
    wl, mult = np.float32(R.float(600.0, 400, 700)), R.int(100, 1, 3000)
    scale = float(wl) * 1e-3 / mult
    ny, nx = d.shape
    if itemsize == 2:
        amax = np.nanmax(np.abs(d)) if np.isfinite(d).any() else 1.0
        amax = amax or 1.0
        scale = amax / 30000
        # keep the header arithmetic exact enough: use the wavelength block for the scale
        wl = np.float32(scale * mult * 1e3)
        scale = float(wl) * 1e-3 / mult
        q = np.round(d / scale)
        q[np.isnan(q)] = 32767
        st = q.astype('<i2')
        exp = st.astype('f8') * scale
        exp[st == 32767] = np.nan
    else:
        q = (d / scale)
        q[np.isnan(q)] = 1e38
        st = q.astype('<f4')
        exp = st.astype('f8') * scale
        exp[st == np.float32(1e38)] = np.nan
    stored = np.rot90(st, -1)         # shape (nx, ny)
    arr = struct.pack('<HHH', nx, ny, itemsize) + np.ascontiguousarray(stored).tobytes()
    img = _img((ny, nx), o['seed'])
    iarr = struct.pack('<HHH', nx, ny, 1) + np.ascontiguousarray(np.rot90(img, -1)).tobytes()
    blocks = [('RAW_DATA', 3, arr), ('Image', 3, iarr), ('Wavelength', 7, struct.pack('<f', wl)),
              ('Mult', 6, struct.pack('<h', mult)), ('Aspect', 7, struct.pack('<f', aspect)),
              ('Pixel_size', 7, struct.pack('<f', px)), ('Title', 5, b'sample one'.ljust(20, b'\x00')),
              ('Date', 5, b'03/05/24\x00\x00'), ('Time', 5, b'14:22:10\x00\x00')]
    lay = {'Grayscale': img}
    if R.rich:
        if R.pick(False, False, True):
            blocks = [x for x in blocks if x[0] != 'Image']
            lay = {}
        if R.pick(False, False, True):
            gone = R.r.choice([('Date', 'Time'), ('Date',), ('Time',)])
            blocks = [x for x in blocks if x[0] not in gone]
        blocks += R.r.sample([('Note', 5, b'\x00' * 40), ('Serial', 12, struct.pack('<i', -5)), ('Temp', 8, struct.pack('<d', 21.5)),
                              ('OPD_alt', 5, R.text('', 60).encode()), ('Magnification', 7, struct.pack('<f', 20.0)),
                              ('ImageModificat', 6, struct.pack('<h', 3)), ('Empty', 5, b'')], R.r.randint(0, 4))
        blocks = R.order(blocks)
    out = b'\x01\x00' + struct.pack('<16shlH', b'Directory', 1, 24 * (len(blocks) + 1), 0)
    for n, t, c in blocks:
        out += struct.pack('<16shlH', n.encode(), t, len(c), 0)
    for n, t, c in blocks:
        out += c
    step = float(px) * 1e3
    return out, exp, step, step * float(aspect), lay


def opd(d, sx, sy, o):
    return _opd(d, sx, sy, o, 2)


def opd4(d, sx, sy, o):
    return _opd(d, sx, sy, o, 4)


def os3d(d, sx, sy, o):
    d = d.astype('f4')
    raw = d.copy()
    raw[np.isnan(raw)] = -3.4028235e38
    ny, nx = d.shape
    R = _R(o)
    t = R.date()
    ident = R.text('sample', 60).encode() + R.pick(b'', 'µé'.encode())
    date = f'{t[0]}-{t[1]:02d}-{t[2]:02d} {t[3]:02d}:{t[4]:02d}:{t[5]:02d}'.encode()
    b = b'OmniSurf3D' + struct.pack('<iii', R.int(1, 0, 3), R.int(0, 0, 9), len(ident)) + ident + struct.pack('<i', len(date)) + date
    b += struct.pack('<iidddd', nx, ny, sx, sy, R.float(0, -99, 99), R.float(0, -99, 99)) + raw.tobytes()
    if R.pick(False, False, True):
        return b + b'\x00', d.astype('f8'), sx, sy, {}
    from PIL import Image
    img = _img((ny, nx), o['seed'], 4)
    bio = io.BytesIO()
    Image.fromarray(img, 'RGBA').save(bio, 'PNG')
    return b + b'\x01' + bio.getvalue(), d.astype('f8'), sx, sy, {'RGBA': img}


def _x3p(d, sx, sy, o, dt):
    R = _R(o)
    ny, nx = d.shape
    t = R.date()
    if dt == 'D':
        dt = R.pick('D', 'F')
    else:
        dt = R.pick('I', 'L')
    if dt in 'DF':
        raw = (d * 1e-6).astype('<f8' if dt == 'D' else '<f4')
    else:
        raw = np.round(np.nan_to_num(d - np.nanmin(d))).astype('<u2' if dt == 'I' else '<u4')
    place = R.pick('bindata/data.bin', 'data.bin', 'bindata/topo_1.bin')
    xml = (f'<?xml version="1.0" encoding="UTF-8"?><p:ISO5436_2 xmlns:p="http://www.opengps.eu/2008/ISO5436_2">'
           f'<Record1><Revision>ISO5436 - 2000</Revision><FeatureType>SUR</FeatureType><Axes>'
           f'<CX><AxisType>I</AxisType><DataType>D</DataType><Increment>{sx * 1e-6!r}</Increment></CX>'
           f'<CY><AxisType>I</AxisType><DataType>D</DataType><Increment>{sy * 1e-6!r}</Increment></CY>'
           f'<CZ><AxisType>A</AxisType><DataType>{dt}</DataType></CZ></Axes></Record1>'
           + R.pick('', f'<Record2><Date>{t[0]}-{t[1]:02d}-{t[2]:02d}T{t[3]:02d}:{t[4]:02d}:{t[5]:02d}</Date></Record2>',
                    '<Record2><Date>2024-03-05T14:22:10</Date><Creator>me</Creator><Instrument><Manufacturer>x</Manufacturer>'
                    '<Model>y</Model></Instrument><CalibrationDate>2020-01-02T03:04:05</CalibrationDate><Comment>SizeX</Comment></Record2>') +
           f'<Record3><MatrixDimension><SizeX>{nx}</SizeX><SizeY>{ny}</SizeY><SizeZ>1</SizeZ></MatrixDimension>'
           f'<DataLink><PointDataLink>{place}</PointDataLink></DataLink></Record3></p:ISO5436_2>').encode()
    md5 = hashlib.md5(xml).hexdigest().encode() + R.pick(b' *main.xml\n', b'  main.xml\r\n', b'')
    entries = [('main.xml', xml), (place, raw.tobytes()), ('md5checksum.hex', md5)]
    if R.pick(False, True):
        entries.append(('bindata/valid.bin', b'\x01' * 9))
    b = _zip(R.order(entries), o.get('stored'))
    return b, raw.astype('f8') * 1e6, float(repr(sx * 1e-6)) * 1e6, float(repr(sy * 1e-6)) * 1e6, {}


def x3p(d, sx, sy, o):
    return _x3p(d, sx, sy, o, 'D')


def x3pI(d, sx, sy, o):
    return _x3p(d, sx, sy, o, 'I')


def xyz(d, sx, sy, o):
    R = _R(o)
    ny, nx = d.shape
    d = np.nan_to_num(d)
    sep = R.pick(' ', '\t', '   ')
    x0, y0 = R.float(0, -2000, 2000), R.float(0, -2000, 2000)
    nl = R.pick('\n', '\r\n')
    cells = [(j, i) for j in range(ny) for i in range(nx)]
    if R.pick(False, False, True):
        cells = [(j, i) for i in range(nx) for j in range(ny)]      # listed column by column
    lines = [sep.join((f'{(x0 + i * sx) * 1e-6:.12e}', f'{(y0 + j * sy) * 1e-6:.12e}', f'{d[j, i] * 1e-6:.12e}'))
             for j, i in cells]
    t = R.pick('', '# x y z' + nl, '# 1 2 3' + nl + nl) + nl.join(lines) + R.pick(nl, '')
    e = np.array([[float(f'{d[j, i] * 1e-6:.12e}') for i in range(nx)] for j in range(ny)])
    return t.encode(), e * 1e6, sx, sy, {}


def zmg(d, sx, sy, o):
    d = np.nan_to_num(d)
    ny, nx = d.shape
    amax = max(np.max(np.abs(d)), 1e-6)
    sz = np.float32(amax / 30000)
    q = np.round(d / sz).astype('<i2')
    R = _R(o)
    b = bytearray(R.int(0, 0, 255) for _ in range(85))
    b[:16] = b'Zeta-Instruments'
    c = R.text('some comment', 400).encode()
    b = (bytes(b) + struct.pack('<II4sfff8sI', nx, ny, R.pick(b'\x00' * 4, b'\x07\x01\xff\x10'), sx, sy, sz,
                                R.pick(b'\x00' * 8, b'\x01\x02\x03\x04\xfe\xfd\xfc\xfb'), len(c)) + b'\x00' * 84 + c)
    exp = (q * float(sz)).astype('f8')
    return b + q.tobytes(), exp, float(np.float32(sx)), float(np.float32(sy)), {}


def tmd(d, sx, sy, o):
    d = d.astype('f4')
    R = _R(o)
    ny, nx = d.shape
    c = R.text('created by TrueMap', 20).ljust(20).encode() + b'\r\n\x00'
    b = struct.pack('<32s24sIIffff', b'Binary TrueMap Data File v2.0\r\n\x00', c, nx, ny,
                    nx * sx, ny * sy, R.float(0, -50, 50), R.float(0, -50, 50))
    return (b + d.tobytes(), d.astype('f8'), float(np.float32(nx * sx)) / nx, float(np.float32(ny * sy)) / ny, {})


def _fcard(k, v):
    if isinstance(v, str):
        v = f"'{v}'"
    elif isinstance(v, bool):
        v = 'T' if v else 'F'
    return f'{k:<8}= {v}'.ljust(80)


def _fblock(cards):
    s = ''.join(cards) + 'END'.ljust(80)
    s += ' ' * (-len(s) % 2880)
    return s.encode()


def fits(d, sx, sy, o):
    R = _R(o)
    ny, nx = d.shape
    ux, uz = R.pick('um', 'm', 'mm', 'nm'), R.pick('um', 'm', 'mm', 'nm')
    mx, mz = R.pick(1.0, 10.0, 0.5), R.pick(1.0, 2.0, 0.001)
    more = ['COMMENT made with = / and the like', 'HISTORY levelled, then filtered', "OBJECT  = 'a=b'           / what it is",
            'ORIGIN  =                    3 / a number', 'DATE    = \'2024-03-05T14:22:10\'']
    cards = [_fcard('UNITX', ux), _fcard('UNITZ', uz), f'HIERARCH UnitMultiplicatorDeltas = {mx!r}'.ljust(80),
             f'HIERARCH UnitMultiplicatorHeights = {mz!r}'.ljust(80), _fcard('DELTAX', float(sx / mx / LENGTHS[ux])),
             _fcard('DELTAY', float(sy / mx / LENGTHS[ux]))]
    if R.rich:
        cards += [x.ljust(80) for x in R.r.sample(more, R.r.randint(0, len(more)))]
        cards += [_fcard(f'KEY{i}', i * 3) for i in range(R.pick(0, 0, 5, 40))]
    b = _fblock([_fcard('SIMPLE', True), _fcard('BITPIX', 8), _fcard('NAXIS', 0)] + R.order(cards))
    mask = ~np.isnan(d)
    bits = R.pick(-32, -32, -64)
    h = (np.nan_to_num(d) / mz / LENGTHS[uz]).astype('>f4' if bits == -32 else '>f8')
    img = _img((ny, nx), o['seed'])
    exts = [('HEIGHTS', h, bits), ('MASK', mask.astype('u1'), 8), ('TEXTURE', img, 8)]
    lay = {'Texture': img}
    if mask.all() and R.pick(False, True):
        del exts[1]
    if R.pick(False, False, True):
        exts = exts[-1:] + exts[:-1]
    if R.rich and R.pick(False, True):
        deep = (_img((ny, nx), o['seed'] + 1).astype('i2') * 100).astype('>i2')
        exts.append(('DEEP', deep, 16))
        lay['Deep'] = deep
    for name, a, bp in exts:
        head = [_fcard('XTENSION', 'IMAGE'), _fcard('BITPIX', bp), _fcard('NAXIS', 2), _fcard('NAXIS1', nx), _fcard('NAXIS2', ny)]
        if R.pick(False, False, False, True):
            head += ['COMMENT a long header'.ljust(80)] * R.int(1, 1, 40)
        b += _fblock(head + [_fcard('EXTNAME', name)])
        raw = a.tobytes()
        # writers in the wild (and the FITS standard) add no extra block when the data ends on a block boundary
        b += raw + b'\x00' * (-len(raw) % 2880)
    exp = h.astype('f8') * mz * LENGTHS[uz]
    exp[~mask] = np.nan
    return b, exp, sx, sy, lay


def fits_unmasked(b, npoints):
    """Where a fits file can end so that what is left is a readable file without its mask."""
    name = b.find(b"'HEIGHTS'")
    start = b.rfind(b'XTENSION', 0, name)
    end = b.find(b'END' + b' ' * 77, start) + 80
    data = start + (end - start + 2879) // 2880 * 2880
    bits = int(b[b.find(b'BITPIX', start) + 9:].split()[0])
    last = data + npoints * abs(bits) // 8
    mask = b.find(b"'MASK'", data)
    if mask < 0:
        return range(0)
    return range(last, b.rfind(b'XTENSION', 0, mask) + 9)


def _gstr(s):
    return s.encode() + b'\x00'


def _gobj(name, items):
    body = b''
    for k, t, v in items:
        body += _gstr(k) + t.encode()
        if t == 'i':
            body += struct.pack('<i', v)
        elif t == 'd':
            body += struct.pack('<d', v)
        elif t == 'b':
            body += struct.pack('<b', v)
        elif t == 's':
            body += _gstr(v)
        elif t == 'o':
            body += v
        elif t == 'D':
            body += struct.pack('<I', v.size) + v.astype('<f8').tobytes()
        elif t == 'S':
            body += struct.pack('<I', len(v)) + b''.join(_gstr(x) for x in v)
    return _gstr(name) + struct.pack('<I', len(body)) + body


def gwy(d, sx, sy, o):
    R = _R(o)
    ny, nx = d.shape
    uxy, uz = R.pick('m', 'mm', 'µm', 'nm', 'um', 'cm', 'μm', '㎛', 'pm'), R.pick('m', 'µm', 'mm', 'nm', 'um', 'dm', 'μm', '㎛', 'pm')
    unit = lambda u: _gobj('GwySIUnit', [('unitstr', 's', u)])
    mask = np.isnan(d)
    z = np.nan_to_num(d) / LENGTHS[uz]

    def field(a, zunit):
        fy, fx = a.shape
        it = [('xres', 'i', fx), ('yres', 'i', fy), ('xreal', 'd', fx * sx / LENGTHS[uxy]), ('yreal', 'd', fy * sy / LENGTHS[uxy]),
              ('si_unit_xy', 'o', unit(uxy))]
        if R.pick(False, True):
            it += [('xoff', 'd', 0.5), ('yoff', 'd', -0.25)]
        if zunit:
            it.append(('si_unit_z', 'o', unit(zunit)))
        return _gobj('GwyDataField', R.order(it) + [('data', 'D', a.ravel())])
    img = _img((ny, nx), o['seed']).astype('f8')
    if not R.rich:
        items = [('/0/data', 'o', field(z, uz)), ('/0/data/title', 's', 'Height')]
        if mask.any():
            items.append(('/0/mask', 'o', field(mask.astype('f8'), False)))
        items += [('/1/data', 'o', field(img, False)), ('/1/data/title', 's', 'Intensity'),
                  ('/0/meta', 'o', _gobj('GwyContainer', [('Operator', 's', 'someone')])), ('/names', 'S', ['a', 'b'])]
        lay = {'Intensity': img}
    else:
        # the height channel is, in this order: one with a length as unit; if there are several, one whose title says so; of
        # these the one with the lowest number
        nums = R.r.sample(range(0, 130), 7)
        named = R.pick(True, False)
        k = R.r.randint(0, 3)
        group, rest = sorted(nums[:1 + k]), nums[1 + k:]
        titled = (lambda: R.r.choice(['Height', 'Topography', 'topo 1', 'HEIGHT retrace'])) if named else (
            lambda: R.r.choice(['Z', 'Sensor', 'Channel', None]))
        blocks = []
        lay = {}
        for j, n in enumerate(group):
            t = titled()
            if named and j and R.pick(False, True):
                n = max(n, group[0] + 1)
            it = [(f'/{n}/data', 'o', field(z if j == 0 else z * 0.5 + j, uz))]
            if t is not None:
                it.append((f'/{n}/data/title', 's', t))
            if (j == 0 and mask.any()) or (j and R.pick(False, True)):
                it.append((f'/{n}/mask', 'o', field(mask.astype('f8') if j == 0 else (img > 128).astype('f8'), False)))
            if R.pick(False, True):
                it.append((f'/{n}/meta', 'o', _gobj('GwyContainer', [('Operator', 's', 'someone'), ('Date', 's', '2024')])))
            blocks.append(it)
        for n in rest[:R.r.randint(2 if o.get('dup') else 0, 3)]:
            what = 'image' if o.get('dup') else R.r.choice(['image', 'other unit', 'length'] if named else ['image', 'other unit'])
            if what == 'image':
                im = _img((ny, nx), o['seed'] + n).astype('f8')
                t = f'{R.r.choice(["Intensity", "Error", "Height image"])} {n}'
                if o.get('dup'):
                    # several channels with one title: the recorded layer must be found under some name
                    t = 'Phase'
                    lay[f'{SOME}{n}'] = im
                else:
                    lay[t] = im
                blocks.append([(f'/{n}/data', 'o', field(im, False)), (f'/{n}/data/title', 's', t)])
            else:
                blocks.append([(f'/{n}/data', 'o', field(z * 2 + 1, 'V' if what == 'other unit' else uz)),
                               (f'/{n}/data/title', 's', 'Height V' if what == 'other unit' else 'Lateral')])
        blocks += R.r.sample([[('/names', 'S', ['a', 'b'])], [('/filename', 's', '/0/data')], [('/500/graph/graph/1', 's', 'x')],
                              [('/flag', 'b', 1)], [('/0/base/palette', 's', 'Gray')]], R.r.randint(0, 5))
        R.r.shuffle(blocks)
        items = [x for it in blocks for x in it]
    exp = z * LENGTHS[uz]
    exp[mask] = np.nan
    return b'GWYP' + _gobj('GwyContainer', items), exp, sx, sy, lay


def vk4(d, sx, sy, o):
    R = _R(o)
    ny, nx = d.shape
    d = np.nan_to_num(d)
    zpd = R.pick(100, 1, 1000, 137)          # pm per digit
    d = d - d.min()
    q = np.round(d * 1e6 / zpd).astype('<u4')
    bits = 32
    if R.pick(False, False, True):
        zpd = max(zpd, int(d.max() * 1e6 / 60000) + 1)
        q = np.round(d * 1e6 / zpd).astype('<u2')
        bits = 16
    xl, yl = int(round(sx * 1e6)), int(round(sy * 1e6))
    b = b'VK4_' + b'\x00' * 8
    off_len = 4 * 4 + 8 + 4 + 8 + 4 * 8
    meas = 12 + off_len
    # measurement conditions, in layout order
    N = lambda n: [R.int(0, 0, 2 ** 31) for _ in range(n)]
    mc = struct.pack('<7Ii13I', 300, *R.date(), R.int(0, -720, 720), *N(10), 10, *N(2))
    mc += b'\x00' * 12
    mc += struct.pack('<5I', 500, *N(4)) + b'\x00' * 4
    mc += struct.pack('<15I', *N(12), xl, yl, zpd)
    mc += b'\x00' * 20 + struct.pack('<I', *N(1)) + b'\x00' * 4 + struct.pack('<18I', *N(18))
    pos = meas + len(mc)
    rgb1, rgb2 = _img((ny, nx), o['seed'], 3), _img((ny, nx), o['seed'] + 1, 3)
    light = np.random.RandomState(o['seed'] + 2).randint(0, 60000, size=(ny, nx)).astype('<u2')

    def rgb(a):
        return struct.pack('<5I', nx, ny, 24, 0, a.size) + np.flip(a, axis=2).tobytes()

    def hl(a, bits):
        return struct.pack('<7I', nx, ny, bits, 0, a.nbytes, *N(2)) + PAL + a.tobytes()
    PAL = bytes(range(256)) * 3 if R.pick(False, True) else b'\x00' * 768
    title = R.text('test', 30)
    secs = [rgb(rgb1), rgb(rgb2), hl(light, 16), hl(q, bits),
            struct.pack('<I', len(title)) + title.encode('utf-16-le') + struct.pack('<I', 3) + '50x'.encode('utf-16-le')]
    # the sections lie in any order, with gaps
    offs = [0] * 5
    placed = b''
    for i in R.order(range(5)):
        gap = bytes(R.int(0, 0, 9))
        offs[i] = pos + len(gap)
        pos += len(gap) + len(secs[i])
        placed += gap + secs[i]
    ot = struct.pack('<4I8xI8x8I', meas, offs[0], offs[1], offs[2], offs[3], 0, 0, 0, 0, 0, 0, 0, offs[4])
    assert len(ot) == off_len
    b += ot + mc + placed
    return b, q * (zpd * 1e-6), xl * 1e-6, yl * 1e-6, {'RGB': rgb1, 'Laser+RGB': rgb2, 'Laser': light}


def _vk67(d, sx, sy, o, magic):
    inner, e, x, y, l = vk4(d, sx, sy, o)
    bio = io.BytesIO()
    bio.write(magic + b'\x00' * 13)
    with zipfile.ZipFile(bio, 'a', zipfile.ZIP_DEFLATED) as z:
        zi = zipfile.ZipInfo('Vk4File', (2024, 3, 5, 14, 22, 10))
        zi.compress_type = zipfile.ZIP_DEFLATED
        z.writestr(zi, inner)
    return bio.getvalue(), e, x, y, l


def vk6(d, sx, sy, o):
    return _vk67(d, sx, sy, o, b'VK6')


def vk7(d, sx, sy, o):
    return _vk67(d, sx, sy, o, b'VK7')


def al3d(d, sx, sy, o):
    ny, nx = d.shape
    raw = (d * 1e-6).astype('<f4')
    nan = np.isnan(raw)
    R = _R(o)
    inv = np.float32(R.pick(-1e10, np.nan, 1e30, -0.5))
    raw[nan] = inv
    at = R.pick(845, 1000, 2001)
    b = b'AliconaImaging\x00\r\n'
    tags = [('Version', '1'), ('TagCount', '9'), ('Cols', nx), ('IconOffset', 0), ('DepthImageOffset', at),
            ('InvalidPixelValue', float(inv)), ('PixelSizeYMeter', repr(sy * 1e-6)), ('PixelSizeXMeter', repr(sx * 1e-6)),
            ('NumberOfPlanes', 0), ('Rows', ny), ('TextureImageOffset', 0)]
    if R.rich:
        rest = tags[2:] + [(f'Note{i}', R.text('', 28)) for i in range(R.int(0, 0, 3))]
        tags = [tags[0], ('TagCount', str(len(rest)))] + R.order(rest)
    for k, v in tags:
        b += struct.pack('20s30s2s', k.encode(), str(v).encode(), b'\r\n')
    b += R.pick(b'\x00', b'\x55') * (at - len(b) - 2) + b'\r\n'
    exp = raw.astype('f8') * 1e6
    exp[nan] = np.nan
    return b + raw.tobytes(), exp, sx, sy, {}


def _sdf_date(t):
    return f'{t[2]:02d}{t[1]:02d}{t[0]}{t[3]:02d}{t[4]:02d}'


def _sdf_head(nx, ny, sx, sy, zs, dt, R):
    d1, d2 = _sdf_date(R.date()).encode(), _sdf_date(R.date()).encode()
    return struct.pack('<10s12s12sHHddddBBB', R.text('surfer', 10).ljust(10).encode(), d1, d2, nx, ny, sx * 1e-6,
                       sy * 1e-6, zs, R.float(-1.0, -1, 1), 0, dt, 0)


def sdfb(d, sx, sy, o):
    R = _R(o)
    ny, nx = d.shape
    zs = R.pick(1e-6, 1.0, 1e-9, 3.7e-5)
    h = (d / (zs * 1e6)).astype('<f8')
    return (b'bISO-1.0' + _sdf_head(nx, ny, sx, sy, zs, 7, R) + h.tobytes(), h * (zs * 1e6), sx, sy, {})


def sdf16(d, sx, sy, o):
    ny, nx = d.shape
    R = _R(o)
    amax = np.nanmax(np.abs(d)) or 1.0
    dt = R.pick(5, 6)
    s = amax / (30000 if dt == 5 else 2 ** 30)
    bad = -32768 if dt == 5 else -2 ** 31
    q = np.round(d / s)
    q[np.isnan(q)] = bad
    q = q.astype('<i2' if dt == 5 else '<i4')
    e = q * s
    e[q == bad] = np.nan
    return b'bISO-1.0' + _sdf_head(nx, ny, sx, sy, s * 1e-6, dt, R) + q.tobytes(), e, sx, sy, {}


def sdfa(d, sx, sy, o):
    R = _R(o)
    ny, nx = d.shape
    zs = R.pick(1e-6, 1.0, 1e-9, 3.7e-5)
    dt = 7
    nl = R.pick('\n', '\r\n')
    if R.pick(False, False, True):
        dt = R.pick(5, 6)
        zs = (np.nanmax(np.abs(d)) or 1.0) / 30000 * 1e-6
        num = lambda v: 'BAD' if np.isnan(v) else str(int(round(v / (zs * 1e6))))
    else:
        p = R.int(9, 7, 12)
        num = lambda v: 'BAD' if np.isnan(v) else f'{v / (zs * 1e6):.{p}e}'
    d1, d2 = _sdf_date(R.date()), _sdf_date(R.date())
    sp = R.pick(' = ', '=', '   =  ')
    fields = [('ManufacID', R.text('surfer', 10).replace('.', '') or 'x'), ('CreateDate', d1), ('ModDate', d2), ('NumPoints', nx),
              ('NumProfiles', ny), ('Xscale', repr(sx * 1e-6)), ('Yscale', repr(sy * 1e-6)), ('Zscale', repr(float(zs))),
              ('Zresolution', R.pick('-1', '0.001', '1e-9')), ('Compression', 0), ('DataType', dt), ('CheckType', 0)]
    h = 'aISO-1.0' + nl + nl.join(f'{k}{sp}{v}' for k, v in fields) + nl + '*' + nl
    cells = [num(v) for v in d.ravel()]
    width = R.pick(nx, 1, 7, 10)
    gap = R.pick(' ', '  ', '\t')
    rows = nl.join(gap.join(cells[i:i + width]) for i in range(0, len(cells), width))
    e = np.array([np.nan if c == 'BAD' else float(c) * (zs * 1e6) for c in cells]).reshape(ny, nx)
    trailer = R.pick('< OperatorName > Tom Jones < / OperatorName >', '', '<Note>a b c</Note>')
    return (h + rows + nl + '*' + nl + trailer + nl + '*' + nl).encode(), e, sx, sy, {}


def _dat(d, sx, sy, o, fmt):
    ny, nx = d.shape
    R = _R(o)
    inf, wl, ob = np.float32(R.pick(0.5, 1.0, 0.25)), np.float32(R.pick(6.33e-7, 5.1e-7)), np.float32(R.pick(1.0, 1.13))
    res = R.pick(1, 2) if fmt == 1 else R.pick(1, 2, 3)
    digits = {1: 4096, 2: 32768, 3: 131072}[res]
    unit = float(inf) * float(wl) * float(ob) / digits * 1e6     # um per digit
    q = np.round(d / unit)
    bad = ~np.isfinite(q) | (np.abs(q) > 2 ** 30)
    q[bad] = 2147483640
    q = q.astype('>i4')
    step = np.float32(sx * 1e-6)
    img = np.random.RandomState(o['seed']).randint(0, 200, size=(ny, nx)).astype('>u2')
    without = R.pick(False, False, True)
    vals = {'header_format': fmt, 'header_size': 4096 if fmt == 3 else 834, 'ac_width': nx, 'ac_height': ny,
            'ac_n_buckets': 1, 'ac_range': 255, 'ac_n_bytes': nx * ny * 2, 'cn_width': nx, 'cn_height': ny,
            'cn_n_bytes': nx * ny * 4, 'intf_scale_factor': inf, 'wavelength_in': wl, 'obliquity_factor': ob,
            'lateral_res': step, 'phase_res': res}
    if without:
        vals.update(ac_width=0, ac_height=0, ac_n_buckets=0, ac_n_bytes=0)
    out = bytearray(4096 if fmt == 3 else 834)
    if R.rich:
        out[80:162] = R.text('', 80).encode().ljust(82, b'\x00')      # comment
        struct.pack_into('>i', out, 76, R.int(0, 0, 2 ** 31 - 1))       # time stamp
        struct.pack_into('>hh', out, 48, R.int(0, 0, 99), R.int(0, 0, 99))
        struct.pack_into('>hh', out, 64, R.int(0, 0, 99), R.int(0, 0, 99))
    out[:4] = DATMAGIC[fmt]
    for key, (off, f) in DAT_OFFS.items():
        if key in vals:
            struct.pack_into(f, out, off, vals[key])
    e = q.astype('f8') * (float(inf) * float(wl) * float(ob) / digits) * 1e6
    e[bad] = np.nan
    if without:
        return bytes(out) + q.tobytes(), e, float(step) * 1e6, float(step) * 1e6, {}
    return bytes(out) + img.tobytes() + q.tobytes(), e, float(step) * 1e6, float(step) * 1e6, {'Intensity': img}


# MetroPro header offsets (from the published MetroPro format description)
DATMAGIC = {1: b'\x88\x1b\x03\x6f', 2: b'\x88\x1b\x03\x70', 3: b'\x88\x1b\x03\x71'}
DAT_OFFS = {'header_format': (4, '>H'), 'header_size': (6, '>I'), 'ac_width': (52, '>H'), 'ac_height': (54, '>H'),
            'ac_n_buckets': (56, '>H'), 'ac_range': (58, '>h'), 'ac_n_bytes': (60, '>I'), 'cn_width': (68, '>H'),
            'cn_height': (70, '>H'), 'cn_n_bytes': (72, '>I'), 'intf_scale_factor': (164, '>f'),
            'wavelength_in': (168, '>f'), 'obliquity_factor': (176, '>f'), 'lateral_res': (184, '>f'),
            'phase_res': (218, '>h')}


def dat(d, sx, sy, o):
    return _dat(d, sx, sy, o, 1 + o['seed'] % 2)


def dat3(d, sx, sy, o):
    return _dat(d, sx, sy, o, 3)


def _sur_head(code, nx, ny, bits, mn, mx, sx, sy, sz, off, stud, nm, csize, comment, R=None, units=('µm', 'µm', 'µm'),
              private=b'', names=('obj', 'op')):
    ux, uy, uz = (x.encode('latin1').ljust(16) for x in units)
    s = lambda t, n: t.encode().ljust(n)
    if R is not None and R.rich:
        t = R.date()
        return struct.pack(
            '<12shhhh30s30shhhhhf4xhiiiiifff16s16s16s16s16s16s16s16s16sfffhhh12xhhhhhhhfI6xhh128sfffff13s13s',
            code, 0, 1, 1, stud, s(names[0], 30), s(names[1], 30), R.int(0, 0, 99), R.int(0, 0, 10), R.int(0, 0, 1), nm,
            R.int(0, 0, 1), R.float(0.0, 0, 1), bits, mn, mx, nx, ny, nx * ny, sx, sy, sz, s(R.text('X', 16), 16), s('Y', 16),
            s(R.text('Z', 16), 16), ux, uy, uz, s(R.pick('m', 'mm', 'km'), 16), s('mm', 16), s(R.pick('m', 'nm', 'V'), 16),
            R.float(1.0, 0.1, 9), 1.0, R.float(1.0, 0.1, 9), R.int(1, 0, 1), R.int(0, 0, 1), R.int(0, 0, 1), t[5], t[4], t[3],
            t[2], t[1], t[0], R.int(1, 0, 6), R.float(0.0, 0, 99), csize, len(comment), len(private), s(R.text('zone', 128), 128),
            R.float(0.0, -9, 9), R.float(0.0, -9, 9), off, R.float(0.0, 0, 1), 0.0, s('', 13), s('', 13))
    u = ux
    return struct.pack('<12shhhh30s30shhhhhf4xhiiiiifff16s16s16s16s16s16s16s16s16sfffhhh12xhhhhhhhfI6xhh128sfffff13s13s',
                       code, 0, 1, 1, stud, s('obj', 30), s('op', 30), 0, 0, 0, nm, 0, 0.0, bits, mn, mx, nx, ny,
                       nx * ny, sx, sy, sz, s('X', 16), s('Y', 16), s('Z', 16), u, u, u, u, u, u, 1.0, 1.0, 1.0, 1, 0,
                       0, 10, 22, 14, 5, 3, 2024, 1, 0.0, csize, len(comment), 0, s('zone', 128), 0.0, 0.0, off, 0.0,
                       0.0, s('', 13), s('', 13))


def _sur(d, sx, sy, o, bits, mode):
    R = _R(o)
    ny, nx = d.shape
    units = tuple(R.pick('µm', 'mm', 'nm', 'm') for _ in range(3))
    fx, fy, fz = (LENGTHS[u] for u in units)
    off = np.float32(R.pick(0.0, 1.5, -20.25) if units[2] == 'µm' else 0.0)
    top = 30000 if bits == 16 else 2 ** 30
    amax = np.nanmax(np.abs(d)) or 1.0
    sz = np.float32(amax / top / fz)
    nan = np.isnan(d)
    q = np.round(np.nan_to_num(d) / (float(sz) * fz))
    mn, mx = int(q.min()), int(q.max())
    q[nan] = mn - 2
    q = q.astype('<i2' if bits == 16 else '<i4')
    sx, sy = np.float32(sx / fx), np.float32(sy / fy)
    comment = b'hello' if o['seed'] % 2 else b''
    private = b''
    if R.rich:
        comment, private = R.text('', 300).encode(), R.text('', 90).encode()
    e = q.astype('f8') * (float(sz) * fz) + float(off)
    e[nan] = np.nan
    raw = q.tobytes()
    lay = {}
    kw = {'R': R, 'units': units, 'private': private}
    ex, ey = float(sx) * fx, float(sy) * fy
    if mode == 'z':
        k = max(1, len(raw) // 2)
        parts = [raw[:k], raw[k:]]
        if R.rich:
            parts = [raw[i:i + k] for i in range(0, len(raw), k)] if R.pick(False, True) else [raw]
        zs = [zlib.compress(x) for x in parts]
        body = struct.pack('<I', len(parts)) + b''.join(struct.pack('<2I', len(x), len(z)) for x, z in zip(parts, zs)) + b''.join(zs)
        h = _sur_head(b'DSCOMPRESSED', nx, ny, bits, mn, mx, sx, sy, sz, off, 2, int(nan.any()), len(body), comment, **kw)
        return h + comment + private + body, e, ex, ey, lay
    stud = 16 if mode == 'rgb' else 2
    if not mode and R.pick(False, False, False, True):
        stud = 1           # as Gwyddion exports a surface
        kw['names'] = ('SCRATCH', 'csm')
    h = _sur_head(b'DIGITAL SURF', nx, ny, bits, mn, mx, sx, sy, sz, off, stud, int(nan.any()), 0, comment, **kw)
    b = h + comment + private + raw
    if mode == 'rgb':
        ims = [np.random.RandomState(o['seed'] + i).randint(0, 256, size=(ny, nx)).astype('<i2') for i in range(4)]
        if R.pick(False, False, True):
            ims[1] = ims[2] = ims[0]
        for im in ims:
            b += _sur_head(b'DIGITAL SURF', nx, ny, 16, 0, 255, sx, sy, 1.0, 0.0, 10, 0, 0, b'') + im.tobytes()
        lay = {'Grayscale': ims[0]} if (ims[0] == ims[1]).all() and (ims[0] == ims[2]).all() else {'RGB': np.stack(ims[:3], axis=-1)}
        lay['Intensity'] = ims[3]
    return b, e, ex, ey, lay


def sur(d, sx, sy, o):
    return _sur(d, sx, sy, o, 32, '')


def sur16(d, sx, sy, o):
    return _sur(d if o.get('rich') else np.nan_to_num(d), sx, sy, o, 16, '')


def surz(d, sx, sy, o):
    return _sur(d if o.get('rich') else np.nan_to_num(d), sx, sy, o, 32, 'z')


def surrgb(d, sx, sy, o):
    return _sur(d if o.get('rich') else np.nan_to_num(d), sx, sy, o, 32, 'rgb')


def _sflz(d, sx, sy, o, scaled):
    R = _R(o)
    ny, nx = d.shape
    comp = o['seed'] % 3
    c = (lambda x: x, zlib.compress, lzma.compress)[comp]
    img = _img((ny, nx), o['seed'], 3)
    if scaled:
        d = np.nan_to_num(d)
        lo, hi = float(d.min()), float(d.max())
        if hi == lo:
            hi = lo + 1
        dt = np.dtype(R.pick('<u4', '<u2', '<i4', '<i2'))
        info = np.iinfo(dt)
        q = (np.round((d - lo) / (hi - lo) * (float(info.max) - float(info.min))) + info.min).astype(dt)
        e = (q.astype('f8') - info.min) / (float(info.max) - float(info.min)) * (hi - lo) + lo
    else:
        lo = hi = 0.0
        q = d.astype(R.pick('<f8', '<f4'))
        e = q.astype('f8')
    layers = [('Optical', img)]
    if R.rich:
        pool = [('Optical', img), ('Größe µ', _img((ny, nx), o['seed'] + 1)), ('RGBA', _img((ny, nx), o['seed'] + 2, 4)),
                ('Deep', _img((ny, nx), o['seed'] + 3).astype('<u2') * 200), ('topo', _img((ny, nx), o['seed'] + 4))]
        layers = R.r.sample(pool, R.r.randint(0, 4))
    b = b'SFLZ' + b'1.0'.ljust(10)
    for fmt, v in (('d', sx), ('d', sy), ('?', scaled), ('d', lo), ('d', hi), ('H', 1 + len(layers)), ('H', R.int(0, 0, 9)),
                   ('B', comp)):
        b += struct.pack(fmt, v)
    for name, a in [('topography', q)] + layers:
        z = c(a.tobytes())
        name = name.encode()
        b += struct.pack('<H', len(name)) + name + struct.pack('<I', nx) + struct.pack('<I', ny)
        b += struct.pack('<B', 1 if a.ndim == 2 else a.shape[2]) + a.dtype.str.encode().ljust(3) + struct.pack('<I', len(z)) + z
    return b, e, sx, sy, dict(layers)


def sflz(d, sx, sy, o):
    return _sflz(d, sx, sy, o, True)


def sflzf(d, sx, sy, o):
    return _sflz(d, sx, sy, o, False)


def encode(fmt, data, sx, sy, opt):
    return globals()[fmt](np.array(data, dtype='f8'), float(sx), float(sy), opt)


def selftest():
    """Every encoder against the readers of the code under test."""
    import warnings
    from surfalize import Surface
    rng = np.random.RandomState(3)
    bad = []
    for fmt, seed in [(f, 4) for f in FORMATS] + [(f, k) for f in FORMATS for k in range(10, 130)]:
        for shape in ((5, 7), (9, 9), (30, 24)):
            d = rng.normal(size=shape) * 3 + 1
            if fmt in NAN_FORMATS:
                d[1, 2] = np.nan
            b, e, sx, sy, lay = encode(fmt, d, 0.5, 0.25, {'seed': seed, 'rich': seed != 4})
            for layers in (False, True):
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('error')
                        warnings.filterwarnings('ignore', message='The surface has different pixel size')
                        s = Surface.load(io.BytesIO(b), format=SUFFIX[fmt], read_image_layers=layers)
                    ok = s.data.shape == e.shape and np.allclose(s.data, e, rtol=1e-5, atol=1e-7, equal_nan=True)
                    if not ok:
                        bad.append((fmt, seed, shape, layers, 'heights', float(np.nanmax(np.abs(s.data - e)))))
                    if not np.isclose(s.step_x, sx) or not np.isclose(s.step_y, sy):
                        bad.append((fmt, shape, layers, 'steps', s.step_x, sx, s.step_y, sy))
                    if layers:
                        for k in lay:
                            if k.startswith(SOME):
                                if not any(np.array_equal(x.data, lay[k]) for x in s.image_layers.values()):
                                    bad.append((fmt, seed, shape, 'layer', k, list(s.image_layers)))
                            elif k not in s.image_layers or not np.array_equal(s.image_layers[k].data, lay[k]):
                                bad.append((fmt, seed, shape, 'layer', k, list(s.image_layers)))
                except Exception as ex:
                    bad.append((fmt, seed, shape, layers, repr(ex)[:200]))
    return bad


if __name__ == '__main__':
    import sys
    sys.path.insert(0, '/repo')
    for x in selftest():
        print(x)
