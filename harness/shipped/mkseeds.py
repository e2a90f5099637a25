#!/usr/bin/env python3
"""Writes the small well-formed files that the damage exploration starts from (seeds/FORMAT__NAME.bin)."""
import os, struct, zlib, gzip, io, sys
R = sys.argv[1] if len(sys.argv) > 1 else '/repo'
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds')
for f in os.listdir(D):
    os.unlink(os.path.join(D, f))
def put(fmt, name, b):
    open(f'{D}/{fmt}__{name}.bin', 'wb').write(bytes(b))
def rd(p):
    return open(f'{R}/{p}', 'rb').read()
be16 = lambda n: struct.pack('>H', n & 0xffff)
be32 = lambda n: struct.pack('>I', n & 0xffffffff)
le16 = lambda n: struct.pack('<H', n)
le32 = lambda n: struct.pack('<I', n)

# --- waldo, peano, numbers, rle, text
put('waldo', 'plain', struct.pack('>Q', 20) + b'\xff' * 5 + b'\0' + b'noiseWaldotail')
put('waldo', 'close', struct.pack('>Q', 9) + b'\0' + b'Waldo')
put('waldo', 'far', struct.pack('>Q', 13) + b'\xff\xff\0' + b'abWaldo')
put('peano', 'seq', b'ZSZSSZSSSSSSSSSZZ')
put('numbers', 'all', b'NUMS' + b'\0\x7f' + b'\1\x80\x01' + b'\2\xff\0\0\1' + b'\3\x80' + b'\0' * 6 + b'\1' + b'\4\x80' + b'\5\x80\0' + b'\6\x80\0\0\0' + b'\7\x80' + b'\0' * 7 + b'\4\x7f\5\xff\xff')
put('numbers', 'none', b'NUMS')
put('rle', 'old', b'\0\3a\0b\2c')
put('rle', 'new', b'\1\2a\1b\0c\5z')
put('text', 'mixed', 'aé\u0800\ud7ff\U0001F600\0z'.encode())

# --- gif
def gif(gct, blocks):
    fl = 0x80 | gct if gct is not None else 0x70
    b = b'GIF89a' + le16(3) + le16(2) + bytes([fl, 0, 0])
    if gct is not None:
        b += bytes(range(3 * (2 << gct)))
    return b + blocks + b';'
img = b',' + le16(0) * 2 + le16(3) + le16(2) + b'\0' + b'\2' + b'\3abc' + b'\1z' + b'\0'
imgl = b',' + le16(0) * 2 + le16(3) + le16(2) + b'\x81' + bytes(range(12)) + b'\2' + b'\0'
gce = b'!\xf9\4\5\1\0\2\0'
com = b'!\xfe\5hello\0'
app = b'!\xff\x0bNETSCAPE2.0\3\1\0\0\0'
ptx = b'!\1\x0c' + le16(1) * 4 + bytes([8, 8, 1, 0]) + b'\2hi\0'
put('gif', 'full', gif(0, app + com + gce + img + gce + ptx + imgl))
put('gif', 'noct', gif(None, img))
put('gif', 'empty', gif(1, b''))
put('gif', 'bw', rd('test-images/bw.gif'))

# --- deflate users
def deflate(data, level=9, strategy=zlib.Z_DEFAULT_STRATEGY):
    c = zlib.compressobj(level, zlib.DEFLATED, -15, 9, strategy)
    return c.compress(data) + c.flush()
def gz(data, flags=0, extra=b'', **k):
    return b'\x1f\x8b\x08' + bytes([flags]) + le32(0) + b'\0\3' + extra + deflate(data, **k) + le32(zlib.crc32(data)) + le32(len(data))
put('gzip', 'fixed', gz(b'abcabcabcabc', strategy=zlib.Z_FIXED))
put('gzip', 'stored', gz(b'hi there', level=0))
put('gzip', 'dynamic', gz(bytes((i * i) % 23 + 65 for i in range(120))))
put('gzip', 'header', gz(b'x', flags=0x1f, extra=le16(7) + b'AB' + le16(3) + b'xyz' + b'name\0' + b'comment\0' + le16(0x1234)))
put('gzip', 'two', gz(b'one', flags=8, extra=b'a\0') + gz(b'two', level=0))
put('gzip', 'empty', gz(b''))
import tarfile
def tar(files):
    o = io.BytesIO()
    t = tarfile.open(fileobj=o, mode='w', format=tarfile.USTAR_FORMAT)
    for n, d in files:
        ti = tarfile.TarInfo(n); ti.size = len(d); ti.uname = 'u'; ti.gname = 'g'
        t.addfile(ti, io.BytesIO(d))
    t.close()
    b = o.getvalue()
    end = b.rstrip(b'\0')
    n = (len(end) + 511) // 512 * 512 + 1024
    return b[:n]
put('tar', 'one', tar([('a.txt', b'hello')]))
put('tar', 'two', tar([('a', b''), ('dir/b', b'x' * 512)])[:512 * 5])
put('tgz', 'one', gz(tar([('a.txt', b'hello')])))
put('tgz', 'sample', rd('test.tgz'))

# --- png
def chunk(t, d):
    return be32(len(d)) + t + d + be32(zlib.crc32(t + d))
def png(ct, pre, post=b'', raw=None):
    raw = raw if raw is not None else b'\0' + b'\1\2\3\4'
    z = zlib.compress(raw, 9)
    return (b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', be32(1) + be32(1) + bytes([8, ct, 0, 0, 0])) + pre
            + chunk(b'IDAT', z[:5]) + chunk(b'IDAT', z[5:]) + post + chunk(b'IEND', b''))
put('png', 'bare', png(0, b''))
put('png', 'ct0', png(0, chunk(b'gAMA', be32(45455)) + chunk(b'cHRM', bytes(range(32))) + chunk(b'sBIT', b'\7') + chunk(b'bKGD', be16(3)) + chunk(b'tRNS', be16(9))))
put('png', 'ct2', png(2, chunk(b'sRGB', b'\1') + chunk(b'sBIT', b'\7\6\5') + chunk(b'bKGD', be16(3) * 3) + chunk(b'tRNS', be16(9) * 3)))
put('png', 'ct3', png(3, chunk(b'PLTE', bytes(range(9))) + chunk(b'tRNS', b'\1\2') + chunk(b'hIST', be16(5) * 3) + chunk(b'bKGD', b'\1') + chunk(b'sBIT', b'\1\2\3')))
put('png', 'ct4', png(4, chunk(b'sBIT', b'\7\1') + chunk(b'bKGD', be16(3))))
put('png', 'ct6', png(6, chunk(b'sBIT', b'\7\1\2\3') + chunk(b'bKGD', be16(3) * 3)))
put('png', 'text', png(0, chunk(b'tEXt', b'Title\0hello') + chunk(b'zTXt', b'K\0\0' + zlib.compress(b'zzz text')), chunk(b'tIME', be16(2020) + b'\1\2\3\4\5') + chunk(b'pHYs', be32(1) * 2 + b'\1')))
put('png', 'itxt', png(0, chunk(b'iTXt', b'Key\0\0\0en\0tr\xc3\xa9\0body\xe2\x82\xac') + chunk(b'iTXt', b'Key\0\1\0\0\0' + zlib.compress('žluť'.encode())) + chunk(b'iTXt', b'Key\0\1\0\0\0notzlib')))
put('png', 'iccp', png(2, chunk(b'iCCP', b'prof\0\0' + zlib.compress(b'profile')) + chunk(b'sPLT', b'pal\0\x08' + bytes(range(12))) + chunk(b'sPLT', b'pal\0\x10' + bytes(range(10))) + chunk(b'vpAg', b'whatever')))
put('png', 'swatch', rd('test-images/swatch-white.png'))

# --- riff
def rc(t, d):
    return t + le32(len(d)) + d + (b'\0' if len(d) % 2 else b'')
put('riff', 'two', rc(b'RIFF', b'WAVE' + rc(b'fmt ', b'\1\0\2\0') + rc(b'data', b'abc')))
put('riff', 'none', rc(b'RIFF', b'WEBP'))

# --- tiff
def tiff(be, off=8):
    s, l, o = (be16, be32, b'MM') if be else (le16, le32, b'II')
    return o + s(42) + l(off) + b'\0' * (off - 8) + s(2) + s(0x100) + s(3) + l(1) + l(5) + s(0x101) + s(4) + l(1) + l(7) + l(0) + b'tail'
put('tiff', 'le', tiff(False))
put('tiff', 'be', tiff(True, 11))

# --- jpeg
def seg(m, d):
    return b'\xff' + bytes([m]) + be16(len(d) + 2) + d
app0 = seg(0xe0, b'JFIF\0\1\2\1' + be16(72) * 2 + b'\0\0')
app0t = seg(0xe0, b'JFIF\0\1\2\1' + be16(72) * 2 + b'\2\1' + b'abcdef')
app1 = seg(0xe1, b'Exif\0\0' + tiff(False))
app1x = seg(0xe1, b'http://ns.adobe.com/xap/1.0/\0<x/>')
dqt = seg(0xdb, b'\0' + bytes(range(64)))
dqt2 = seg(0xdb, b'\x11' + bytes(range(128)) + b'\0' + bytes(range(64)))
dht = seg(0xc4, b'\0' + bytes([0, 1, 2] + [0] * 13) + b'\1\2\3')
sof0 = seg(0xc0, b'\x08' + be16(1) + be16(1) + b'\1' + b'\1\x11\0')
sof2 = seg(0xc2, b'\x08' + be16(1) + be16(1) + b'\2' + b'\1\x11\0' + b'\2\x22\1')
sos = seg(0xda, b'\1' + b'\1\0' + b'\0\x3f\0')
scan = b'ab\xff\0c\xff\xd0d\xff\xd7'
put('jpeg', 'base', b'\xff\xd8' + app0 + dqt + sof0 + dht + sos + scan + b'\xff\xd9')
put('jpeg', 'exif', b'\xff\xd8' + app1 + seg(0xdd, be16(4)) + seg(0xfe, b'hi') + sof2 + sos + scan + seg(0xdc, be16(3)) + dht + sos + b'z' + b'\xff\xd9')
put('jpeg', 'misc', b'\xff\xd8' + app0t + app1x + seg(0xcc, b'\1\5') + seg(0xee, b'Adobe') + seg(0xe0, b'other\0xx') + dqt2 + sof0 + sos + b'\xff\xd9')

# --- mpeg4
heic = rd('test.heic'); mp4 = rd('test.mp4')
put('mpeg4', 'heic', heic[:32 + 1358] + be32(12) + b'mdat' + b'data')
def boxes(b, off, end):
    while off + 8 <= end:
        n, t = struct.unpack('>I4s', b[off:off + 8])
        yield t, off, n
        if n < 8:
            return
        off += n
CONT = {b'moov', b'trak', b'mdia', b'minf', b'stbl', b'dinf', b'edts', b'udta'}
def shrink(b, off, n, t):
    """the same box with long tables cut to two entries"""
    if t in CONT:
        out = b''
        for t2, o2, n2 in boxes(b, off + 8, off + n):
            out += shrink(b, o2, n2, t2)
        return be32(len(out) + 8) + t + out
    d = b[off + 8:off + n]
    if t in (b'stco', b'stss', b'stts', b'stsc'):
        w = {b'stco': 4, b'stss': 4, b'stts': 8, b'stsc': 12}[t]
        k = min(2, struct.unpack('>I', d[4:8])[0])
        d = d[:4] + be32(k) + d[8:8 + w * k]
    if t == b'stsz' and len(d) > 20:
        d = d[:8] + be32(2) + d[12:20]
    return be32(len(d) + 8) + t + d
moov = next((o, n) for t, o, n in boxes(mp4, 0, len(mp4)) if t == b'moov')
traks = [(o, n) for t, o, n in boxes(mp4, moov[0] + 8, sum(moov)) if t == b'trak']
mvhd = next((o, n) for t, o, n in boxes(mp4, moov[0] + 8, sum(moov)) if t == b'mvhd')
udta = next((o, n) for t, o, n in boxes(mp4, moov[0] + 8, sum(moov)) if t == b'udta')
ft = mp4[:32]
def mv(inner):
    return be32(len(inner) + 8) + b'moov' + inner
put('mpeg4', 'video', ft + mv(mp4[mvhd[0]:sum(mvhd)] + shrink(mp4, *traks[0], b'trak')) + be32(8) + b'free')
put('mpeg4', 'audio', ft + mv(shrink(mp4, *traks[1], b'trak') + mp4[udta[0]:sum(udta)]))
put('mpeg4', 'small', be32(20) + b'ftypisom' + be32(0) + b'mp42' + be32(8) + b'free' + be32(1) + b'mdat' + struct.pack('>Q', 18) + b'xy')
put('mpeg4', 'toend', be32(16) + b'ftypisom' + be32(0) + be32(0) + b'mdatrest')

# --- elf
def elf(cls, be, ph=1, sh=2):
    E = '>' if be else '<'
    idn = b'\x7fELF' + bytes([cls, 2 if be else 1, 1, 0, 0]) + b'\0' * 7
    a = 'Q' if cls == 2 else 'I'
    ehs, phs, shs = (64, 56, 64) if cls == 2 else (52, 32, 40)
    phoff = ehs if ph else 0
    data = b'\0.text\0.shstrtab\0' + b'code'
    doff = ehs + phs * ph
    shoff = (doff + len(data) + 7) // 8 * 8
    h = idn + struct.pack(E + 'HHI' + a * 3 + 'I' + 'H' * 6, 2, 62, 1, 0x400000, phoff, shoff if sh else 0, 0, ehs, phs if ph else 0, ph, shs if sh else 0, sh, max(sh - 1, 0))
    p = b''
    for i in range(ph):
        if cls == 2:
            p += struct.pack(E + 'IIQQQQQQ', 1, 5, 0, 0x400000, 0x400000, 16, 16, 8)
        else:
            p += struct.pack(E + 'IIIIIIII', 1, 0, 0x400000, 0x400000, 16, 16, 5, 4)
    s = b''
    for i in range(sh):
        t = [0, 3, 1, 8][i % 4]
        s += struct.pack(E + 'II' + a * 4 + 'II' + a * 2, 1 if i else 0, t, 0, 0, doff if i else 0, len(data) if i else 0, 0, 0, 1, 0)
    b = h + p + data
    return b + b'\0' * (shoff - len(b)) + s
put('elf', 'le64', elf(2, False))
put('elf', 'be32', elf(1, True))
put('elf', 'le32', elf(1, False, 0, 4))
put('elf', 'be64', elf(2, True, 2, 0))

# --- opentype
def tables(b):
    n = struct.unpack('>H', b[4:6])[0]
    o = {}
    for i in range(n):
        t = b[12 + 16 * i:16 + 16 * i]
        off, ln = struct.unpack('>II', b[20 + 16 * i:28 + 16 * i])
        o[t.decode()] = b[off:off + ln]
    return o
def font(ts, magic=b'\0\1\0\0', base=0):
    n = len(ts)
    e = 1
    while e * 2 <= n:
        e *= 2
    b = magic + be16(n) + be16(e * 16) + be16(e.bit_length() - 1) + be16(n * 16 - e * 16)
    off = 12 + 16 * n + base
    d = b''
    for t in sorted(ts):
        x = ts[t]
        b += t.encode() + be32(0) + be32(off + len(d)) + be32(len(x))
        d += x + b'\0' * (-len(x) % 4)
    return b + d
F = lambda n: tables(rd('test-fonts/' + n))
base = F('gzipped.ttf')
svg = base.pop('SVG ')
base = {k: v for k, v in base.items()}
base['name'] = be16(0) + be16(1) + be16(18) + be16(3) + be16(1) + be16(0x409) + be16(1) + be16(4) + be16(0) + b'\0A\0b'
req = {k: base[k] for k in ('cmap', 'head', 'hhea', 'hmtx', 'maxp', 'name', 'OS/2', 'post')}
put('opentype', 'base', font(base))
put('opentype', 'svg', font(dict(base, **{'SVG ': svg})))
put('opentype', 'required', font(req, b'OTTO'))
one = font(req, base=12 + 8)
two = font(req, base=12 + 8 + len(one))
put('opentype', 'ttc', b'ttcf' + be16(1) + be16(0) + be32(2) + be32(20) + be32(20) + font(req, base=20))
put('opentype', 'ttc2', b'ttcf' + be16(2) + be16(0) + be32(1) + be32(28) + be32(0) + be32(0) + be32(0) + font(req, base=28))
num, klei, scp, pod, six, dro, sam, zyc, noto = (F(n) for n in ('numderline.ttf', 'Klei.otf', 'SourceCodePro-Regular.otf', 'Podkova[wght].ttf', 'SixtyfourConvergence-Regular-VariableFont_BLED,SCAN,XELA,YELA.ttf', 'DroidSansArabic.ttf', 'samanata.ttf', 'Zycon.ttf', 'NotoSansGujarati-Regular.ttf'))
def with_(name, **t):
    put('opentype', name, font(dict(req, **{k.replace('_', '/') if k == 'OS_2' else k.ljust(4): v for k, v in t.items()})))
with_('gdef', GDEF=num['GDEF'], GPOS=num['GPOS'], GSUB=klei['GSUB'])
with_('gdef2', GDEF=klei['GDEF'], DSIG=pod['DSIG'])
with_('gdef3', GDEF=dro['GDEF'], BASE=scp['BASE'])
with_('var', fvar=pod['fvar'], avar=pod['avar'], STAT=pod['STAT'], HVAR=six['HVAR'])
with_('var2', fvar=zyc['fvar'], avar=six['avar'], STAT=six['STAT'])
with_('hint', gasp=num['gasp'], **{'cvt': sam['cvt '], 'fpgm': sam['fpgm'], 'prep': pod['prep']})
with_('gsub', GSUB=num['GSUB'])
with_('gsub2', GSUB=dro['GSUB'])
with_('gpos', GPOS=dro['GPOS'])
kern = be16(0) + be16(1) + be16(0) + be16(14 + 6 * 2) + be16(1) + be16(2) + be16(12) + be16(1) + be16(0) + be16(0) + be16(1) + be16(0xfff6) + be16(1) + be16(1) + be16(5)
vhea = b'\0\1\0\0' + be16(800) + be16(0xff38) + be16(0) + be16(1000) + be16(0) * 2 + be16(900) + be16(1) + be16(0) * 6 + be16(0) + be16(1)
vdmx = be16(0) + be16(1) + be16(1) + bytes([1, 1, 1, 1]) + be16(12) + be16(1) + bytes([8, 9]) + be16(8) + be16(8) + be16(0xfffe)
ng = struct.unpack('>H', req['maxp'][4:6])[0]
hd = be16(0) + be16(1) + be32((2 + ng + 3) // 4 * 4) + (bytes([12, 10]) + bytes(range(ng))).ljust((2 + ng + 3) // 4 * 4, b'\0')
vmtx = be16(1000) + be16(10) + be16(5) * (ng - 1)
with_('kern', kern=kern, vhea=vhea, vmtx=vmtx)
with_('vdmx', VDMX=vdmx, hdmx=hd)
mvar = be16(1) + be16(0) + be16(0) + be16(8) + be16(1) + be16(20) + b'hasc' + be16(0) + be16(0) + be16(1) + be32(12 + 0) + be16(1) + be32(24) + be16(1) + be16(1) + be16(0) + be16(0x4000) + be16(0x4000) + be16(1) + be16(1) + be16(1) + be16(0) + be16(7)
with_('mvar', fvar=pod['fvar'], MVAR=mvar)
for i, src in enumerate((klei, dro, sam, noto, zyc)):
    if len(src['cmap']) < 1300:
        with_('cmap%d' % i, cmap=src['cmap'])
put('opentype', 'post2', font(dict(req, post=be32(0x20000) + b'\0' * 28 + be16(ng) + be16(0) + (be16(258) * max(ng - 1, 0)) + b'\3abc')))
# glyphs: simple and composite
print('numGlyphs', ng, 'loca fmt', req['head'][50:52])
tot = 0
for f in sorted(os.listdir(D)):
    tot += os.path.getsize(f'{D}/{f}')
print(len(os.listdir(D)), 'seeds', tot, 'bytes')
