#!/usr/bin/env python3
# Derives dicts/bestd (dicts/vfstd with every transducer byte-swapped), dicts/adapd (vfstd with the plain speller adapter)
# and dicts/okd (no data files at all). Run once; the outputs are committed and never regenerated by a check.
import os, shutil, struct
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'dicts')
def swapped(b):
    n, = struct.unpack_from('<H', b, 16)
    o = b[3::-1] + b[7:3:-1] + b[8:16] + struct.pack('>H', n)
    p = 18
    for i in range(n):
        e = b.index(0, p) + 1
        o += b[p:e]
        p = e
    pad = -p % 8
    o += b[p:p + pad]
    p += pad
    out = bytearray(o)
    over = False
    while p + 8 <= len(b):
        if over:
            more, = struct.unpack_from('<I', b, p)
            out += struct.pack('>I', more) + b[p + 4:p + 8]
            over = False
        else:
            i, u = struct.unpack_from('<HH', b, p)
            t = b[p + 4:p + 7]
            m = b[p + 7]
            out += struct.pack('>HH', i, u) + t[::-1] + bytes([m])
            over = m == 255
        p += 8
    return bytes(out) + b[p:]
def put(d, f, b):
    os.makedirs(os.path.join(OUT, d), exist_ok=True)
    open(os.path.join(OUT, d, f), 'wb').write(b)
def get(d, f):
    return open(os.path.join(OUT, d, f), 'rb').read()
H = 'Voikko-Dictionary-Format: 5\nLanguage: fi-x-%s\nDescription: simulation dictionary\n'
for f in ('mor.vfst', 'autocorr.vfst'):
    put('bestd', f, swapped(get('vfstd', f)))
    put('adapd', f, get('vfstd', f))
put('bestd', 'index.txt', (H % 'bestd' + 'Morphology-Backend: finnishVfst\n').encode())
put('adapd', 'index.txt', (H % 'adapd' + 'Speller-Backend: AnalyzerToSpellerAdapter(currentAnalyzer)\n').encode())
put('okd', 'index.txt', (H % 'okd' + 'Morphology-Backend: null\nSpeller-Backend: AllOk\nSuggestion-Backend: null\nGrammar-Backend: null\n').encode())
for f in ('mor.vfst', 'autocorr.vfst'):
    put('nogc', f, get('vfstd', f))
put('nogc', 'index.txt', (H % 'nogc' + 'Copyright: simulation\nLicense: any\nSM-Version: 1\nGrammar-Backend: null\n').encode())
