#!/usr/bin/env python3
# Generates dicts/wvfst (weighted, flag diacritics, overflow cells) and dicts/bevfst (the same, big-endian).
# Run once with a pristine voikkovfstc; the outputs are committed and never regenerated by a check.
import random, subprocess, os, sys
VC = sys.argv[1]
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'dicts')
random.seed(11)
good = [w for w in open(os.path.join(OUT, '../data/words_good.txt'), encoding='utf-8').read().split('\n')
        if w.isalpha() and w.islower() and 3 <= len(w) <= 10 and all(c in 'abcdefghijklmnopqrstuvwxyzåäö' for c in w)]
words = sorted(random.sample(good, 260))
wide = [chr(c) for c in range(0x400, 0x400 + 300)]   # more than 255 transitions from the start state

def emit(lines, name, d, fmt):
    byst = {}
    for l in lines:
        byst.setdefault(l[0], []).append(l)
    txt = ''
    for s in sorted(byst):
        for l in byst[s]:
            txt += '\t'.join(str(x) for x in l) + '\n'
    os.makedirs(d, exist_ok=True)
    subprocess.run([VC, '-w', 'prob', '-f', fmt, '-o', os.path.join(d, name)], input=txt.encode(), check=True, stdout=subprocess.DEVNULL)
    return txt

# acceptor: trie + flag diacritics: words are either inside X=ON or X=OFF; suffix "ko" is allowed only with X=ON
def acceptor():
    lines = []
    n = [3]
    trie = {}
    def new():
        n[0] += 1
        return n[0] - 1
    # 0 -> 1 with flag ON, 0 -> 2 with flag OFF
    lines.append((0, 1, '@P.X.ON@', '@P.X.ON@', 0.9))
    lines.append((0, 2, '@P.X.OFF@', '@P.X.OFF@', 0.8))
    ko1, ko2, koend = new(), new(), new()
    lines.append((ko1, ko2, 'k', 'k', 0.7))
    lines.append((ko2, koend, 'o', 'o', 0.6))
    lines.append((koend, 0.5))
    kf = new()
    lines.append((kf, ko1, '@R.X.ON@', '@R.X.ON@', 1))
    kd = new()
    lines.append((kd, ko1, '@D.X@', '@D.X@', 1))
    end = new()
    lines.append((end, 0.9))
    for root, sel in ((1, 0), (2, 1)):
        for i, w in enumerate(words):
            if i % 2 != sel and i % 5:
                continue
            st = root
            for j, c in enumerate(w):
                key = (st, c)
                if key not in trie:
                    trie[key] = new()
                    lines.append((st, trie[key], c, c, round(random.uniform(0.2, 1), 3)))
                st = trie[key]
            if ('f', st) not in trie:
                trie[('f', st)] = 1
                lines.append((st, round(random.uniform(0.2, 1), 3)))
                lines.append((st, kf, '@0@', '@0@', 1))
                if i % 3 == 0:
                    lines.append((st, kd, '@U.Y.A@', '@U.Y.A@', 0.5))
    for c in wide:
        lines.append((1, end, c, c, round(random.uniform(0.2, 1), 3)))
    return renum(lines)
def renum(lines):
    return lines
def errmodel():
    lines = []
    al = 'abcdefghijklmnopqrstuvwxyzåäö'
    for s in (0, 1, 2):
        for c in al:
            lines.append((s, s, c, c, 1))
        lines.append((s, 1))
        if s < 2:
            for a, b in zip('aeiouyäökptdgbsrlnm', 'äaeiuöayktpdgbrsnml'):
                lines.append((s, s + 1, a, b, round(random.uniform(0.1, 0.4), 3)))
            for c in 'aeioukst':
                lines.append((s, s + 1, '@0@', c, 0.1))
                lines.append((s, s + 1, c, '@0@', 0.12))
    return lines
acc, err = acceptor(), errmodel()
for d, fmt, lang in (('wvfst', 'le', 'fi-x-wvfst'), ('bevfst', 'be', 'fi-x-bevfst')):
    p = os.path.join(OUT, d)
    emit(acc, 'mor.vfst', p, fmt)
    emit(acc, 'spl.vfst', p, fmt)
    t = emit(err, 'err.vfst', p, fmt)
    open(os.path.join(p, 'index.txt'), 'w').write('Voikko-Dictionary-Format: 5\nLanguage: %s\nDescription: simulation dictionary, weighted backend\nMorphology-Backend: vfst\nSpeller-Backend: vfst\nSuggestion-Backend: vfst\nGrammar-Backend: null\n' % lang)
open(os.path.join(OUT, '../data/words_w.txt'), 'w').write('\n'.join(words + wide[:20] + [w + 'ko' for w in words[:60]]) + '\n')
