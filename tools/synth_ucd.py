"""Rebuild the four UCD 16.0.0 source files that scripts/unicode.py reads from the frozen reference
data (ucd/ucd16.txt) and the conformance vectors committed in the repository."""
import os, re, unicodedata

RANGES = [
    ("CJK Ideograph Extension A", 0x3400, 0x4DBF), ("CJK Ideograph", 0x4E00, 0x9FFF),
    ("Hangul Syllable", 0xAC00, 0xD7A3), ("Non Private Use High Surrogate", 0xD800, 0xDB7F),
    ("Private Use High Surrogate", 0xDB80, 0xDBFF), ("Low Surrogate", 0xDC00, 0xDFFF),
    ("Private Use", 0xE000, 0xF8FF), ("Tangut Ideograph", 0x17000, 0x187F7),
    ("Tangut Ideograph Supplement", 0x18D00, 0x18D08), ("CJK Ideograph Extension B", 0x20000, 0x2A6DF),
    ("CJK Ideograph Extension C", 0x2A700, 0x2B739), ("CJK Ideograph Extension D", 0x2B740, 0x2B81D),
    ("CJK Ideograph Extension E", 0x2B820, 0x2CEA1), ("CJK Ideograph Extension F", 0x2CEB0, 0x2EBE0),
    ("CJK Ideograph Extension I", 0x2EBF0, 0x2EE5D), ("CJK Ideograph Extension G", 0x30000, 0x3134A),
    ("CJK Ideograph Extension H", 0x31350, 0x323AF), ("Plane 15 Private Use", 0xF0000, 0xFFFFD),
    ("Plane 16 Private Use", 0x100000, 0x10FFFD),
]
SKIP = {}
for n, a, b in RANGES:
    for c in range(a, b + 1):
        SKIP[c] = (n, a, b)


def load(path):
    gc, ccc, dec, comp, qc, cjk = {}, {}, {}, {}, {}, {}
    for line in open(path):
        p = line.split()
        if not p or p[0] == "#":
            continue
        h = lambda s: int(s, 16)
        if p[0] == "G":
            for c in range(h(p[1]), h(p[2]) + 1):
                gc[c] = p[3]
        elif p[0] == "C":
            ccc[h(p[1])] = int(p[2])
        elif p[0] == "D":
            dec[h(p[1])] = (p[2], [h(x) for x in p[3:]])
        elif p[0] == "P":
            comp[(h(p[1]), h(p[2]))] = h(p[3])
        elif p[0] == "Q":
            for c in range(h(p[1]), h(p[2]) + 1):
                qc[c] = p[3]
        elif p[0] == "V":
            cjk[h(p[1])] = (h(p[2]), h(p[3]))
    return gc, ccc, dec, comp, qc, cjk


def tables(path):
    """file name -> text"""
    gc, ccc, dec, comp, qc, cjk = load(path)
    for c in range(0xD800, 0xE000):
        gc.setdefault(c, "Cs")
    x = lambda c: "%04X" % c
    out = []
    for c in sorted(gc):
        g = gc[c]
        if g == "Cn":
            continue
        name = None
        if c in SKIP:
            n, a, b = SKIP[c]
            if c == a:
                name = "<%s, First>" % n
            elif c == b:
                name = "<%s, Last>" % n
            else:
                continue
        elif c in cjk:
            name = "CJK COMPATIBILITY IDEOGRAPH-" + x(c)
        elif g == "Cc":
            name = "<control>"
        else:
            name = unicodedata.name(chr(c), "CHARACTER-" + x(c))
        d = ""
        if c in dec and c not in SKIP:
            k, m = dec[c]
            d = " ".join(x(v) for v in m)
            if k == "k":
                t = unicodedata.decomposition(chr(c)).split()
                d = (t[0] if t and t[0].startswith("<") else "<compat>") + " " + d
        out.append(";".join([x(c), name, g, str(ccc.get(c, 0)), "L", d, "", "", "", "N", "", "", "", "", ""]))
    unicode_data = "\n".join(out) + "\n"

    o = ["# StandardizedVariants-16.0.0.txt", "# Format: sequence; description; environments # name", "",
         "0030 FE00; short diagonal stroke form; # DIGIT ZERO",
         "2229 FE00; with serifs; # INTERSECTION",
         "1000 FE00; dotted form; # MYANMAR LETTER KA",
         "1820 180B; second form; isolate medial final # MONGOLIAN LETTER A",
         "1820 180C; third form; isolate # MONGOLIAN LETTER A",
         "FF10 FE00; short diagonal stroke form; # FULLWIDTH DIGIT ZERO", ""]
    for c in sorted(cjk, key=lambda c: cjk[c]):
        o.append("%s %s; CJK COMPATIBILITY IDEOGRAPH-%s; # %s" % (x(cjk[c][0]), x(cjk[c][1]), x(c), chr(c)))
    std_variants = "\n".join(o) + "\n# EOF\n"

    composed = set(comp.values())
    excl = {c for c, (k, m) in dec.items() if k == "c" and c not in composed and not 0xAC00 <= c < 0xD7A4}

    def ranges(cs):
        """maximal ranges with one general category each, as in the published file"""
        lc = lambda g: "L&" if g in ("Lu", "Ll", "Lt") else g
        r = []
        for c in sorted(cs):
            if r and r[-1][1] == c - 1 and lc(gc.get(c)) == lc(gc.get(c - 1)):
                r[-1][1] = c
            else:
                r.append([c, c])
        return r

    o = ["# DerivedNormalizationProps-16.0.0.txt", "", "# Property: FC_NFKC_Closure", "",
         "037A          ; FC_NFKC; 0020 03B9          # Lm       GREEK YPOGEGRAMMENI",
         "2057          ; FC_NFKC; 2032 2032 2032 2032 # Po", ""]
    width = lambda a, b: ("%s..%s" % (x(a), x(b)) if a != b else x(a)).ljust(14)
    for a, b in ranges(excl):
        o.append("%s; Full_Composition_Exclusion # %s" % (width(a, b), gc[a]))
    o.append("")
    for i, p in ((2, "NFD_QC"), (0, "NFC_QC"), (3, "NFKD_QC"), (1, "NFKC_QC")):
        for v in "NM":
            cs = [c for c, s in qc.items() if s[i] == v]
            for a, b in ranges(cs):
                o.append("%s; %s; %s # %s" % (width(a, b), p, v, gc.get(a, "Cn")))
        o.append("")
    o += ["00A0          ; Expands_On_NFKC # Zs", "0041          ; NFKC_CF; 0061                 # L&  LATIN CAPITAL LETTER A",
          "0041..005A    ; Changes_When_NFKC_Casefolded # L&  [26]", "0041          ; NFKC_SCF; 0061", ""]
    return {"UnicodeData.txt": unicode_data, "StandardizedVariants.txt": std_variants,
            "DerivedNormalizationProps.txt": "\n".join(o) + "\n# EOF\n"}


FIELDS = ("source", "nfc", "nfd", "nfkc", "nfkd")


def vectors(rs):
    """the five columns of every vector in a normalization_tests.rs file"""
    rows, cur = [], []
    for m in re.finditer(r'(source|nfc|nfd|nfkc|nfkd): "((?:[^"\\]|\\.)*)"', rs):
        cur.append((m.group(1), tuple(re.findall(r"\\u\{([0-9A-Fa-f]+)\}", m.group(2)))))
        if len(cur) == 5:
            assert tuple(k for k, _ in cur) == FIELDS
            rows.append(tuple(tuple(int(h, 16) for h in v) for _, v in cur))
            cur = []
    assert not cur
    return rows


def norm_test_file(rows):
    o = ["# NormalizationTest-16.0.0.txt", "# Format: source; NFC; NFD; NFKC; NFKD", "@Part0 # Specific cases", "#"]
    for i, r in enumerate(rows):
        if i == len(rows) // 2:
            o += ["#", "@Part1 # Character by character test", "#"]
        o.append(";".join(" ".join("%04X" % c for c in col) for col in r) + "; # (x; x; x; x; x; ) a; b")
    return "\n".join(o) + "\n# EOF\n"
