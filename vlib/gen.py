"""Small shared generators (labels, words, urn parts, languages, literal values)."""

ALPHA = "abcdefghijklmnopqrstuvwxyz"
UNI = ["é", "ß", "Ἀ", "ω", "ж", "א", "م", "漢", "ñ", "ø", "ſ", "İ", "ᾳ", "क"]


def label(rng, hostile=True):
    """A citation label: never contains the structural characters . - @ : #, nor white space at its ends."""
    k = rng.randrange(14 if hostile else 5)
    if hostile and rng.random() < 0.006:         # long
        return "".join(rng.choice(ALPHA + "0123456789") for _ in range(rng.choice([13, 20, 40, 70])))
    if k < 3:
        return str(rng.randrange(1, 30))
    if k == 3:
        return str(rng.randrange(1, 400)) + rng.choice("abc")
    if k == 4:
        return rng.choice(["pr", "ep", "a", "praef", "1a", "x1", "10", "100", "Z"])
    if k == 5:
        return "".join(rng.choice(ALPHA + ALPHA.upper()) for _ in range(rng.randrange(1, 9)))
    if k == 6:
        return rng.choice(UNI) + str(rng.randrange(9))
    if k == 7:
        return "".join(rng.choice(UNI) for _ in range(rng.randrange(1, 4)))
    if k == 8:
        return "0" * rng.randrange(1, 3) + str(rng.randrange(10))
    if k == 9:
        if rng.random() < 0.5:
            return rng.choice(["1 2", "b r", "21 b", "a  b", "x y z"])
        return str(rng.randrange(10 ** 6, 10 ** 9))
    if k == 10:
        return rng.choice(["a_b", "1_2", "t1r", "1v", "f12r", "I", "IV", "0"])
    if k == 12:      # written with combining characters, or in a form that normalisation would change
        return rng.choice(["e\u0301", "1\u0308", "\u1fbd", "\ufb01n", "\u2126", "a\u0323\u0307", "\u00b2", "\u00e9"])
    if k == 13:      # marks that mean something to XML, XPath, URLs or regular expressions
        if rng.random() < 0.1:
            return rng.choice(["'a'b\"c'", "\"'\"'\"", "1''2\"\"3'", "%41", "%2", "&amp;", "a//b", "''", "\"\"", "$$1", "\\1"])
        return "".join(rng.choice(rng.choice(["'\"/", "'\"/", "()[]*+=!?$,;", "&<>%\\|_~^{}"]) if rng.random() < .5 else
                                  rng.choice("123abP")) for _ in range(rng.randrange(1, 5)))
    return rng.choice(["1", "2", "11", "12"])


def word(rng):
    n = rng.randrange(1, 9) if rng.random() < 0.994 else rng.choice([12, 20, 33, 70])
    if rng.random() < 0.5:
        return "".join(rng.choice(ALPHA + ALPHA.upper()) for _ in range(n))
    return "".join(rng.choice(UNI + list(ALPHA)) for _ in range(n))


NASTY_TEXT = ["e\u0301", "\ufb01", "\u00a0x", "<", ">", "&", "&amp;", "&lt;b/&gt;", "&#65;", "\"", "'", "]]>", "é", "漢字", "שלום", "\U0001F600", "a b", "  ", "%", "{}", "\\", "$1", "#", "–"]


def text(rng, maxw=6, nasty=0.4):
    """Non-blank text with characters that break careless escaping."""
    parts = []
    for _ in range(rng.randrange(1, maxw + 1) if rng.random() < 0.995 else rng.choice([20, 60, 250])):
        parts.append(rng.choice(NASTY_TEXT) if rng.random() < nasty else word(rng))
    s = " ".join(parts)
    return s if s.strip() else "x" + s


LANGS = ["eng", "lat", "grc", "fre", "ger", "ara", "en", "fr", "de", "la", "en-gb", "zh-Hant"]


def lang(rng):
    return rng.choice(LANGS)
