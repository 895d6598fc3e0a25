"""C20: encoding and decoding."""
import codecs, os, shutil, tempfile
from base import expect, expect_eq
import parce
from parce import docio, Language, lexicon
from parce.docio import encode_text, decode_data

RULE = ("random texts (over the characters the encoding has, all kinds of newlines), 17 encodings, with and without BOM, with or without a "
        "declaration of the encoding in the text (generic, XML, HTML, CSS, or useless ones), newline handling; the bytes are decoded again "
        "directly, as document, and via a file in a scratch directory (save, load, save again, load); non-trivial: a text with a "
        "non-ASCII character")
SHRINK = ("text",)
ENC = ["utf-8", "utf-8", "utf-16", "utf-16-le", "utf-16-be", "utf-32", "utf-32-le", "utf-32-be", "utf-8-sig", "latin1", "ascii", "cp1252", "koi8-r",
       "shift_jis", "euc_jp", "gb18030", "big5"]
ASCII_COMPAT = {"utf-8", "utf-8-sig", "latin1", "ascii", "cp1252", "koi8-r", "shift_jis", "euc_jp", "gb18030", "big5"}
DECL = ['encoding="%s"', 'encoding: %s', '# coding: %s\n', '# -*- coding: %s -*-', '// encoding:%s']
BAD = ["nope", "base64", "hex", "rot13", "utf-99", "a\x00b", "zip", ""]
BOMS = [(codecs.BOM_UTF8, "utf-8"), (codecs.BOM_UTF16_LE, "utf-16-le"), (codecs.BOM_UTF16_BE, "utf-16-be"),
        (codecs.BOM_UTF32_LE, "utf-32-le"), (codecs.BOM_UTF32_BE, "utf-32-be")]

class OldLang(Language):
    @lexicon
    def root(cls): yield "x", "y"
class OldLangIO(docio.IO):
    def default_encoding(self): return "latin1"
class SubLang(OldLang):
    pass

def gen(rng):
    enc = rng.choice(ENC)
    pool = list("ab \n\n\r\t<\"é") + ["\r\n", "я", "日", "本", "\U0001d11e", "€", "\x00", "\u2028"]
    t = []
    for _ in range(rng.choice((0, 1, 3, 8, 20))):
        c = rng.choice(pool)
        try: c.encode(enc); t.append(c)
        except UnicodeError: pass
    decl = rng.choice(("", "", "", "same", "bad", "xml", "html", "css"))
    return {"text": "".join(t), "enc": enc, "decl": decl, "form": rng.randrange(len(DECL)), "bad": rng.randrange(len(BAD)),
            "wnl": rng.choice((None, "", "\n", "\r\n", "\r")), "rnl": rng.choice((None, "", "\n", "\r\n")), "bom": rng.randrange(len(BOMS)),
            "long": rng.random() < .05, "file": rng.random() < .3, "custom": rng.random() < .3}

def written(t, nl):
    return t.replace("\n", nl) if nl in ("\r", "\r\n") else t
def read(t, nl):
    return t.replace("\r\n", "\n").replace("\r", "\n") if nl is None else t

def check(case):
    enc, decl, text = case["enc"], case["decl"], case["text"]
    lex = None
    if case["long"]: text += "\n" + "abc\n" * 3000
    if decl == "same": text = DECL[case["form"]] % enc + ' ' + text
    elif decl == "bad": text = DECL[case["form"]] % BAD[case["bad"]] + ' ' + text
    elif decl == "xml":
        from parce.lang.xml import Xml; lex = Xml.root
        text = '<?xml version="1.0" encoding="%s"?>' % enc + ' ' + text
    elif decl == "html":
        from parce.lang.html import Html; lex = Html.root
        text = ('<meta charset="%s">' if case["form"] % 2 else '<meta http-equiv="Content-Type" content="text/html; charset=%s">') % enc + ' ' + text
    elif decl == "css":
        from parce.lang.css import Css; lex = Css.root
        text = '@charset "%s";' % enc + ' ' + text
    elif case["custom"]:
        lex = SubLang.root if case["form"] % 2 else OldLang.root
    try: text.encode(enc)
    except UnicodeError: return None
    if text.startswith("\ufeff") or ("16" in enc and text.startswith("\0")): return None
    wnl, rnl = case["wnl"], case["rnl"]
    raw = written(text, wnl)
    declared = decl in ("same", "xml", "html", "css")
    # explicit encoding
    data = encode_text(text, lex, enc, wnl)
    expect_eq(data, raw.encode(enc), "encoded bytes")
    accident = not any(e in enc for e in ("sig",)) and enc not in ("utf-16", "utf-32") and any(data.startswith(b) for b, e in BOMS)
    if not accident:
        r = decode_data(data, lex, enc, newline=rnl)
        expect_eq(r.text, read(raw, rnl), "decoded text (%s)" % enc)
        expect_eq(r.encoding, enc, "encoding")
        expect(r.root_lexicon is lex, "root lexicon")
    # encoding taken from the text, a BOM or the default
    if declared and (enc in ASCII_COMPAT or enc in ("utf-16", "utf-32")) or decl == "":
        default = "latin1" if decl == "" and lex else "utf-8"
        want = enc if declared else default
        try: text.encode(want)
        except UnicodeError: want = None
        if want:
            data2 = encode_text(text, lex, None, wnl)
            expect_eq(data2, raw.encode(want), "bytes in the encoding of the text (%s)" % want)
            if want in ("utf-16", "utf-32", "utf-8-sig") or not any(data2.startswith(b) for b, e in BOMS):
                r = decode_data(data2, lex, newline=rnl)
                expect_eq(r.text, read(raw, rnl), "text decoded with its own encoding (%s)" % want)
                if declared: expect_eq(r.encoding, enc, "encoding of the text")
    if decl == "bad":
        t8 = text
        want = "utf-8"
        for lx, want in ((None, "utf-8"), (OldLang.root, "latin1")):
            try: t8.encode(want)
            except UnicodeError: continue
            d8 = encode_text(t8, lx, None, "")
            expect_eq(d8, t8.encode(want), "bytes of a text mentioning a useless encoding")
            if not any(d8.startswith(b) for b, e in BOMS):
                expect_eq(decode_data(d8, lx, newline="").text, t8, "text mentioning a useless encoding")
    # a BOM determines the encoding
    bom, benc = BOMS[case["bom"]]
    try: body = text.encode(benc)
    except UnicodeError: body = None
    if body is not None:
        # UTF-16-LE text starting with NUL looks like UTF-32-LE
        if not ("16" in benc and text.startswith("\0")):
            for e in (None, enc, "latin1"):
                r = decode_data(bom + body, lex, e, newline=rnl)
                expect_eq(r.text, read(text, rnl), "text with a BOM (%s), encoding %r" % (benc, e))
                if e: expect_eq(r.encoding, e, "encoding")
            if not declared:
                d = parce.Document.from_bytes(bom + body, root_lexicon=lex, newline="")
                expect_eq(d.text(), text, "document text with a BOM (%s)" % benc)
                try:
                    again = d.to_bytes(newline="")
                except UnicodeError:
                    again = None        # e.g. another encoding mentioned in the text
                if again is not None:
                    expect_eq(parce.Document.from_bytes(again, root_lexicon=lex, newline="").text(), text, "saving and loading a text with a BOM (%s)" % benc)
    if case["file"] and not accident:
        tmp = tempfile.mkdtemp(prefix="parce-c20-")
        try:
            url = os.path.join(tmp, "file name.txt")
            d = parce.Document(lex, text)
            d.modified = True
            u = url if case["form"] % 2 else "file://" + os.path.join(tmp, "f.txt")
            d.save(u, enc, newline="")
            expect(d.modified is False and d.url == u and d.encoding == enc, "state after saving")
            for kw in ({"encoding": enc}, {}) if declared and enc in ASCII_COMPAT or enc in ("utf-16", "utf-32", "utf-8", "utf-8-sig") and decl != "bad" and (lex is None or declared) else ({"encoding": enc},):
                e = parce.Document.load(u, lex, newline="", **kw)
                expect_eq(e.text(), text, "text of the loaded file %r" % kw)
                expect(e.modified is False and e.url == u, "state after loading")
                e.save(newline="")
                e2 = parce.Document.load(u, lex, newline="", encoding=e.encoding)
                expect_eq(e2.text(), text, "text of the file that was loaded, saved and loaded again")
                e2 = parce.Document.load(u, lex, newline="", **kw)
                expect_eq(e2.text(), text, "text of the file that was loaded, saved and loaded again")
        finally:
            shutil.rmtree(tmp)
    return [enc] if any(ord(c) > 127 for c in text) else None
