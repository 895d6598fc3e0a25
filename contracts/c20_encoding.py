"""Contracts on the choice of encodings (property C20).

bytes are modelled as sequences of integers, like strings.
"""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef, ContractFn
import parce.docio as pd

D = "parce.docio:"
BOMS = (("utf-8", "\\xef\\xbb\\xbf", 3), ("utf_32_le", "\\xff\\xfe\\x00\\x00", 4), ("utf_32_be", "\\x00\\x00\\xfe\\xff", 4),
        ("utf_16_le", "\\xff\\xfe", 2), ("utf_16_be", "\\xfe\\xff", 2))

def starts(bom, n):
    return "(len(data) >= %d and data[0:%d] == '%s')" % (n, n, bom)

def load(reg):
    # the byte order mark: the longest one that the data starts with
    ens, none = [], []
    for enc, bom, n in BOMS:
        c = starts(bom, n)
        if enc == "utf_16_le": c = "(%s and not %s)" % (c, starts("\\xff\\xfe\\x00\\x00", 4))
        ens.append("implies(%s, result[0] is not None and result[0] == '%s' and result[1] == data[%d:len(data)])" % (c, enc, n))
        none.append(c)
    ens.append("implies(not (%s), result[0] is None and result[1] == data)" % " or ".join(none))
    S, OS = "str", "opt[str]"
    # the callers see the pair through two names only
    reg.specfuns["bomenc"] = SpecDef("bomenc", [S], OS, ["data"], "".join("ite(%s, '%s', " % (starts(b, n), e) for e, b, n in BOMS) + "None" + ")" * len(BOMS), reg)
    reg.specfuns["bomrest"] = SpecDef("bomrest", [S], S, ["data"], "".join("ite(%s, data[%d:len(data)], " % (starts(b, n), n) for e, b, n in BOMS) + "data" + ")" * len(BOMS), reg)
    same = ["result[0] == bomenc(data)", "result[1] == bomrest(data)"]
    known = "bomenc(data) is None or " + " or ".join("bomenc(data) == '%s'" % b[0] for b in BOMS)
    reg.add(Contract("parce.util:get_bom_encoding", params={"data": "str"}, returns="tuple[opt[str],str]", ensures=same + [known]))
    reg.add(Contract("parce.util:get_bom_encoding", name="get_bom_encoding, in full", params={"data": "str"}, returns="tuple[opt[str],str]", ensures=ens))
    # whether Python knows the codec, what a language says, what Python encodes and decodes: any functions
    S, OS = "str", "opt[str]"
    for f, a, r in (("usable", [S], "bool"), ("found", ["obj:io", S], OS), ("dflt", ["obj:io"], OS), ("handler", ["opt[obj:lexicon]"], "obj:io"), ("encoded", [S, S, OS], S), ("decoded", [S, S, OS, OS], S), ("rough", [S, S], S),
                    ("reglex", ["obj:registry", S], "opt[obj:lexicon]")):
        reg.specfuns[f] = SpecDef(f, a, r, ["a%d" % i for i in range(len(a))], None, reg)
    doc = "standard library"
    reg.add(Contract("spec:try_encode", params={"self": S, "encoding": S}, returns=S, raises={"LookupError": "not usable(encoding)"}, trusted="str.encode raises LookupError exactly for an encoding that cannot be used"))
    reg.specfuns["valid"] = SpecDef("valid", [OS], OS, ["e"], "ite(e is not None and len(e) > 0 and usable(the(e)), e, None)", reg)
    reg.add(Contract(D + "_validate_encoding", params={"encoding": OS}, returns=OS, ensures=["(result is None) == (not (encoding is not None and len(encoding) > 0 and usable(the(encoding))))", "implies(result is not None, result == encoding)", "result == valid(encoding)"]))
    reg.add(Contract(D + "IO.get", params={"cls": None, "lexicon": "opt[obj:lexicon]"}, returns="obj:io", ensures=["result is handler(lexicon)"], trusted="the handler of a language is some object (bounded)"))
    reg.add(Contract("spec:find_encoding", params={"self": "obj:io", "text": S}, returns=OS, ensures=["result == found(self, text)"], trusted="any function of the text"))
    reg.add(Contract("spec:default_encoding", params={"self": "obj:io"}, returns=OS, ensures=["result == dflt(self)"], trusted="any function"))
    reg.add(Contract("_io:BytesIO", params={"data": OS}, returns="obj:bytesio", ensures=["implies(data is not None, result.data == the(data))"], trusted=doc))
    reg.add(Contract("_io:TextIOWrapper", params={"buffer": "obj:bytesio", "encoding": S, "errors": OS, "newline": OS}, returns="obj:textio", ensures=["result.buffer is buffer", "result.encoding == encoding", "result.errors == errors", "result.newline == newline"], trusted=doc))
    reg.add(Contract("spec:textio.read", params={"self": "obj:textio"}, returns=S, ensures=["result == decoded(self.buffer.data, self.encoding, self.errors, self.newline)"], trusted=doc))
    reg.add(Contract("spec:bytes.decode", params={"self": S, "encoding": S, "errors": S}, returns=S, ensures=["result == rough(self, encoding)"], trusted=doc))
    reg.add(Contract("spec:registry.find", params={"self": "obj:registry", "name": OS, "filename": OS, "mimetype": OS, "contents": OS}, returns="opt[obj:lexicon]", trusted="any lexicon (C19)"))
    T = "ite(valid(found({h}, {t})) is not None, valid(found({h}, {t})), {rest})"
    dec = dict(data=S, root_lexicon="opt[obj:lexicon]", encoding=OS, errors=OS, newline=OS, registry="obj:registry", url=OS, mimetype=OS)
    bom = "get_bom_0"
    table = {"_BOM_WRITING_ENCODINGS": "map[opt[str],opt[str]]"}
    rows = ["'%s' in _BOM_WRITING_ENCODINGS and _BOM_WRITING_ENCODINGS['%s'] == '%s'" % (k, k, v) for k, v in pd._BOM_WRITING_ENCODINGS.items()]
    rest = "bomrest(data)"
    h = "handler(root_lexicon)"
    snippet = "rough(%s[0:ite(len(%s) < 5000, len(%s), 5000)], ite(bomenc(data) is None, 'latin1', the(bomenc(data))))" % (rest, rest, rest)
    reg.specfuns["snippet"] = SpecDef("snippet", [S], S, ["data"], snippet, reg)
    docenc = "valid(found(%s, snippet(data)))" % h
    reg.specfuns["chosen"] = SpecDef("chosen", [OS, OS, OS, OS], S, list("abcd"), "".join("ite({0} is not None and len({0}) > 0, the({0}), ".format(x) for x in "abcd") + "'utf-8'" + ")" * 4, reg)
    ok = "({0} is not None and len({0}) > 0)"
    pick = lambda *xs: "".join("ite(%s, the(%s), " % (ok.format(x), x) for x in xs) + "'utf-8'" + ")" * len(xs)
    reg.add(Contract(D + "decode_data", params=dec, opaque=("bomenc", "bomrest"), free=table, requires=rows + ["not (None in _BOM_WRITING_ENCODINGS)"], returns="tuple[opt[obj:lexicon],str,opt[str]]",
        ensures=["result[0] == root_lexicon",
                 "result[1] == decoded(%s, %s, errors, newline)" % (rest, "chosen(bomenc(data), %s, encoding, valid(dflt(%s)))" % (docenc, h)),
                 # the encoding that is remembered: the given one, that in the text, or one that writes the byte order mark again
                 "implies({e}, result[2] == encoding)".format(e=ok.format("encoding")),
                 "implies(not {e} and {d}, result[2] == {doc})".format(e=ok.format("encoding"), d=ok.format(docenc), doc=docenc),
                 "implies(not {e} and not {d} and bomenc(data) is None, result[2] is None)".format(e=ok.format("encoding"), d=ok.format(docenc))] +
                ["implies(not {e} and not {d} and bomenc(data) is not None and bomenc(data) == '{b}', result[2] is not None and result[2] == '{w}')".format(e=ok.format("encoding"), d=ok.format(docenc), b=b, w=w)
                 for b, w in (("utf-8", "utf-8-sig"), ("utf_16_le", "utf-16"), ("utf_16_be", "utf-16"), ("utf_32_le", "utf-32"), ("utf_32_be", "utf-32"))]))
    # writing
    reg.add(Contract("spec:textio.write", params={"self": "obj:textio", "text": S}, modifies=["heap.data"], ensures=["self.buffer.data == encoded(text, self.encoding, self.newline)"], trusted=doc))
    reg.add(Contract("spec:textio.flush", params={"self": "obj:textio"}, trusted=doc))
    reg.add(Contract("spec:bytesio.getvalue", params={"self": "obj:bytesio"}, returns=S, ensures=["result == self.data"], trusted=doc))
    tx = "text[0:ite(len(text) < 5000, len(text), 5000)]"
    reg.add(Contract(D + "encode_text", params={"text": S, "root_lexicon": "opt[obj:lexicon]", "encoding": OS, "newline": OS}, returns=S,
        ensures=["result == encoded(text, %s, newline)" % pick("encoding", "valid(found(%s, %s))" % (h, tx), "valid(dflt(%s))" % h)]))
    return {"fields": {"data": S, "buffer": "obj:bytesio", "encoding": S, "errors": OS, "newline": OS}, "files": ("textio",), "methods": {
        "io.find_encoding": "spec:find_encoding", "io.default_encoding": "spec:default_encoding", "textio.read": "spec:textio.read", "textio.write": "spec:textio.write", "textio.flush": "spec:textio.flush", "bytesio.getvalue": "spec:bytesio.getvalue", "str.encode": "spec:try_encode", "str.decode": "spec:bytes.decode", "registry.find": "spec:registry.find"}}
