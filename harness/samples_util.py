"""Sample texts for the bundled languages."""
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "samples")
LANGS = {
    "example.bash": "parce.lang.bash:Bash.root", "example.c": "parce.lang.c:C.root", "example.css": "parce.lang.css:Css.root", "example.csv": "parce.lang.csv:Csv.root",
    "example.dtd": "parce.lang.xml:Dtd.root", "example.html": "parce.lang.html:Html.root", "example.ini": "parce.lang.ini:Ini.root",
    "example.js": "parce.lang.javascript:JavaScript.root", "example.json": "parce.lang.json:Json.root",
    "example.ly": "parce.lang.lilypond:LilyPond.root", "example.py": "parce.lang.python:Python.root", "example.scm": "parce.lang.scheme:Scheme.root",
    "example.tcl": "parce.lang.tcl:Tcl.root", "example.tex": "parce.lang.tex:Latex.root", "example.texinfo": "parce.lang.texinfo:Texinfo.root",
    "example.toml": "parce.lang.toml:Toml.root", "example.xml": "parce.lang.xml:Xml.root", "example.1": "parce.lang.troff:Troff.root",
}
LANGS = {k: v for k, v in LANGS.items() if v}
_texts = {}

def text_of(name):
    if name not in _texts:
        with open(os.path.join(D, name), encoding="utf-8") as f:
            _texts[name] = f.read()
    return _texts[name]

def gen_sample(rng, maxlen=400):
    name = rng.choice(sorted(LANGS))
    t = text_of(name)
    return {"mode": "sample", "lang": name, "text": mutate(rng, t[:rng.randint(0, maxlen)])}

def mutate(rng, t):
    for _ in range(rng.choice((0, 1, 2, 4))):
        if not t: break
        i = rng.randint(0, len(t)); j = rng.randint(0, len(t))
        r = rng.random()
        if r < .4: t = t[:i] + t[min(len(t), i + rng.randint(1, 5)):]
        elif r < .7: t = t[:i] + rng.choice("{}()[]<>\"'\\#%/*&;:=\n a0") + t[i:]
        else: t = t[:i] + t[min(i, j):max(i, j)][:20] + t[i:]
    return t

def root_lexicon(name):
    import importlib
    mod, _, path = LANGS[name].partition(":")
    o = importlib.import_module(mod)
    for p in path.split("."):
        o = getattr(o, p)
    return o
