"""Sets of bundled rule files, for catalogues of other languages than the bundled ones."""
import itertools

def q(s):
    return '"' + s.replace('"', '\\"') + '"'

def spec(id, translit=(), authors=(), stage="", tests=(), english="English", korean="한국어", codes=("aa", "aaa"), script="Latn", rest=True):
    t = "lang:\n    id = %s\n    codes = %s\n    english = %s\n    korean = %s\n    script = %s\n" % (
        q(id), ", ".join(map(q, codes)), q(english), q(korean), q(script))
    if translit: t += "    translit = %s\n" % ", ".join(map(q, translit))
    if authors or stage or rest:
        t += "config:\n"
        if authors: t += "    author = %s\n" % ", ".join(map(q, authors))
        if stage or rest: t += "    stage = %s\n" % q(stage)
    if tests or rest:
        t += "test:\n" + "".join("    %s -> %s\n" % (q(a), q(b)) for a, b in tests)
    return t

def product():
    names = ["English", "<b>&amp; 'it'", 'the "Q"', "ligne\u2028séparée", "L" + "o" * 40 + "ng", ""]
    koreans = ["한국어", "", "가" * 30, "a & b"]
    tr = [(), ("x",), ("y", "x"), ("z", "x", "y"), ("x", "x"), ("pinyin", "w")]
    au = [(), ("A",), ("A, B", "나"), ("<c@d.e>", "C", "C", "D")]
    st = ["", "draft", "단계 1"]
    te = [(), (("a", ""),), (("a", "가"), ("a", "가")), (("b", "나"), ("a", "가"), ("b", "다"), ("<&>", '"')), (("", ""),),
          tuple(("w%d" % i, "결과%d" % i) for i in range(40))]
    out = {}
    for i, (a, b, c, d) in enumerate(itertools.product(tr, au, st, te)):
        id = "l%03d" % i
        out[id + ".hsl"] = spec(id, a, b, c, d, names[i % 6], koreans[i // 7 % 4], ("%c%c" % (97 + i % 26, 97 + i // 26 % 26), ("abc", "", "xyz")[i % 3]),
                                ("Latn", "Cyrl", "Grek", "Geor", "Hrkt")[i % 5], i % 2 == 0)
    return out

def sets():
    yield product()
    yield {"only.hsl": spec("only", rest=False)}
    yield {n + ".hsl": spec(n) for n in ("b", "a", "ab", "a-b", "C", "z.y", "가")}
    yield {"a.hsl": spec("a", ("one",)), "b.hsl": spec("b", ("two", "one", "three")), "c.hsl": spec("c"), "d.hsl": spec("d", ("zero",), tests=(("a", ""), ("a", "")))}
