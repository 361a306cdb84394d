"""C27: tire property files over a grammar of lines."""
import glob
import itertools
import os
import tempfile

from mc import core

CHECK = dict(
    id="C27",
    level="exploration",
    technique="exhaustive enumeration of files over a grammar (line forms x spacing x number formats x comments x line ends, and all orders of short files), "
    "read by the real reader and compared with the parameters the file was generated from; the repository's files against an independent tokeniser",
    rule="all combinations of the line alphabet for one-line files, all sequences up to length 4 of line kinds, all permutations of sections; a case is one file",
    assumptions=["comments start with $ or ! and reach to the end of the line, as in the property files of tire models"],
    note="All one-line files over the grammar, all sequences of line kinds up to length 4, every file of the repository.",
)
NUMBERS = [("1", 1.0), ("-1.5", -1.5), ("0.40", 0.4), ("1e3", 1000.0), ("2.5E-04", 2.5e-4), ("+7", 7.0), (".5", 0.5), ("5.", 5.0), ("-3.E+2", -300.0), ("0", 0.0)]
SPACE = ["", " ", "   ", "\t", " \t "]
COMMENT = ["", "$Scale factor", "  $ text", "\t$ a = 5 $ b", " $$", "! note", " ! x = 3", "$ 100% = all [units]"]
EOL = ["\n", "\r\n", ""]
NAMES = ["PCX1", "LFZO", "epsilon_v", "Q2"]
KINDS = {  # line kind -> (text, parameters)
    "section": ("[SCALING_COEFFICIENTS]", {}),
    "comment": ("$-------------------------------parameter", {}),
    "comment=": ("$ LFZO = 9", {}),
    "bang": ("! LFZO = 9", {}),
    "blank": ("", {}),
    "spaces": ("   ", {}),
    "word": ("TYRESIDE = 'left' $left, right", {}),
    "word=": ("FILE_FORMAT='ASCII'", {}),
    "empty": ("NOTHING = $ none", {}),
    "p1": ("PCX1                     = 1.3605            $Shape factor Cfx", dict(PCX1=1.3605)),
    "p1b": ("PCX1=2", dict(PCX1=2.0)),
    "p2": ("\tLFZO\t=\t-4e-1", dict(LFZO=-0.4)),
    "table": ("0.1  0.2  0.3", {}),
}


def units(tier):
    q = tier == "quick"
    out = [dict(kind="lines", name=n) for n in NAMES]
    out += [dict(kind="files", first=k, depth=3 if q else 4) for k in KINDS]
    return out + [dict(kind="sections"), dict(kind="repository"), dict(kind="precision"), dict(kind="characters")]


def run_unit(unit, rec):
    with tempfile.TemporaryDirectory(dir=core.scratch_dir()) as d:
        globals()["run_" + unit["kind"]](unit, rec, os.path.join(d, "x.tir"))


EXTRA = dict(epsilonv=1e-6, epsilonx=1e-3, epsilonk=1e-6, epsilony=1e-3)


def expect(text, want, rec, path, both=False):
    from lumos.models.tires.utils import create_params_from_tir_file, read_tir_file

    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())
    got = read_tir_file(path)
    rec.check(got == want, "parameters", lambda: f"read {got}, file states {want}")
    rec.check(all(type(v) is float for v in got.values()), "type", lambda: f"types {got}")
    if both:
        got = create_params_from_tir_file(path)
        rec.check(got == {**want, **EXTRA}, "with computed parameters", lambda: f"read {got}")
    rec.outcome("files")


def run_lines(unit, rec, path):
    n = unit["name"]
    for a, b, c, d, (t, v), k, e in itertools.product(SPACE[:4], SPACE, SPACE, ("", " ", "\t"), NUMBERS, COMMENT, EOL):
        if (a and b and c) and (e or d):
            continue
        text = f"{a}{n}{b}={c}{t}{d}{k}{e}"
        rec.at(dict(line=text))
        expect(text, {n: v}, rec, path)
    rec.nontrivial(n)


def run_files(unit, rec, path):
    rest = itertools.chain(*[itertools.product(KINDS, repeat=n) for n in range(unit["depth"])])
    for tail in rest:
        seq = (unit["first"],) + tail
        want = {}
        for k in seq:
            want.update(KINDS[k][1])
        for eol in ("\n", "\r\n", "\r"):
            rec.at(dict(lines=seq, eol=eol))
            expect(eol.join(KINDS[k][0] for k in seq) + eol, want, rec, path, both=len(seq) < 3)
    rec.nontrivial(unit["first"])


def run_sections(unit, rec, path):
    """All orders of four sections."""
    secs = [("[MODEL]", [("LONGVL", "15")]), ("[DIMENSION]", [("UNLOADED_RADIUS", "0.4"), ("WIDTH", "0.235")]), ("[SCALING_COEFFICIENTS]", [("LFZO", "1"), ("LCX", "1.1")]),
            ("[LONGITUDINAL_COEFFICIENTS]", [("PCX1", "1.3605"), ("PDX3", "-8.768")])]
    for order in itertools.permutations(range(4)):
        for flip in (False, True):
            lines, want = ["$----units"], {}
            for i in order:
                lines.append(secs[i][0])
                for n, v in (secs[i][1][::-1] if flip else secs[i][1]):
                    lines.append(f"{n:<25}= {v:<18}$comment of {n}")
                    want[n] = float(v)
            rec.at(dict(order=order, flip=flip))
            expect("\n".join(lines), want, rec, path, both=True)
    rec.nontrivial("sections")


def run_precision(unit, rec, path):
    """Values are read to full precision."""
    import numpy as np

    want, lines = {}, []
    for i, e in enumerate(range(-12, 13)):
        for j, m in enumerate((1.0, 1 / 3, -np.pi, 9.999999999999999)):
            n, v = f"P{i}_{j}", m * 10.0 ** e
            want[n] = float(repr(v))
            lines.append(f"{n} = {v!r} $ {i}")
    rec.at("precision")
    expect("\n".join(lines), want, rec, path, both=True)
    rec.nontrivial("precision")


def run_characters(unit, rec, path):
    """Comments hold characters of any encoding."""
    chars = [bytes([i]) for i in range(256) if i not in (10, 13)] + [chr(c).encode(e) for c in (0xB0, 0xA9, 0xFC, 0xDF) for e in ("latin-1", "utf-8", "cp437", "cp1252") if c != 0xA9 or e != "cp437"]
    for c in chars:
        for k, lines in enumerate(([b"$ " + c, b"PCX1 = 1.5", b"LFZO = 2"], [b"PCX1 = 1.5 $ [" + c + b"] =" + c, b"LFZO = 2"],
                                   [b"! " + c * 3, b"PCX1 = 1.5", b"LFZO = 2 !" + c], [b"TITLE = '" + c + b"'", b"PCX1 = 1.5", b"LFZO = 2"])):
            if k == 3 and c in b"0123456789":
                continue
            rec.at(dict(lines=[repr(x) for x in lines]))
            want = dict(PCX1=1.5, LFZO=2.0)
            for eol in (b"\n", b"\r\n"):
                expect(eol.join(lines) + eol, want, rec, path)
    rec.nontrivial("characters")


def run_repository(unit, rec, path):
    """Every file of the repository, and every parameter of it in the tire it describes."""
    import lumos
    from lumos.models.tires.pacejka import MF52
    from lumos.models.tires.utils import create_params_from_tir_file, read_tir_file

    for f in sorted(glob.glob(os.path.join(os.path.dirname(lumos.__file__), "..", "data", "tires", "*.tir"))):
        rec.at(os.path.basename(f))
        want = {}
        for line in open(f).read().splitlines():
            line = line.split("$")[0].split("!")[0]
            if line.count("=") == 1:
                n, v = [w.strip() for w in line.split("=")]
                try:
                    want[n] = float(v)
                except ValueError:
                    pass
        rec.check(len(want) > 100, "harness", "few parameters")
        got = read_tir_file(f)
        rec.check(got == want, "parameters", lambda: f"differences in {[n for n in set(got) | set(want) if got.get(n) != want.get(n)]}")
        full = create_params_from_tir_file(f)
        rec.check(full == {**want, **EXTRA}, "with computed parameters", "parameters with computed ones")
        need = set(MF52.get_default_params())
        rec.check(need <= set(full), "complete", lambda: f"the tire model needs {sorted(need - set(full))}")
        if os.path.basename(f) == "default.tir":
            d = MF52.get_default_params()
            rec.check(all(full[n] == d[n] for n in d), "default", lambda: f"defaults differ in {[n for n in d if full[n] != d[n]]}")
        rec.nontrivial(os.path.basename(f))
