"""Which properties a finding of the product analysis breaks."""
import re

KIND = {
    "ExpectedFloat": "C06", "VTNIndexOutOfRange": "C08", "ExpectedInteger": "C08", "ExpectedVTNIndex": "C09",
    "EveryFaceElementMustHaveAtLeastThreeVertices": "C07", "EveryVTNIndexMustHaveTheSameFormForAGivenElement": "C09",
    "SmoothingGroupNameMustBeOffOrInteger": "C10", "SmoothingGroupDeclarationHasNoName": "C10", "MaterialStatementHasNoName": "C11",
    "ElementMustBeAPointLineOrFace": "C07",
}
FIELD = {
    "vertex_set": ["C06"], "texture_vertex_set": ["C06"], "normal_vertex_set": ["C06"], "group_set": ["C10"], "smoothing_group_set": ["C10"],
    "shape_set": ["C10"], "geometry_set": ["C11"], "name": ["C12"], "material_libraries": ["C12"],
}


def statement(ctl):
    w = re.split(r"\W", ctl)[0]
    return {"V": ["C06"], "Vt": ["C06"], "Vn": ["C06"], "P": ["C07"], "L": ["C07"], "F": ["C07"], "G": ["C10"], "S": ["C10"], "Use": ["C11"], "OName": ["C12"], "OEol": ["C12"], "Lib": ["C12"]}.get(w, [])


WORD = {"v": "C06", "vt": "C06", "vn": "C06", "p": "C07", "l": "C07", "f": "C07", "g": "C10", "s": "C10", "usemtl": "C11", "o": "C12", "mtllib": "C12"}


def last_line(f):
    """What the last line of the input is about."""
    lines = [l.split() for l in (f.get("input") or "").split("\n")]
    lines = [l for l in lines if l]
    out = set()
    if lines:
        out.update(WORD[w] for w in lines[-1] if w in WORD)
        if lines[-1][0] in ("p", "l", "f"):
            out.update(["C08", "C09"])
    return out


def heads(f):
    """What the statements of the input are about."""
    words = {l.split()[0] for l in (f.get("input") or "").split("\n") if l.split()}
    out = {WORD[w] for w in words if w in WORD}
    if words & {"p", "l", "f"}:
        out.update(["C10", "C11"])
    return out


def kinds(text):
    m = re.match(r"Err\(ParseError \{.*?kind: (\w+)", text) or re.match(r"(\w+)$", text)
    return [m.group(1)] if m else []


def several(f):
    """Does the input have more than one object?"""
    lines = [l.split() for l in (f.get("input") or "").split("\n")]
    lines = [l for l in lines if l and l[0] != "mtllib"]
    return any(l[0] == "o" for l in lines[1:])


def attribute(fmt, f):
    out = set()
    if f["kind"] == "panic":
        out.add("C01")
        if "unbounded recursion" in f.get("detail", ""):
            out.add("C02")
        if "undefined behaviour" in f.get("detail", ""):
            out.add("C03")
    elif f["kind"] == "hang":
        out.add("C02")
    if f["kind"] in ("panic", "hang"):
        if fmt == "mtl":
            out.update(["C13", "C14"])
        else:
            out.add("C05")
            out.update(statement(f.get("ctl", "")))
            if "ndex" in f.get("at", "") or statement(f.get("ctl", "")) == ["C07"]:
                out.update(["C08", "C09"])
            # a file that has these statements gives nothing at all
            out.update(heads(f))
            if several(f):
                out.add("C12")
    for d in f.get("diffs", []):
        path, got, want = d["path"], d["got"], d["want"]
        if path == [] or path[-1] == "kind":
            if fmt == "mtl":
                out.add("C13")
                if got.startswith("Err") or want.startswith("Err"):
                    out.add("C14")
            else:
                out.add("C05")
                out.update(statement(f.get("ctl", "")))
                out.update(last_line(f))
                for k in kinds(got) + kinds(want):
                    if k in KIND:
                        out.add(KIND[k])
                if several(f):
                    out.add("C12")
        elif path[-1] == "line_number":
            out.add("C15")
        elif path[-1] == "message":
            out.add("C21")
        elif fmt == "mtl":
            out.add("C14")
        else:
            names = [p for p in path if not p.startswith("[")]
            if "objects" in path:
                i = path.index("objects")
                if i + 1 < len(path) and path[i + 1] not in ("[0]",):
                    out.add("C12")
            for n in names:
                out.update(FIELD.get(n, []))
            if "element_set" in names:
                out.add("C07")
                if path[-1] != "len":
                    if re.fullmatch(r"-?\d+", got) and re.fullmatch(r"-?\d+", want):
                        out.add("C08")
                    else:
                        out.add("C09")
    return out
