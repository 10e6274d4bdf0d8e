"""C07: text made from a script carries everything the script holds."""
import re
from dep import Dep
from flow import enum_names
from common import loc, short
AST = "ass_core::parser::ast::"
SEC = "ass_core::parser::ast::section::section_enum::Section"
HEAD = {"ScriptInfo": {"script info"}, "Styles": {"v4+ styles", "v4 styles", "v4++ styles"}, "Events": {"events"}, "Fonts": {"fonts"}, "Graphics": {"graphics"}}
# written only when the format line asks for them (they are not columns of the standard formats)
EXT = {"margin_t", "margin_b", "relative_to"}
DROP = re.compile(r"::(skip|take|step_by|filter|skip_while|take_while|map_while|dedup|dedup_by|dedup_by_key|nth|first|last|split_first|split_last|truncate|pop|rev|chunks_exact)$")
PUSH = re.compile(r"String::(push|push_str|insert|insert_str)$|String.*::(write_str|write_fmt|write_char|extend|add_assign)$|Write>?::write_\w+$")
FMT = {"Style": "styles_format", "Event": "events_format"}
def payloads(F):
    """structs reachable through the section enum: id -> {field: type}"""
    out = {}; st = [SEC]
    while st:
        x = st.pop(); a = F.adts.get(x)
        if not a or x in out: continue
        out[x] = {fl[0]: fl[1] for vn, fs in a["variants"] for fl in fs}
        for ty in [fl[1] for vn, fs in a["variants"] for fl in fs]:
            for y in F.adts:
                if y.startswith(AST) and re.search(re.escape(y) + r"(?![\w:])", ty): st.append(y)
    return {x: fs for x, fs in out.items() if x != SEC and not F.adts[x].get("enum") and not x.endswith("::Span")}
def content(fs): return {n: t for n, t in fs.items() if not re.search(r"::Span(?![\w])", t)}
def skips(c, F, D, P, writers, g):
    """tests on an item's content that decide whether anything of it is written"""
    B = {}
    for b, t in g.calls():
        fn = t[1].get("fn", ""); n = len(g.blocks[b]["s"])
        if PUSH.search(fn): B[b] = {(a[1], a[2]) for o in t[2][1:] for a in D.op(g, o, b, n) if a[0] == "fld" and a[1] in P}
    B = {b: x for b, x in B.items() if x}
    if not B: return
    def avoids(x, s):
        seen = set(); st = [x]
        while st:
            y = st.pop()
            if y == s or g.blocks[y]["t"][0] == "ret": return True
            if y in seen or y in B: continue
            seen.add(y); st += g.succ(y)
        return False
    for s in g.rpo():
        t = g.blocks[s]["t"]
        if t[0] != "switch" or t[1][0] not in ("cp", "mv"): continue
        n = len(g.blocks[s]["s"])
        d = [x for x in g.blocks[s]["s"] if x[0] == "=" and x[1] == t[1][1] and x[2][0] == "disc"]
        if d and re.match(r"(core::option|core::result|core::ops)", (d[0][2][2] if len(d[0][2]) > 2 else "") or g.locals[d[0][2][1][0]]): continue
        ds, _ = D.reaching(g, t[1][1][0], s, n)
        if any(k == "call" and re.search(r"(Vec|slice).*::(is_empty|len)$", x[1].get("fn", "")) for _, _, k, x in ds): continue
        tested = {(a[1], a[2]) for a in D.op(g, t[1], s, n) if a[0] == "fld" and a[1] in P}
        if not tested: continue
        av = {avoids(x, s) for x in g.succ(s)}
        pushed = set().union(*B.values())
        names = ", ".join(sorted(x for _, x in tested))
        same = pushed == tested and not any("Vec<" in P[x][f] for x, f in tested)
        c.need(len(av) == 1 or same, f"conditional:{short(g.id)}:{names}", f"whether {short(g.id)} writes an item depends on its {names}", loc(g, t[-1] if isinstance(t[-1], int) else None))
def run(c):
    c.rule = ("every content field of every part of a section flows into the text each of its writers returns (columns outside the standard formats only "
              "into the writers that follow a format line), the script's writer covers every kind of section under a header of that kind, and no writer "
              "leaves out, reorders or stops short of items of a list")
    for F in c.load(("A", "B", "C")):
        D = Dep(F, control=True); P = payloads(F); n = 0; nw = 0
        c.floor(f"parts of sections in {F.tag}", len(P), 5)
        writers = []; dele = {}
        for f in F.fns.values():
            if not f.id.startswith("ass_core::") and not f.id.startswith("<ass_core::") or not f.blocks or f.kind == "closure" or f.derived: continue
            if "parser/" not in f.file or not f.argc or not f.locals[0].startswith("alloc::string::String"): continue
            ty = f.locals[1].replace("&", "").replace("mut ", "").strip(); ty = re.sub(r"^'\S+ ", "", ty).split("<")[0]
            if ty in P or ty == "ass_core::parser::script::container::Script": writers.append((f, ty))
        per = {}
        for f, ty in writers:
            at = D.ret(f.id, ())
            got = {}
            for a in at:
                if a[0] == "fld" and a[1] in P: got.setdefault(a[1], set()).add(a[2])
            per[f.id] = got
        seen = set(); ids2 = {f.id for f, ty in writers}
        for f, ty in writers:
            got = per[f.id]; want = [ty] if ty in P else list(P)
            whole = len(got.get(ty, ())) >= 2 if ty in P else all(x in got for x in P) or len([x for x in P if x in got]) >= 3
            if not whole: continue   # writes one part only
            nw += 1
            dflt = not any("&[" in l or "Vec<" in l for l in f.locals[1:f.argc + 1]) and ty in P
            for x in want:
                for fld in content(P[x]):
                    if dflt and fld in EXT: continue
                    n += 1
                    c.need(fld in got.get(x, ()), f"unwritten:{short(f.id)}:{x.split('::')[-1]}.{fld}", f"{fld} of {x.split('::')[-1]} never reaches the text {short(f.id)} makes", loc(f))
            # nothing of a list is left out
            for y in F.reach([f.id]):
                g = F.fns.get(y)
                if g is None or not g.blocks or "parser/" not in g.file: continue
                for b, t in g.calls():
                    fn = t[1].get("fn", "")
                    for x, want in FMT.items():
                        if any(z in ids2 for z in F.targets(fn)) and len(t[2]) == 2 and t[2][0][0] in ("cp", "mv") and re.search(r"::%s(?![\w])" % x, g.locals[t[2][0][1][0]]):
                            fl = {a[2] for a in D.op(g, t[2][1], b, len(g.blocks[b]["s"])) if a[0] == "fld" and a[1].endswith("::Script") and a[2] in FMT.values()}
                            c.need(not fl or fl == {want}, f"format:{short(g.id)}:{x}", f"{x} lines are written under {', '.join(sorted(fl))}", loc(g, t[-1]))
                    if not DROP.search(fn) or not t[2]: continue
                    if any(a[0] == "fld" and (a[1] in P or a[2] == "sections") for a in D.op(g, t[2][0], b, len(g.blocks[b]["s"]))):
                        c.bad(f"left-out:{short(g.id)}:{fn.split('::')[-1]}", f"{short(g.id)} uses {fn.split('::')[-1]} on a list of a section while writing it", loc(g, t[-1]))
                    else: c.ok()
                if y not in seen: skips(c, F, D, P, ids2, g)
                seen.add(y)
        fns = [f for f in F.fns.values() if f.blocks and "parser/" in f.file and (f.id.startswith("ass_core") or f.id.startswith("<ass_core"))]
        ne = enum_names(F, D, fns, SEC, HEAD, c, "header", lambda s: s.strip("[] \n").lower())
        c.floor(f"writers in {F.tag}", nw, 5); c.floor(f"content fields traced in {F.tag}", n, 40); c.floor(f"headers in {F.tag}", ne, 4)
