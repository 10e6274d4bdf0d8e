"""E03: every change of a document's text is announced to its listener, with what changed."""
import re
from edits import Edits, Typestate, Effects, Records
from climb import Climb
from e01 import entries
from common import loc, short
EV = {"TextInserted": {"position": "position", "text": "ins"}, "TextDeleted": {"range": "range", "deleted_text": "del"},
      "TextReplaced": {"range": "range", "old_text": "del", "new_text": "ins"}}
def run(c):
    c.rule = ("typestate over all paths of every public operation that can change the text: a successful exit has sent an event; each event "
              "gives the position, range and inserted text of the edit around it and old text read before it; a channel taken out of the document is put back")
    for F in c.load(("A", "B")):
        E = Edits(F); X = Effects(E); K = Climb(F, X.C)
        sends = {f.id for f in E.fns for b, t in f.calls() if re.search(r"mpsc::(Sync)?Sender.*::(send|try_send)$", t[1].get("fn", "")) and doc_channel(E, f, t, b)}
        c.floor(f"announcing functions in {F.tag}", len(sends), 1)
        T = Typestate(E, sends, "event_tx", X); n = 0
        for f in entries(E):
            n += 1
            c.need(("ok", 1) not in T.summary(f.id, 0), f"silent:{f.name}", f"{short(f.id)} can change the text and succeed without telling the document's listener", loc(f))
        for f in E.fns:
            if f.kind == "closure" or not (f.pub or f.trait) or f.id not in T.gaters(): continue
            lost = any(u for o, (w, u) in T.summary(f.id, (0, 0)))
            c.need(not lost, f"channel-lost:{f.name}", f"{short(f.id)} takes the event channel out of the document and a way out does not put it back", loc(f))
        c.floor(f"editing operations in {F.tag}", n, 60)
        c.floor(f"events built in {F.tag}", Records(E, X, T, K).check(c, "DocumentEvent", EV), 4)
def doc_channel(E, f, t, b):
    return any(a[0] in ("fld", "p") and (a[0] == "fld" and a[2] == "event_tx" or a[0] == "p" and any(n == "event_tx" for n, _ in a[2])) for a in E.D.op(f, t[2][0], b, len(f.blocks[b]["s"])))
