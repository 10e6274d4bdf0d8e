"""C06: event columns and event kinds: readers, writers, copies and lists agree."""
from columns import Columns
from flow import enum_names
KINDS = {k: {k.lower()} for k in ("Dialogue", "Comment", "Picture", "Sound", "Movie", "Command")}
def run(c):
    c.rule = ("every struct field named like an event column is filled from that column (by case-insensitive name, by position or "
              "from the same-named field of another event), every writer emits it under that column's name or position, every "
              "constant column list is the standard one, and every event kind goes with its keyword")
    for F in c.load(("A", "B")):
        C = Columns(F, "E"); nread, ncopy, nw, nl = C.run(c)
        ne = enum_names(F, C.D, C.fns, "ass_core::parser::ast::event::event_type::EventType", KINDS, c, "kind", lambda s: s.strip(": ").lower())
        c.floor(f"event columns read in {F.tag}", nread, 8); c.floor(f"event columns copied in {F.tag}", ncopy, 6)
        c.floor(f"event columns written in {F.tag}", nw, 8); c.floor(f"event column lists in {F.tag}", nl, 2)
        c.floor(f"event kinds named in {F.tag}", ne, 6)
