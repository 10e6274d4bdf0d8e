"""C05: style columns: readers, writers, copies and lists agree."""
from columns import Columns
def run(c):
    c.rule = ("every struct field named like a style column is filled from that column (by case-insensitive name or from the "
              "same-named field of another style), every writer emits it under that column's name or position, and every "
              "constant column list is the standard one")
    for F in c.load(("A", "B")):
        nread, ncopy, nw, nl = Columns(F, "S").run(c)
        c.floor(f"style columns read in {F.tag}", nread, 18); c.floor(f"style columns copied in {F.tag}", ncopy, 20)
        c.floor(f"style columns written in {F.tag}", nw, 18); c.floor(f"style column lists in {F.tag}", nl, 2)
