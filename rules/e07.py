"""E07: no document, argument or sequence of calls makes the editor panic."""
import c02
def run(c):
    c02.describe(c)
    for F in c.load(("A",) if c.tier == "quick" else ("A", "C")):
        c02.judge(c, F, "ass_editor", lambda p: "test" not in p and "bench" not in p and "/sessions/memory" not in p, 500, 150, c.pid)
