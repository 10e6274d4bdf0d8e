"""R05: no script text, tag, number or time makes the renderer's interpretation of a script panic."""
import c02
OUT = ("test", "bench", "/debug/", "/backends/", "renderer/frame.rs", "utils/caches.rs", "/compositing")
def run(c):
    c02.describe(c)
    for F in c.load(("A",) if c.tier == "quick" else ("A", "C")):
        c02.judge(c, F, "ass_renderer", lambda p: not any(x in p for x in OUT), 500, 150, c.pid)
