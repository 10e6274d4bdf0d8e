"""X01: no unchecked memory operation outside the libass debugging bridge."""
from common import loc
ALLOW_TRAITS = ("core::clone::TrivialClone", "bytemuck::pod::Pod", "bytemuck::zeroable::Zeroable")
FFI = "ass_renderer::debug::libass"
def run(c):
    c.rule = ("every body of every workspace crate, in three feature sets: no unsafe block, unsafe function, unsafe impl, "
              "mutable static, extern item or raw-pointer dereference originating in workspace source, except inside the "
              "feature-gated libass FFI module and Pod/Zeroable impls of plain-data uniforms; code expanded from "
              "macros of the standard library and dependencies is trusted")
    for F in c.load():
        n = 0
        for d in F.unsafe:
            n += 1
            if d["what"] == "foreign-macro": continue
            fn = d.get("fn", "")
            if FFI in fn: continue
            if d["what"] in ("impl", "unsafe-impl") and any(t in str(d) for t in ALLOW_TRAITS): continue
            c.bad(f"{F.tag}:{d['what']}:{fn}", f"unsafe construct ({d['what']}) in safe library code", f"{d['file']}:{d['line']} in {fn}")
        for d in F.impls:
            if d.get("unsafe") and not d.get("trait", "").startswith(ALLOW_TRAITS) and "Serialize" not in d.get("trait", ""):
                c.bad(f"{F.tag}:impl:{d['trait']} for {d['self']}", "hand-written unsafe trait implementation", f"{d['file']}:{d['line']}")
        fns = 0
        for f in F.fns.values():
            if FFI in f.id: continue
            fns += 1
            ok = True
            if f.d.get("unsafe") or "unsafe fn" in (f.sig or "") or f.sig.startswith("unsafe") :
                if not f.derived and "__RUST_STD" not in f.id: c.bad(f"{F.tag}:fn:{f.id}", "unsafe function", loc(f)); ok = False
            if ok: c.ok()
        c.counts[f"bodies_{F.tag}"] = fns; c.counts[f"unsafe_regions_seen_{F.tag}"] = n
        c.floor(f"bodies in config {F.tag}", fns, 1500)
