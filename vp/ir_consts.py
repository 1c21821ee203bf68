"""Integer constants the code compares with: a dictionary for the input search."""
import re


def consts(prog, fn):
    out = set()
    try:
        f = prog.bydem_one(fn)
    except Exception:
        return out
    seen = set()
    wl = [f]
    while wl:
        f = wl.pop()
        if f.name in seen or len(seen) > 40:
            continue
        seen.add(f.name)
        txt = getattr(f, 'text', None)
        if not txt:
            continue
        for m in re.finditer(r'icmp \w+ \w+ [^,]+, (-?\d+)', txt):
            v = int(m.group(1)) & 0xffffffff
            out |= {v, (v + 1) & 0xffffffff, (v - 1) & 0xffffffff}
        for m in re.finditer(r'^\s+i\d+ (-?\d+), label', txt, re.M):
            out.add(int(m.group(1)) & 0xffffffff)
        for m in re.finditer(r'call [^@]*(@"?[\w.$]+"?)', txt):
            g = prog.funcs.get(m.group(1))
            if g is not None:
                wl.append(g)
    return out
