#!/usr/bin/env python3
"""Development helper: takes the instruction forms of each CPU once and writes them as assembler text plus expected bytes
(scen/insn/<cpu>.h, committed). The checks use the committed tables only, never the repository's."""
import re, os, sys
REPO = "/repo"; OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "scen", "insn")
CPUS = {"z80": "iz80.c", "z80n": "iz80n.c", "gb": "igb.c", "6502": "i6502.c", "65c02": "i65c02.c", "65ce02": "i65ce02.c", "65816": "i65816.c", "6800": "i6800.c", "6801": "i6801.c", "6809": "i6809.c", "8008": "i8008.c", "8080": "i8080.c", "spc700": "ispc700.c", "huc6280": "ihuc6280.c"}
def rows(f):
    for l in open(os.path.join(REPO, f), encoding="latin1"):
        m = re.match(r'\s*\{\s*"((?:[^"\\]|\\.)*)"\s*,\s*(.*?)\}\s*,', l)
        if m:
            v = []
            for x in m.group(2).split(","):
                x = x.strip()
                b = re.match(r"B_\((\d+)\)", x)
                v.append(int(b.group(1), 2) if b else {"YES": 1, "NO": 0}.get(x, None) if not x[:1].isdigit() else int(x, 0))
            yield m.group(1), v
def le(h): return "%02X%02X" % (h & 255, h >> 8)
def one(h): return "%02X" % h if h < 256 else "%02X%02X" % (h >> 8, h & 255)
def gen(cpu):
    out, rel, seen, fam = [], [], set(), cpu
    all_rows = list(rows(CPUS[cpu])); texts = {t for t, v in all_rows}
    def add(text, enc, key=None):
        k = (text)
        if k in seen: return
        seen.add(k); out.append((text, enc))
    def addrel(text, enc):
        if text in seen: return
        seen.add(text); rel.append((text, enc))
    big = cpu in ("6800", "6801", "6809"); W = "W" if big else "w"
    for t, v in all_rows:
        h, ty = v[0], v[1]
        val = v[-1]
        six = cpu.startswith("65") or cpu.startswith("68") or cpu == "huc6280"
        def sub(s, names):  # replace lower-case markers in order
            r = "";i = 0
            for ch in s:
                if ch in "xs?&~*y" and i < len(names): r += names[i]; i += 1
                else: r += ch
            return r
        if cpu in ("z80", "z80n", "gb", "8008", "8080"):
            two = cpu in ("z80", "z80n", "gb")
            st = t.replace("IXs", "IX+%s").replace("IYs", "IY+%s").replace("SP+s", "SP+%s"); st = re.sub(r"(?<!%)s\)", "%s)", st.replace("SP+s", "SP+%s").replace("+s", "+%s"))
            if ty == 0: add(t, one(h))
            elif ty == 3: add(t, le(h))
            elif ty == 1 and "x" in t: add(t.replace("x", "%b"), one(h) + "b")
            elif ty == 1 and "SP-s" in t: add(t.replace("s", "%m"), one(h) + "m")
            elif ty == 1: add(re.sub(r"\+?s", lambda m: ("+" if m.group(0)[0] == "+" else "") + "%s", t), one(h) + "s")
            elif ty in (11, 4) and (cpu == "gb" and ty == 4 or ty == 11): addrel(t.replace("x", "%r").replace("s", "%r"), one(h) + "r")
            elif ty == 2: add(t.replace("?", "%w"), one(h) + "w")
            elif ty == 4:
                if "s" in t: add(st, le(h) + "s")
                else: add(t.replace("x", "%b"), le(h) + "b")
            elif ty == 5: add(st.replace("x", "%b"), le(h) + ("s" if "s" in t else "b") + "%02X" % v[2])
            elif ty == 6: add(t.replace("?", "%w"), le(h) + ("W" if h == 0x8AED else "w"))
            elif ty == 7: add(st.replace("x", "%b"), le(h) + ("sb" if "s" in t else "bc")) if "s" in t else add(t.replace("x", "%b", 1).replace("x", "%c", 1), le(h) + "bc")
            elif ty == 8: add(t.replace("*", "%d" % val), one(h))
            elif ty == 9: add(t.replace("*", "%d" % val), le(h))
            elif ty == 10: add(st.replace("*", "%d" % val), le(h) + "s" + "%02X" % v[2])
            elif ty == 100: pass
            else: print(cpu, "type", ty, t)
        elif cpu in ("6502", "65c02", "65ce02", "huc6280"):
            T = {"6502": {"rel": 5, "z": 4}, "65c02": {"rel": 6, "z": 4, "bb": 5}, "65ce02": {"rel": 6, "z": 4, "bb": 5, "lrel": 7}, "huc6280": {"rel": 9, "z": 7, "bb": 8}}[cpu]
            if ty == 0: add(t, one(h))
            elif ty == 3: add(t, le(h))
            elif ty == T["rel"]: addrel(t.replace("x", "%r"), one(h) + "r")
            elif ty == T.get("lrel"): addrel(t.replace("?", "%R"), one(h) + "R")
            elif ty == T.get("bb"): addrel(t.replace("x", "%b", 1).replace("x", "%r", 1), one(h) + "br")
            elif ty in (T["z"], 1): add(t.replace("x", "%b"), one(h) + "b")
            elif ty == 2:
                small = t.replace("?", "x") in texts and "." not in t.split()[0]
                add(t.replace("?", "%h" if small else "%w"), one(h) + ("h" if small else "w"))
            elif cpu == "huc6280" and ty == 4: add(t.replace("?", "%w", 1).replace("?", "%v", 1).replace("?", "%h", 1), one(h) + "wvh")
            elif cpu == "huc6280" and ty == 5: add(t.replace("x", "%b", 1).replace("x", "%c", 1), one(h) + "bc")
            elif cpu == "huc6280" and ty == 6: add(t.replace("x", "%b", 1).replace("?", "%h", 1), one(h) + "bh")
            else: print(cpu, "type", ty, t)
        elif cpu == "65816":
            if re.search(r"[|<>]", t) and ty not in (1, 11, 9): t = "!" + t
            if ty == 0: add(t, one(h))
            elif ty == 8: add(t, le(h))
            elif ty in (1, 11): addrel(t.replace("x", "%r"), one(h) + "r")
            elif ty == 9: addrel(t.replace("?", "%R"), one(h) + "R")
            elif t.split()[0].split(".")[0] in ("REP", "SEP"): add(t.replace("x", "%d"), one(h) + "d")
            elif ty in (4, 7, 0xA): add(t.replace("x", "%b"), one(h) + "b")
            elif ty == 6: add(t.replace("x", "%b") , one(h) + "b")
            elif ty == 2:
                small = (t.replace("?", "x") in texts) and "." not in t.split()[0] and "|" not in t and "<" not in t
                add(t.replace("?", "%h" if small else "%w"), one(h) + ("h" if small else "w"))
            elif ty == 3:
                small = (t.replace("&", "?") in texts) and "." not in t.split()[0] and ">" not in t
                add(t.replace("&", "%l"), one(h) + "l")
            elif ty == 5: add(t.replace("x", "%b", 1).replace("x", "%c", 1), one(h) + "cb")
            else: print(cpu, "type", ty, t)
        elif cpu in ("6800", "6801"):
            if ty == 0: add(t, one(h))
            elif ty == 3: add(t, "%04X" % h)
            elif ty == 1: add(t.replace("x", "%b"), one(h) + "b")
            elif ty == 5: addrel(t.replace("x", "%r"), one(h) + "r")
            elif ty == 4: add(t.replace("x", "%b"), one(h) + "b")
            elif ty == 2:
                small = t.replace("?", "x") in texts and "." not in t.split()[0] and "#" not in t
                add(t.replace("?", "%h" if small else "%w"), one(h) + ("H" if small else "W"))
            else: print(cpu, "type", ty, t)
        elif cpu == "6809":
            pb = "%02X" % (v[3] or 0)
            if ty == 0: add(t, one(h))
            elif ty == 3: add(t, "%04X" % h)
            elif ty == 1: add(t.replace("x", "%b"), one(h) + "b")
            elif ty == 5: addrel(t.replace("x", "%r"), one(h) + "r")
            elif ty == 12: addrel(t.replace("?", "%R"), one(h) + "R")
            elif ty == 4: add(t.replace("x", "%b"), one(h) + "b")
            elif ty == 2:
                small = t.replace("?", "x") in texts and "#" not in t
                add(t.replace("?", "%h" if small else "%w"), one(h) + ("H" if small else "W"))
            elif ty == 6: add(t.replace("s", "%f", 1), one(h) + "f" + pb) if t.count("s") == 1 else print(cpu, t)
            elif ty == 7: add(t.replace("x", "%g", 1), one(h) + pb + "s")
            elif ty == 8: add(t.replace("?", "%h", 1), one(h) + pb + "H")
            elif ty == 9: add(t, one(h) + pb)
            elif ty in (10, 11): pass
            else: print(cpu, "type", ty, t)
        elif cpu == "spc700":
            if ty == 0: add(t, one(h))
            elif ty == 1: add(t.replace("x", "%b", 1), one(h) + "b")
            elif ty == 2: add(t.replace("?", "%w"), one(h) + "w")
            elif ty in (3, 4):
                for k in range(8): add(t.replace("x", "%b", 1).replace("~", str(k)), one(h | (k << 5 if ty == 3 else (2 * k + 1) << 4)) + "b")
            elif ty == 5:
                for k in range(16): add(t.replace("~", str(k)), one(h | k << 4))
            elif ty == 0xA: addrel(t.replace("x", "%b", 1).replace("x", "%r", 1), one(h) + "br")
            elif ty == 0xB: add(t.replace("x", "%b", 1).replace("x", "%c", 1), one(h) + "cb")
            elif ty in (0xC, 0xD):
                for k in range(8): addrel(t.replace("x", "%b", 1).replace("x", "%r", 1).replace("~", str(k)), one(h | (k << 5 if ty == 0xC else (2 * k + 1) << 4)) + "br")
            elif ty == 0xE: addrel(t.replace("x", "%r", 1), one(h) + "r")
            elif ty == 0xF:
                for k in range(8): add(t.replace("?", "%t").replace("~", str(k)), one(h) + "t%X" % k)
            else: print(cpu, "type", ty, t)
    return out, rel
os.makedirs(OUT, exist_ok=True)
for c in CPUS:
    o, r = gen(c)
    def q(s): return s.replace("\\", "\\\\").replace('"', '\\"')
    with open(os.path.join(OUT, c + ".h"), "w") as f:
        f.write("/* %s: instruction text and encoding */\nstatic const char *const INSN[] = {\n" % c + "".join('"%s","%s",\n' % (q(a), b) for a, b in o) + "0};\nstatic const char *const RELI[] = {\n" + "".join('"%s","%s",\n' % (q(a), b) for a, b in r) + "0};\n")
    print(c, len(o), len(r))
