from runner import Job
PROPS = {}
NA = {}
def prop(pid, bounds, *jobs):
    PROPS[pid] = {"bounds": bounds, "jobs": list(jobs)}
Z = ["wla-z80", "wlalink"]
def cpus(*names): return ["wla-" + n for n in names] + ["wlalink"]
C3N = ["z80", "6800", "65816"]
def J(scen, mods, reach, **params): return Job(scen, mods, params, reach=reach)
def TJ(scen, mods, reach, **params): return Job(scen, mods, params, reach=reach, tier="thorough")
OK = ["ok"]
DIV = ["ok0", "ok1", "ok2", "refused"]
prop("E01", "all pairs of the ten binary operators in three shapes with three spacings; comparisons and logical operators alone, combined and mixed with arithmetic; operands 0-65535, 1-255, 1-15; unary operators; divisors including zero",
     *[J("expr1.c", Z, OK, sp=s) for s in (0, 1, 2)], J("expr1.c", cpus("68000"), OK, cpu=1), J("expr2.c", Z, OK, part=0), J("expr2.c", Z, OK, part=3), J("expr3.c", Z, DIV))
prop("E02", "the operators and functions of E01 and E04 with operands imported from another object or defined later in the file",
     *[J("expr1.c", Z, OK, late=l) for l in (1, 2)], *[J("expr2.c", Z, OK, part=p, late=l) for p in (0, 1, 2, 3) for l in (1, 2)], J("expr3.c", Z, DIV))
prop("E03", "all 4-digit hexadecimal (three prefixes, one suffix form with 3 digits), 16-digit binary (two forms) and 5-digit decimal literals, decimals with one fractional digit, all printable character literals but quotes and the backslash; in six syntactic positions",
     *[J("lit.c", Z, OK, form=f) for f in range(10)])
prop("E04", "value functions with arguments of 16 to 18 bits, rounding of quarters from -32 to 32, nested; operands constant, imported or defined later; little- and big-endian CPU",
     *[J("expr2.c", Z, OK, part=p, late=l) for p in (0, 1, 2) for l in (0, 1, 2)], J("expr2.c", cpus("6800"), OK, part=1, cpu=1))
R1 = ["ok%d%d" % (w, m) for w in range(4) for m in range(6)] + ["refused"]
prop("D01", "one value of -32768..32767 / -131072..262143 / 24 bits and beyond / 32 bits in 8/16/24/32-bit data, immediate, exported, forward, computed or label-relative, z80 (little endian), 6800 (big endian), 65816, in and out of a section; a fixed program of 45 data items with symbolic operands",
     *[J("data1.c", cpus(C3N[c]), R1, cpu=c, sec=s) for c, s in ((0, 0), (1, 1), (2, 0))], *[J("data2.c", cpus(C3N[c]), OK, cpu=c, sec=s) for c, s in ((0, 0), (1, 1), (2, 2), (0, 2))])
ALL = ["z80", "z80n", "gb", "6502", "65c02", "65ce02", "65816", "6800", "6801", "6809", "8008", "8080", "spc700", "huc6280"]
def I(scen, c, reach, **params): return Job(scen, cpus(c), params, reach=reach, defs=("CPUN=" + c, 'CPUH="insn/%s.h"' % c))
OKR = ["ok", "refused"]
prop("I01", "every instruction form of 14 CPUs (15 with the WDC forms of the 65816), all operands symbolic at once; and every form with a single 8-bit or 16-bit immediate or explicitly sized address alone, with values -70000..70000; SuperFX and 68000 not encoded",
     *[I("insn.c", c, OK, late=0, parts=n, part=k) for c in ALL for n in [4 if c == "6809" else 1] for k in range(n)], I("insn.c", "65816", OK, late=0, wdc=1), *[I("insn2.c", c, OKR, late=0, step=n, off=k) for c in ALL for n in [4 if "z80" in c else 1] for k in range(n)])
prop("I02", "every relative branch form of 12 CPUs (the Z80N's are the Z80's), targets 0-4080 bytes into the slot around a branch in its middle (0-65520 for 16-bit displacements); labels after and before the branch, in another object, plus a number, anonymous forward and backward; outside and inside a section",
     *[I("branch.c", c, OKR, kind=k) for c in ALL if c not in ("8008", "8080", "z80n") for k in range(6)], *[I("branch.c", c, OK, kind=k, wide=1) for c in ("65ce02", "65816", "6809") for k in range(6)], *[I("branch.c", "65816", OK, kind=k, wdc=1, wide=w) for k in range(6) for w in (0, 1)],
     *[I("branch.c", c, OKR, kind=k, sec=1) for c in ("z80", "6809", "65816") for k in (0, 5)])
prop("I03", "the instruction forms of I01 with operands imported from another object, imported inside a calculation, defined later in the file, or labels of another bank; single operands with values -70000..70000 (-32768..65535 where the operand is a bare definition)",
     *[I("insn.c", c, OK, late=l, parts=n, part=k) for c in ALL for l in (1, 2, 3, 4) for n in [4 if c == "6809" else 1] for k in range(n)], *[I("insn.c", "65816", OK, late=l, wdc=1) for l in (1, 2, 3)], *[I("insn2.c", c, OKR, late=l) for c in ALL for l in (1, 2, 3)])
C1 = lambda c, *kv: J("check.c", cpus(c), OK, **dict(kv))
prop("L03", "Game Boy images of 32 and 64 KB, Master System images of 8 to 128 KB (SMS checksum, tag and header directives, five ROM size codes), LoROM images of 32, 64 and 96 KB, HiROM of 64, 128 and 192 KB, Mega Drive of 4 and 128 KB; 5 to 15 symbolic bytes at the borders of the summed ranges, the others constant; ExHiROM and FORCECHECKSUM/CHECKSUMSIZE outside",
     *[J("check.c", cpus("gb"), OK, sys=0, kb=k, mode=m) for k in (32, 64) for m in (0, 1, 2)],
     *[J("check.c", Z, OK, sys=1, kb=k, hdr=h, **({"own": 1} if h == 0 and k == 32 else {})) for k in (8, 16, 32, 64) for h in (0, 1)],
     *[J("check.c", Z, OK, sys=1, kb=k, hdr=2, code=c) for k, c in ((32, 0), (64, 1), (128, 2), (8, 3), (16, 4), (64, 0))],
     *[J("check.c", cpus("65816"), OK, sys=2, kb=k, mode=m) for k, m in ((32, 0), (64, 0), (96, 0), (64, 1), (128, 1), (192, 1))],
     *[J("check.c", cpus("68000"), OK, sys=3, kb=k) for k in (4, 128)])
prop("D02", "12 sequences of field widths (1 to 32 bits, 1 to 5 fields), every value of each field up to 31 bits and up to 8 bits too wide in one field; constants, definitions imported or made later, calculations; outside and inside a section and in a BANKHEADER section",
     *[J("bits.c", Z, OK, late=l, sec=s) for l in range(5) for s in range(3)], *[J("bits.c", Z, OKR, late=l, sec=s, bad=1) for l in range(4) for s in range(3)], *[J("bits.c", cpus("6800"), OK, late=l, cpu=1) for l in (0, 1, 2, 4)])
prop("D04", "files of 1 to 7 symbolic bytes; SKIP -1 to 7 or none, READ -8 to 7 or none, SWAP or not, in two orders; FSIZE and FREADSIZE; no filter or a filter macro with FILTERSIZE 1 to 4; the whole file a second time",
     *[J("incbin.c", cpus(C3N[c]), OKR, cpu=c, filter=f) for c in (0, 1) for f in range(5)])
prop("D05", "counts 0 to 9 with every 8-bit value up to 1023, 16-, 24- and 31-bit value in .DS/.DSB/.DSW/.DSL/.DSD, constant, imported, calculated or defined later; .DBRND/.DWRND with 0 to 3 items, ten range widths, every minimum, three seeds, once and twice; sine and cosine series of 1 to 4 items from 8 angles with every offset 0 to 220",
     *[J("gen.c", cpus(C3N[c]), OKR, cpu=c, late=l, sec=s) for c, s in ((0, 0), (0, 1), (1, 0)) for l in range(4)], *[J("gen.c", Z, OKR, kind=1, seed=s) for s in range(3)], J("gen.c", cpus("6800"), OKR, kind=1, seed=0, cpu=1), *[J("gen.c", Z, OK, kind=2, word=w, cos=c) for w in (0, 1) for c in (0, 1)])
prop("F01", "files of 0 to 2 symbolic bytes (quick), sequences of two or three operations out of reads, 5 to 7 seek distances in three modes, position, size, close and reopen, then a loop copying the file",
     J("file.c", Z, OKR, length=0, ops=2), J("file.c", Z, OKR, length=1, ops=3), J("file.c", Z, OKR, length=2, ops=3), J("file.c", Z, OKR, length=3, ops=2))
prop("B01", "files of 0 to 25 bytes with 2 symbolic bytes in the decimal, 3 in the hexadecimal form and of 0, 2 and 9 bytes with one symbolic byte in the binary form, at the start, end and the border of output lines; ten combinations of options; wrong options and missing files",
     *[J("wlab.c", ["wlab"] + Z, OK, part=p) for p in (0, 1)], J("wlab.c", ["wlab"] + Z, ["refused"], bad=1))
prop("D06", "eight column layouts in two spellings, rows, data of one and two rows, data split over two statements, rows with one cell too few or too many; every cell value of its width, one cell beyond its width on either side (above only for bare link-time definitions of one byte); cells constant, imported, calculated, defined later; hexadecimal strings of one and three bytes with two symbolic ones in five forms, and any printable character in place of a digit",
     *[J("table.c", cpus(C3N[c]), OKR, cpu=c, late=l, bad=b) for c in (0, 1) for l in range(4) for b in (0, 1)], J("table.c", Z, OK, kind=1), J("table.c", Z, OKR, kind=1, bad=1))
prop("D03", "a character table with five entries (symbolic targets 0-255 and beyond) or none or a redeclared one, two symbolic printable characters in .ASC/.ASCSTR/.DB/ASC(); bytes -100 to 300 in .ASC/.ASCSTR; symbolic ranges of characters 60-78; ten escapes in three directives between symbolic characters; a string map of seven entries with symbolic codes in two orders and both line ends, every text of four characters out of six",
     J("text.c", Z, OKR, kind=0), J("text.c", cpus("6800"), OKR, kind=0, cpu=1), J("text.c", Z, OKR, kind=1), J("text.c", Z, OK, kind=2), J("text.c", Z, OKR, kind=3, n=4), TJ("text.c", Z, OKR, kind=3, n=5))
prop("A01", "two slots with any base, three banks; labels after unsectioned .ORG/.ORGA 0-6, in FORCE, FREE, SEMIFREE, SEMISUBFREE and SUPERFREE sections and sections with their own BANK/SLOT/ORG/ORGA; filler of 0 to 2 bytes between the labels; 16-bit, bank, low/high byte references and sums, in the same object, another object and another section",
     *[J("place.c", Z, OK, other=o, bank=b) for o in range(3) for b in range(3)], *[TJ("place.c", Z, OK, other=o, bank=b, omax=12, nmax=4) for o in range(3) for b in range(3)], *[J("place.c", cpus(C3N[c]), OK, cpu=c, other=o, bank=b, omax=3, nmax=1) for c in (1, 2) for o, b in ((0, 1), (1, 2), (2, 1))])
prop("A02", "ROM maps of one to three groups of one or two banks of $40, $80 or $100 bytes, every bank, every base, five kinds of placement; LoROM, HiROM and ExHiROM with four banks, every base, ROM labels outside and inside sections and RAM labels; origins 0 to 6 around three places; the same and another object",
     J("maps.c", Z, OK, groups=1), J("maps.c", Z, OK, groups=2), J("maps.c", Z, OK, groups=3), J("maps.c", Z, OK, groups=3, other=1), J("maps.c", cpus("65816"), OK, cpu=1, groups=1), J("maps.c", cpus("65816"), OK, cpu=1, groups=2), *[J("maps.c", cpus("65816"), OK, kind=1, cpu=1, mode=m) for m in (0, 1, 3)])
prop("S01", "banks of 32 bytes: one section of each of six types, every size 1-14, alignment 1, 2 or 8, offset 0 or 3, none, WINDOW or BITWINDOW, three origins, around an unsectioned block of 0, 4 or 8 bytes at four places (accepted exactly when a place exists); three sections of seven mixes of types with four sizes each (five thorough) in two banks; an OVERWRITE or FORCE section with and without SIZE and a free one",
     *[J("sect.c", Z, OKR, type=t) for t in range(6)], *[f("sect.c", Z, ["ok"] if k in (1, 4) else OKR, kind=1, combo=k, max=m) for f, m in ((J, 4), (TJ, 5)) for k in range(7)], J("sect.c", Z, OKR, kind=2))
prop("S02", "three sections of five types with priorities -3 to 3 (or AUTOPRIORITY) and sizes 1-3; two or three sections appended to a base of four types, priorities 0-2, sizes 1-2, chained, before or after the base in the text, in one or two objects; a section AFTER a base of five types with offsets 0-6",
     J("order.c", Z, OK, kind=0), *[J("order.c", Z, OK, kind=1, type=t) for t in range(4)], J("order.c", Z, OK, kind=2))
prop("S03", "a section of 12 variables of 9 kinds (symbolic element counts 0-2, structure instances 1-3, aligned variables), four types of sections, four origins, two banks, in one or two objects; one RAM section of each type in a slot of 32 bytes, every size 1-8 (1-14 thorough), alignment 1, 4 or 8, offset 0 or 3, none, WINDOW or BITWINDOW, three origins, around another one of 0, 4 or 8 bytes at four places, slot base aligned or not (accepted exactly when a place exists); three sections of five mixes",
     *[J("ram.c", Z, OK, type=t) for t in range(4)], J("ram.c", cpus("65816"), OK, type=3, cpu=1), *[f("ram.c", Z, OKR, kind=1, type=t, base=b, max=m) for f, m in ((J, 8), (TJ, 14)) for t, b in ((0, 49152), (1, 49152), (2, 49152), (3, 49152), (0, 49158), (2, 49154))], *[J("ram.c", Z, OKR if k in (1, 3) else OK, kind=2, combo=k) for k in range(5)])
prop("S04", "enumerations (ascending, descending, exported), structures and their instances (one, two, inside another structure) and unions of two fields out of 18 kinds (data of five widths with symbolic counts 0-3, dotted, instances single, repeated, padded, numbered from 0, nameless, with and without declared SIZE, unions, nested unions), base 256-65024; .ENUMID with base 0-16384 and step -300 to 300",
     *[J("layout.c", Z, OK, **{"in": c, "parts": n, "part": k}) for c, n in ((0, 1), (1, 1), (2, 1), (3, 1), (4, 4), (5, 1), (6, 1), (7, 1)) for k in range(n)], J("layout.c", Z, OK, kind=1))
prop("S05", "a structure of 15 or 18 bytes: string, 8-, 16-, 24- and 32-bit fields with symbolic values (one of them up to 3 times beyond its range), one or two nested instances, every fill byte; named fields in three orders with every subset of three of them omitted, positional form with the first 1 to 6 given, with and without DATA; constants, imported, calculated, defined later; SIZE of the structure or instance, NOLABELS, nameless; in and out of a section, next to a FREE section; unions, padded, renumbered, dotted and nameless instances; label addresses and sizes",
     *[J("dst.c", Z, OK, form=f, late=l) for f, ls in ((0, (0, 1, 2, 3)), (1, (0, 1, 2)), (2, (0, 3))) for l in ls], *[J("dst.c", Z, OKR, form=f, bad=b) for f in (0, 1) for b in (1, 2, 3, 4, 6)], *[J("dst.c", Z, OKR, form=f, bad=b, late=1) for f in (0, 1) for b in (1, 6)], *[J("dst.c", cpus("6800"), OK, cpu=1, form=f, late=f) for f in (0, 1)], J("dst.c", Z, OKR, kind=1), J("dst.c", cpus("6800"), OKR, kind=1, cpu=1))
DM = [(0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (7, 7), (8, 0), (8, 7), (9, 8), (0, 5), (6, 1)]
prop("S06", "three sections of 9 mixes of types (FREE, SEMIFREE, SUPERFREE, SEMISUBFREE, FORCE, KEEP, a name with '!', APPENDTO, AFTER), every graph of references between them and from fixed code or a BANKHEADER section (512), ten kinds of reference (plain, computed, bank, byte, through definitions outside and inside sections, instruction operand, child label), one or three objects, symbolic payload; quick covers 19 of the 90 combinations of mix and kind",
     *[J("discard.c", Z, OK, ref=r, mix=m) for r, m in DM], *[J("discard.c", Z, OK, ref=r, mix=m, files=1) for r, m in ((0, 5), (6, 6), (8, 1))], *[J("discard.c", Z, OK, ref=r, mix=m, header=1) for r, m in ((0, 0), (1, 0), (4, 3))], *[TJ("discard.c", Z, OK, ref=r, mix=m) for r in range(10) for m in range(9) if (r, m) not in DM])
prop("C01", "chains of .IF/.ELIF/.ELSE with two symbolic 8-bit values and constants in 7 kinds of conditions (comparisons, .IFDEF/.IFNDEF, .IFEQ/.IFNEQ/.IFGR..., definedness, strings, macro arguments), nested two deep, inside macros, loops, sections and RAM sections; skipped branches with 18 kinds of content (unknown names, unbalanced strings and braces, nested conditionals, macros, undefined substitutions); 15 unbalanced programs",
     *[J("cond.c", Z, OK, **kv) for kv in ({"k0": 0, "k1": 4}, {"k0": 1, "k1": 2}, {"k0": 2, "k1": 6}, {"k0": 2, "k1": 3}, {"k0": 3, "k1": 6}, {"k0": 4, "k1": 0}, {"k0": 6, "k1": 3}, {"k0": 6, "k1": 4}, {"ctx": 1, "k0": 5}, {"ctx": 2}, {"ctx": 2, "k0": 6}, {"ctx": 3}, {"ctx": 4}, {"ctx": 5}, {"ctx": 6})],
     *[J("cond.c", Z, OK, part=1, holds=h) for h in range(4)], J("cond.c", Z, ["refused"], unbalanced=1))
prop("C02", ".REPT (with and without INDEX) and .WHILE nested two deep, every count 0-2 (thorough 0-3) of each, .BREAK and .CONTINUE at every combination of rounds of either loop, directly, inside conditionals and inside macros; a loop whose body is on its own line, loops in macros, sections and definitions used by them; unclosed and stray loop directives",
     *[f("loop.c", Z, OK, kind=k, max=m) for f, m in ((J, 2), (TJ, 3)) for k in (0, 2)], J("loop.c", Z, OK, kind=1), J("loop.c", Z, ["refused"], bad=1))
prop("C03", "calls with 0-3 arguments (two symbolic 8-bit values, expressions, labels, calculations finished by the linker, definitions made later) of macros with named and positional arguments passed on to another macro, .SHIFT, NARGS, .IFDEFM, hidden outer definitions; recursion of depth 0-3 with swapped arguments; string arguments of three symbolic characters, in label names, \\@, \\?n and ?n; filter macros of four widths; functions of 0-2 arguments, nested; 18 wrong programs",
     J("macro.c", Z, OK, part=0), J("macro.c", Z, OK, part=1), J("macro.c", Z, OK, part=2), J("macro.c", Z, OK, part=2, alpha=1), J("macro.c", Z, OK, part=3), J("macro.c", Z, ["refused"], part=4), J("macro.c", Z, OK, part=5))
prop("C04", "every sequence of three (thorough four) operations out of 12 (.DEFINE/.DEF/.EQU, .REDEFINE to values, sums, fractions, labels, strings, lists, copies, .UNDEFINE of one or two names) on two names with symbolic 8-bit values, each name queried and used after each step; -D in six notations, together and apart, and [definitions] in the link file with 16-bit values (8-bit times 241 for -D and binary); exported definitions (three ways, .ENUMID) redefined, removed or computed later and read in another object in both link orders; 20 wrong programs",
     *[J("def.c", Z, OK if f in (8,) else OKR, kind=0, first=f) for f in (0, 1, 3, 5, 6, 7, 8, 9, 10)], *[TJ("def.c", Z, OKR, kind=0, n=4, first=f) for f in (0, 1, 3, 5, 6, 7, 8, 9, 10)], *[J("def.c", Z, OK, kind=1, file=o, form=f) for o in (0, 1) for f in range(6)], J("def.c", Z, OK, kind=2), J("def.c", Z, ["refused"], kind=3))
prop("C05", "every sequence of three (thorough four) items out of 12 (unnamed labels - -- + ++ __ and references to them, _b, _f, with offsets) or 15 (parents, children two deep, local labels, repeated names, references to each, __label__) within one file, one section, or two sections and between them; labels of four kinds in macros, plain and ISOLATED in three ways, called once, twice or from another macro, plain or ISOLATED, with and without labels of the caller; addresses of everything predicted, symbolic first byte",
     *[f("label.c", Z, OKR, kind=k, ctx=x, **m) for f, m in ((J, {}), (TJ, {"n": 4})) for k in (0, 1) for x in (0, 1, 2)], *[J("label.c", Z, OK if f == 3 else OKR, kind=2, form=f) for f in range(4)])
prop("C06", "a program of 15 lines (labels, data with expressions, strings and character literals, instructions, .REPT, .IF, a macro call) where every one of its 60 gaps in turn takes each of 8-15 decorations (blanks, tabs, block, line, C++ and * comments, comments next to each other, split and blank lines, CR) with two symbolic characters (any but line ends) in the comment; strings of three and character literals of one symbolic character with CR LF, four kinds of comments behind them, escapes and inside macros; the same decorations at both ends of the main and of an included file; .ENDASM/.ASM around 18 kinds of text, also in macros and loops; 8 unterminated comments in main and included files",
     *[J("comment.c", c, OK, kind=0, cpu=n, parts=2, part=k) for n, c in ((0, Z), (1, cpus("65816"))) for k in (0, 1)], J("comment.c", Z, OK, kind=1), J("comment.c", Z, OK, kind=2), J("comment.c", Z, ["refused"], kind=3), J("comment.c", Z, OK, kind=4))
prop("L04", "Game Boy header (.GBHEADER and the freestanding directives: seven number fields with a symbolic value in -400..623 given once, twice equal or differing; NAME and licensee codes with symbolic characters, lengths 1, 2, 15, 16, 17; logo; the five machine kinds; automatic ROM size), SNES header and freestanding directives in LoROM and HiROM (six number fields, NAME, ID, SLOWROM/FASTROM, mode before and after), native and emulation vectors each alone or all six as label, constant (symbolic 16 bit), computed from a label, or out of range; Mega Drive header (eight strings with symbolic characters, address ranges, extra memory); SMS header (every field, symbolic values and BASEADDRESS) in 8 and 16 KB images; all bytes of the image compared, checksum fields and most of the Nintendo logo excluded",
     J("header.c", cpus("gb"), OKR, kind=0), J("header.c", cpus("65816"), OKR, kind=1, mode=0), J("header.c", cpus("65816"), OKR, kind=1, mode=1), J("header.c", cpus("65816"), OKR, kind=2), J("header.c", cpus("68000"), OKR, kind=3), J("header.c", Z, OKR, kind=4, size=0), TJ("header.c", Z, OKR, kind=4, size=1))
prop("L06", "18 ways of leaving bytes unwritten (.ORG, .ALIGN outside and inside sections, section SIZE alone, with alignment, enlarged by the link file, appended, in free and semisubfree sections; .DSTRUCT holes with and without SIZE, other banks, discarded sections, overwritten bytes, RAM sections, program output) in a four-bank image of 512 bytes, with symbolic fill and data bytes and 12 size variants each; the fill declared by the first, the second, both, or none of two objects in either link order, as negative value or twice; also code and labels that follow a padded section",
     *[J("fill.c", Z, OK, dec=d) for d in range(8)], J("fill.c", cpus("65816"), OK, dec=0, cpu=1), J("fill.c", cpus("68000"), OK, dec=3, cpu=2))
prop("L05", "two objects with labels outside sections (parent, child, local, repeated local and unnamed ones), in forced, free, superfree, unreferenced and RAM sections, an instantiated struct, .SYM, .BR and exported definitions; symbolic slot addresses, data and 16-bit definitions, positive and negative; -S, -s, -sE, with and without -d, with and without .BASE, SNES mode; every label compared with the address and bank that references to it got in the image, every section with the bytes it describes; -A: the line of every byte of five sections (plain lines, loop, included file, appended section), CRC-32 of source files and image",
     *[J("sym.c", Z, OK, mode=m) for m in (0, 1, 2)], J("sym.c", Z, OK, mode=0, base=64), *[J("sym.c", cpus("65816"), OK, mode=m, snes=1, base=b) for m, b in ((0, 0), (0, 128), (1, 128))], J("sym.c", Z, OK, kind=1), J("sym.c", Z, OK, kind=1, base=64))
