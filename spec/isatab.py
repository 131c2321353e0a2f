"""The instruction set of the LC86k (VMU), written by hand from its documentation.

This table is the oracle for the encoder, the decoder and the operand
checks; it is not derived from /repo.  Each form: the kinds of its
operands in the order of the enum's fields, and one arithmetic formula
per emitted byte (o0, o1, o2 are the operand values; `/` and `%` are
Euclidean, so that a negative relative operand gives its two's
complement bytes).

Kinds:  i8  immediate        0..255
        d9  direct address   0..511
        ri  indirection mode 0..3
        b3  bit number       0..7
        r8  relative         -128..127     (from the next instruction)
        r16 relative         -32768..32767 (from one byte before the next instruction)
        a12 absolute, in the 4 KB page of the next instruction   0..4095
        a16 absolute         0..65535
"""

FORMS = {}


def _f(name, kinds, *bytes_):
    FORMS[name] = (kinds, list(bytes_))


def _alu(m, op):
    _f(m + "_i8", ["i8"], "%d" % (op + 1), "o0")
    _f(m + "_d9", ["d9"], "%d + o0 / 256" % (op + 2), "o0 % 256")
    _f(m + "_Ri", ["ri"], "%d + o0" % (op + 4))


for m, op in (("Add", 0x80), ("Addc", 0x90), ("Sub", 0xA0), ("Subc", 0xB0), ("And", 0xE0), ("Or", 0xD0), ("Xor", 0xF0)):
    _alu(m, op)
for m, op in (("Inc", 0x60), ("Dec", 0x70), ("Ld", 0x00), ("St", 0x10), ("Xch", 0xC0)):
    _f(m + "_d9", ["d9"], "%d + o0 / 256" % (op + 2), "o0 % 256")
    _f(m + "_Ri", ["ri"], "%d + o0" % (op + 4))
for m, op in (("Mul", 0x30), ("Div", 0x40), ("Rol", 0xE0), ("Rolc", 0xF0), ("Ror", 0xC0), ("Rorc", 0xD0),
              ("Ldc", 0xC1), ("Ret", 0xA0), ("Reti", 0xB0), ("Nop", 0x00), ("Ldf", 0x50), ("Stf", 0x51)):
    _f(m, [], "%d" % op)
_f("Mov_d9", ["i8", "d9"], "34 + o1 / 256", "o1 % 256", "o0")
_f("Mov_Rj", ["i8", "ri"], "36 + o1", "o0")
_f("Push", ["d9"], "96 + o0 / 256", "o0 % 256")
_f("Pop", ["d9"], "112 + o0 / 256", "o0 % 256")
_f("Jmp", ["a12"], "40 + 16 * (o0 / 2048) + o0 / 256 % 8", "o0 % 256")
_f("Call", ["a12"], "8 + 16 * (o0 / 2048) + o0 / 256 % 8", "o0 % 256")
_f("Jmpf", ["a16"], "33", "o0 / 256", "o0 % 256")
_f("Callf", ["a16"], "32", "o0 / 256", "o0 % 256")
_f("Br", ["r8"], "1", "o0 % 256")
_f("Bz", ["r8"], "128", "o0 % 256")
_f("Bnz", ["r8"], "144", "o0 % 256")
_f("Brf", ["r16"], "17", "o0 % 256", "o0 / 256 % 256")
_f("Callr", ["r16"], "16", "o0 % 256", "o0 / 256 % 256")
for m, op in (("Bp", 0x68), ("Bpc", 0x48), ("Bn", 0x88)):
    _f(m, ["d9", "b3", "r8"], "%d + 16 * (o0 / 256) + o1" % op, "o0 % 256", "o2 % 256")
for m, op in (("Clr1", 0xC8), ("Set1", 0xE8), ("Not1", 0xA8)):
    _f(m, ["d9", "b3"], "%d + 16 * (o0 / 256) + o1" % op, "o0 % 256")
_f("Dbnz_d9", ["d9", "r8"], "82 + o0 / 256", "o0 % 256", "o1 % 256")
_f("Dbnz_Ri", ["ri", "r8"], "84 + o0", "o1 % 256")
for m, op in (("Be", 0x30), ("Bne", 0x40)):
    _f(m + "_i8", ["i8", "r8"], "%d" % (op + 1), "o0", "o1 % 256")
    _f(m + "_d9", ["d9", "r8"], "%d + o0 / 256" % (op + 2), "o0 % 256", "o1 % 256")
    _f(m + "_Rj", ["ri", "i8", "r8"], "%d + o0" % (op + 4), "o1", "o2 % 256")

RANGE = {"i8": (0, 255), "d9": (0, 511), "ri": (0, 3), "b3": (0, 7), "r8": (-128, 127),
         "r16": (-32768, 32767), "a12": (0, 4095), "a16": (0, 65535)}
# what the raw decoder yields before sign extension
RAW = dict(RANGE, r8=(0, 255), r16=(0, 65535))


def opcodes(name):
    """All first bytes of a form, by evaluating its first formula over the operands."""
    import itertools
    kinds, fs = FORMS[name]
    out = set()
    src = fs[0].replace("/", "//")
    used = [i for i in range(len(kinds)) if "o%d" % i in src]
    doms = [range(RANGE[kinds[i]][0], RANGE[kinds[i]][1] + 1) for i in used]
    for vals in itertools.product(*doms):
        out.add(eval(src, {"o%d" % i: v for i, v in zip(used, vals)}))
    return sorted(out)


def table():
    """opcode -> form; checks that no two forms share an opcode."""
    t = {}
    for n in FORMS:
        for o in opcodes(n):
            assert o not in t, (n, t[o], o)
            t[o] = n
    return t


if __name__ == "__main__":
    t = table()
    print(len(FORMS), "forms,", len(t), "opcodes; unassigned:", ["%02x" % o for o in range(256) if o not in t])
