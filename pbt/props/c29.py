"""C29 Memory amounts: parsing accepts exactly amounts, and keeps number and unit."""
from hypothesis import strategies as st

from core import Prop, Sub, raises, require, same
from vistautils.memory_amount import MemoryAmount, MemoryUnit

UNITS = {
    "K": MemoryUnit.KILOBYTES,
    "M": MemoryUnit.MEGABYTES,
    "G": MemoryUnit.GIGABYTES,
    "T": MemoryUnit.TERABYTES,
}


def reference(text):
    """(amount, unit letter) or None, by hand."""
    i = 0
    while i < len(text) and text[i] in "0123456789":
        i += 1
    if i == 0:
        return None
    n = int(text[:i])
    rest = text[i:]
    if rest.startswith(" "):
        rest = rest[1:]
    if not rest or rest[0].upper() not in "KMGT" or ord(rest[0]) > 127:
        return None
    unit = rest[0].upper()
    if rest[1:] not in ("", "b", "B"):
        return None
    return (n, unit)


def check(case, ctx):
    if any(c.isdecimal() and c not in "0123456789" for c in case):
        # whether digits of other scripts are decimal digits is left open, but not what they stand for
        ctx.mark(label="other digits")
        plain = "".join(str(int(c)) if c.isdecimal() else c for c in case)
        try:
            got = MemoryAmount.parse(case)
        except (RuntimeError, ValueError):
            return
        want = reference(plain)
        require(want is not None, "parsing %r" % case, got)
        same((got.amount, got.unit), (want[0], UNITS[want[1]]), "parse(%r)" % case)
        return
    want = reference(case)
    if want is None:
        ctx.mark(any(c in "0123456789" for c in case), "malformed")
        raises((RuntimeError, ValueError), lambda: MemoryAmount.parse(case), "parsing %r" % case)
    elif want[0] == 0:
        ctx.mark(label="zero")
        raises((RuntimeError, ValueError), lambda: MemoryAmount.parse(case), "parsing %r" % case)
    else:
        ctx.mark(label="legal")
        got = MemoryAmount.parse(case)
        same(got.amount, want[0], "amount of %r" % case)
        require(got.unit is UNITS[want[1]], "unit of %r" % case, got.unit)
        same(got, MemoryAmount(want[0], UNITS[want[1]]), "parse(%r)" % case)
        # written again in the other notations
        for s in ("%d%s" % want, "%d %s" % want, "%d%sB" % want, "%d %sb" % (want[0], want[1].lower())):
            same(MemoryAmount.parse(s), got, "parse(%r)" % s)


def check_unit(case, ctx):
    want = UNITS.get(case) or UNITS.get(case.upper() if len(case) == 1 else case)
    ctx.mark(case != "")
    if want is not None and ord(case) < 128:
        ctx.label("legal")
        require(MemoryUnit.parse(case) is want, "unit %r" % case)
    else:
        ctx.label("malformed")
        raises(RuntimeError, lambda: MemoryUnit.parse(case), "parsing unit %r" % case)


def check_construct(case, ctx):
    n, u = case
    ctx.mark()
    if isinstance(n, int) and n >= 1:
        m = MemoryAmount(n, UNITS[u])
        same((m.amount, m.unit), (n, UNITS[u]), "fields")
        same(len({m, MemoryAmount(n, UNITS[u])}), 1, "equal amounts as a set")
        # amounts of as many bytes in other units are others
        letters = "KMGT"
        for i, v in enumerate(letters):
            for factor in (1000, 1024):
                other = n * factor ** (letters.index(u) - i) if letters.index(u) >= i else 0
                if v != u and other:
                    require(m != MemoryAmount(other, UNITS[v]) and MemoryAmount(other, UNITS[v]) != m, "amounts of other numbers and units are equal", m, other, v)
        for v in UNITS:
            same(m == MemoryAmount(n, UNITS[v]), u == v, "equality of units")
        require(m != MemoryAmount(n + 1, UNITS[u]), "different amounts are equal")
    else:
        ctx.label("illegal")
        raises((ValueError, TypeError), lambda: MemoryAmount(n, UNITS[u]), "amount %r" % (n,))


# characters which some way of ignoring case or form takes for a unit
LOOKALIKES = ["\u212a", "\uff2b", "\uff4b", "\u1d37", "\u2133", "\uff2d", "\uff27", "\u1d40", "\uff34", "\u039a", "\u041a", "\U0001d40a"]


@st.composite
def strings(draw):
    n = draw(st.one_of(st.integers(0, 20), st.integers(0, 10 ** 25), st.sampled_from([2 ** 31, 2 ** 63, 1023, 1024])))
    digits = draw(st.sampled_from(["", "", "0", "00"])) + str(n)
    if draw(st.booleans()):
        return digits + draw(st.sampled_from(["", " "])) + draw(st.sampled_from("KMGTkmgt")) + draw(st.sampled_from(["", "b", "B"]))
    parts = [
        draw(st.sampled_from([""] * 8 + [" ", "-", "+", "x", "\n", "\ufeff", "\u200b", "\0", "\xa0", "(", "'", "0x", "~", "\u0661", "\u096a\u0967", "\u00b2", "\u216b", "1_"])),
        digits,
        draw(st.sampled_from(["", " ", "", " ", "", " ", "  ", "\t", ".", ".5", ",", "_", "\xa0", "\u2003", "\u202f", "\u3000", "\x1f", "\v", "\u200b", "\xad", "*", "x", "e3", "\r"])),
        draw(st.sampled_from(["K", "M", "G", "T", "k", "m", "g", "t"] * 4 + LOOKALIKES + ["", "P", "B", "KB", "i", "Gi"])),
        draw(st.sampled_from(["", "", "b", "B"] * 2 + ["bb", "Bytes", "arbles", "iB", " b", "i"])),
        draw(st.sampled_from([""] * 8 + [" ", "\n", "K", "x", ".", "\ufeff", "\u200b", "\0", "\xa0", ")", ";", "\r\n", "/s"])),
    ]
    return "".join(parts)


PROP = Prop(
    "C29",
    [
        Sub("parse", strings() | st.text(st.sampled_from("0123 KMGTkmgtBb"), max_size=6), check, 5000, 30, "legal, zero, or malformed with a digit"),
        Sub("unit", st.sampled_from(list("KMGTkmgt") + LOOKALIKES) | st.text(st.sampled_from("KMGTkmgtBbxP "), max_size=3), check_unit, 800, 10, "non-empty"),
        Sub("construct", st.tuples(st.integers(-3, 10 ** 20) | st.integers(-2, 2) | st.sampled_from([1.0, "1", None, 2.5]), st.sampled_from("KMGT")),
            check_construct, 800, 10, "all"),
    ],
)
