"""C09 Annotated text: offsets, nesting, clipping, order of tags."""
import random

from hypothesis import strategies as st

from core import Prop, Sub, raises, require, same
from immutablecollections import immutabledict, immutableset
from vistautils.annotated_text_utils import (
    AnnotatedSpan,
    HTMLStyleAnnotationFormatter,
    to_end_tag,
    to_start_tag,
)
from vistautils.span import Span


def start_tag(label, attrs):
    return "<" + label + "".join(' %s="%s"' % kv for kv in sorted(attrs)) + ">"


def reference(text, anns, start):
    """anns: (label, attrs, (s, e)) in input order. Offsets are relative to `start`."""
    n = len(text)
    inside = []
    for i, (label, attrs, (s, e)) in enumerate(anns):
        s2, e2 = max(s - start, 0), min(e - start, n)
        if s2 < e2:
            inside.append((s2, e2, i, label, attrs))
    out = []
    for pos in range(n + 1):
        ends = [a for a in inside if a[1] == pos]
        # shortest first, later ones of identical annotations first
        ends.sort(key=lambda a: (a[1] - a[0], -a[2]))
        out.extend("</%s>" % a[3] for a in ends)
        starts = [a for a in inside if a[0] == pos]
        starts.sort(key=lambda a: (-(a[1] - a[0]), a[2]))
        out.extend(start_tag(a[3], a[4]) for a in starts)
        if pos < n:
            out.append(text[pos])
    return "".join(out), inside


def build(anns):
    return [AnnotatedSpan(l, Span(*s), immutabledict(tuple(a))) for l, a, s in anns]


def check(case, ctx):
    text, anns, offset = case
    real = build(anns)
    if len(text) % 3 == 0:
        # any collection will do
        real = tuple(real) if len(anns) % 2 or len(set(real)) < len(real) else immutableset(real)
    fmt = HTMLStyleAnnotationFormatter()
    if offset is None:
        got = fmt.annotated_text(text, real)
        start = 0
    else:
        got = fmt.annotated_text(text, real, text_offsets=Span(offset, offset + len(text)))
        start = offset
        ctx.label("offsets")
    want, inside = reference(text, anns, start)
    dropped = len(anns) - len(inside)
    clipped = sum(1 for (s, e, i, _, _) in inside if (anns[i][2][0] - start, anns[i][2][1] - start) != (s, e))
    if dropped:
        ctx.label("dropped")
    if clipped:
        ctx.label("clipped")
    ident = len({(a[0], a[1]) for a in inside}) < len(inside)
    if ident:
        ctx.label("identical-spans")
    crossing = any(a[0] < b[0] < a[1] < b[1] for a in inside for b in inside)
    ctx.label("crossing" if crossing else "laminar")
    ctx.mark(len(inside) >= 2)
    # 1. taking the tags away leaves the text, with every tag at its offset
    strings = {start_tag(a[3], a[4]) for a in inside} | {"</%s>" % a[3] for a in inside}
    same(got, want, "annotated text of %r" % (anns,))
    # 2. whole elements nest whenever the annotations do
    if not crossing and "<" not in text:
        stack = []
        pos = i = 0
        seen = []
        plain = []
        while i < len(got):
            if got[i] == "<":
                j = got.index(">", i)
                tag = got[i + 1 : j]
                if tag.startswith("/"):
                    require(bool(stack), "an end tag without a start tag", got)
                    name, at = stack.pop()
                    same(tag[1:], name, "nesting of the tags in %r" % got)
                    seen.append((name, at, pos))
                else:
                    stack.append((tag.split(" ")[0], pos))
                i = j + 1
            else:
                plain.append(got[i])
                pos += 1
                i += 1
        require(not stack, "unclosed elements", got)
        same("".join(plain), text, "the text without the tags")
        same(sorted(seen), sorted((a[3], a[0], a[1]) for a in inside), "elements of %r" % got)
    require(strings is not None, "")
    # the inputs are what they were
    same([(a.label, sorted(a.attributes.items()), (a.span.start, a.span.end)) for a in real],
         [(l, sorted(dict(a).items()), tuple(s)) for l, a, s in anns], "annotations after formatting")


def check_length(case, ctx):
    text, span = case
    ctx.mark()
    # a span is never empty, an empty text is: no annotation is within it
    for anns in ([], [AnnotatedSpan("a", Span(*span))], [AnnotatedSpan("a", Span(*span))] * 2):
        same(HTMLStyleAnnotationFormatter().annotated_text("", anns), "", "an empty text")
    raises(ValueError, lambda: HTMLStyleAnnotationFormatter().annotated_text("", [], text_offsets=Span(*span)), "offsets of an empty text")
    if span[1] - span[0] == len(text):
        same(HTMLStyleAnnotationFormatter().annotated_text(text, [], text_offsets=Span(*span)), text, "no annotations")
    else:
        raises(
            ValueError,
            lambda: HTMLStyleAnnotationFormatter().annotated_text(text, [], text_offsets=Span(*span)),
            "offsets whose length is not that of the text",
        )


def check_tags(case, ctx):
    label, attrs, span, clazz = case
    ctx.mark(len(attrs) > 1)
    ann = AnnotatedSpan(label, Span(*span), immutabledict(tuple(attrs)))
    same(to_start_tag(ann), start_tag(label, attrs), "start tag")
    given = dict(attrs)
    plain = AnnotatedSpan(label, Span(*span), given)
    same(plain, ann, "annotation with a dictionary of attributes")
    given["another"] = "later"
    same(plain, ann, "annotation after its dictionary of attributes was changed")
    if not attrs:
        same(AnnotatedSpan(label, Span(*span)), ann, "annotation without attributes")
    for name, value in (("label", "other"), ("span", Span(0, 77)), ("attributes", immutabledict([("a", "b")]))):
        raises(AttributeError, lambda: setattr(ann, name, value), "assigning the %s of an annotation" % name)
    same(ann, plain, "annotation after the attempts to change it")
    raises(TypeError, lambda: AnnotatedSpan(None, Span(*span)), "an annotation without a label")
    raises(TypeError, lambda: AnnotatedSpan(label, span), "an annotation of a tuple")
    same(to_end_tag(ann), "</%s>" % label, "end tag")
    for name, make in (("div", AnnotatedSpan.create_div_of_class), ("span", AnnotatedSpan.create_span_of_class)):
        a = make(Span(*span), clazz)
        same(a.label, name, "label")
        same(a.span, Span(*span), "span")
        same(dict(a.attributes), {"class": clazz}, "attributes")
        same(to_start_tag(a), '<%s class="%s">' % (name, clazz), "start tag")
        same(a, AnnotatedSpan(name, Span(*span), immutabledict([("class", clazz)])), "annotation")


labels = st.sampled_from(["a", "b", "c", "div", "span", "PER", "x-y"])
odd_labels = labels | st.sampled_from(["", " a", "a b", "A", "\u00e9", "/", "%s", "{}"])
attrs = st.lists(
    st.tuples(
        st.sampled_from(["id", "class", "Z", "a", "b0"]) | st.sampled_from(["a ", " a", "A", "x:y", "\u00e9", "data-x", "", "a.b", "long-" * 9 + "x", "A" * 70, "b" * 300]),
        st.sampled_from(["", "v", "two words", "\u00e9", "0"]) | st.sampled_from([" v ", "v\n", "V", "%s", "{0}", "\\", "true"])),
    max_size=3,
    unique_by=lambda kv: kv[0],
).map(tuple)
texts = st.one_of(
    st.text(st.sampled_from("ab \n\u00e9\u4e2d\U0001f600"), min_size=1, max_size=12),
    st.text(st.sampled_from("ab<>/&\r"), min_size=1, max_size=8),
    st.lists(st.sampled_from(["\r\n", "a", "\n", "\r", "\u2028", "\x0b", "\x85", "\x00", "\t", "&amp;", "e\u0301", " ", "\ufeff"]), min_size=1, max_size=7).map("".join),
)


@st.composite
def cases(draw):
    text = draw(texts)
    n = len(text)
    offset = draw(st.one_of(st.none(), st.integers(0, 30), st.integers(-20, 5)))
    base = offset or 0
    lo, hi = (0, n) if draw(st.booleans()) else (base - 4, base + n + 4)
    if lo == 0 and hi == n and base:
        lo, hi = base, base + n
    anns = []
    for _ in range(draw(st.integers(0, 6))):
        if anns and draw(st.integers(0, 3)) == 0:
            s = draw(st.sampled_from(anns))[2]
        else:
            a = draw(st.integers(lo, hi - 1))
            s = (a, draw(st.integers(a + 1, hi)))
        anns.append((draw(labels), draw(attrs), s))
    if draw(st.booleans()):
        # keep a laminar subset (of the clipped spans)
        kept = []
        for l, a, (s, e) in anns:
            cs, ce = max(s, base), min(e, base + n)
            if all(not (ks < cs < ke < ce) and not (cs < ks < ce < ke)
                   for ks, ke in ((max(k[2][0], base), min(k[2][1], base + n)) for k in kept)):
                kept.append((l, a, (s, e)))
        anns = kept
    return (text, anns, offset)


def check_large(case, ctx):
    """A long text with very many annotations."""
    n, count, seed, offset, shape = case
    rnd = random.Random(seed)
    many_attrs = tuple(("k%03d" % (i * 7 % count), "v%d" % i) for i in range(count)) if n % 2 else (("only", "one"),)
    text = "".join(rnd.choice("ab c\n\u00e9\u4e2d") for _ in range(n))
    base = offset or 0
    anns = []
    if shape == "laminar":
        def split(a, b, depth):
            if len(anns) >= count or a >= b:
                return
            for _ in range(rnd.choice([1, 1, 1, 2, 3])):
                anns.append((rnd.choice("abcd"), (("id", str(len(anns))),), (a, b)))
            if b - a > 1 and depth < 40:
                m = rnd.randrange(a + 1, b)
                split(a, m, depth + 1)
                split(m, b, depth + 1)
        split(base, base + n, 0)
        rnd.shuffle(anns)
    elif shape == "same":
        spans = [(base + rnd.randrange(n), base + n) for _ in range(3)]
        anns = [(rnd.choice("abcd"), (), rnd.choice(spans)) for _ in range(count)]
        anns[count // 2] = (rnd.choice("abcd"), dict(many_attrs), rnd.choice(spans))
        anns[count // 2] = anns[count // 2][:1] + (tuple(anns[count // 2][1].items()),) + anns[count // 2][2:]
    else:
        for _ in range(count):
            a = rnd.randrange(base - 20, base + n + 20)
            anns.append((rnd.choice("abcd"), tuple(dict(many_attrs).items()) if len(anns) in (0, count // 2) else (), (a, a + rnd.choice([1, 2, 9, 50, n]))))
    check((text, anns, offset if offset is not None else (0 if shape == "any" else None)), ctx)
    ctx.mark(count >= 20)


@st.composite
def lengths(draw):
    text = draw(texts)
    a = draw(st.integers(-20, 20))
    return (text, (a, a + max(1, len(text) + draw(st.integers(-1, 1)))))


PROP = Prop(
    "C09",
    [
        Sub("format", cases(), check, 4000, 40, "two or more annotations in the text"),
        Sub("large", st.tuples(st.integers(1, 300), st.integers(1, 150), st.integers(0, 10 ** 6), st.none() | st.integers(0, 50) | st.just(100000) | st.integers(-300, -1),
                               st.sampled_from(["laminar", "same", "any"])), check_large, 120, 30, "20 annotations or more"),
        Sub("lengths", lengths(), check_length, 600, 20, "all"),
        Sub("tags", st.tuples(odd_labels, attrs, st.tuples(st.integers(0, 4), st.integers(5, 9)), st.sampled_from(["c", "", "x y"])), check_tags, 600, 20,
            "two or more attributes"),
    ],
)
