#!/usr/bin/env python3
"""Break the specification in one place at a time and see that its own invariants notice.

mutate.py [N...]   (works on a copy of spec/ in a scratch directory)"""
import os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import models, run

# (file, old, new, property whose models are run)
MUTATIONS = [
    ("AmqpDecode", "T[1] = \"opt\" -> IF c = 64 THEN Ok(NullV, p, FALSE)", "T[1] = \"opt\" -> IF c = 64 THEN Ok(NullV, p + 1, FALSE)", "C05"),
    ("AmqpDecode", "Ok(<<kind, r[2]>>, e + 1, r[4] \\/ r[3] # e + 1)", "Ok(<<kind, r[2]>>, r[3], r[4])", "C12"),
    ("AmqpDecode", "Ok(<<kind, r[2]>>, e + 1, r[4] \\/ r[3] # e + 1)", "Ok(<<kind, r[2]>>, e + 1, FALSE)", "C12"),
    ("AmqpDecode", "CASE f[3] = \"req\" -> Err2(\"required\", f[1])", "CASE f[3] = \"req\" -> Ok(Append(acc[2], NullV), acc[3], acc[4])", "C13"),
    ("AmqpDecode", "f[3] = \"def\" /\\ r[2] = NullV THEN f[4] ELSE r[2]", "f[3] = \"def\" /\\ r[2] = NullV THEN r[2] ELSE r[2]", "C13"),
    ("AmqpDecode", "IF KindOf(c) # \"list\" THEN CodeErr(c)", "IF KindOf(c) = \"null\" THEN CodeErr(c)", "C14"),
    ("AmqpDecode", "DecItems(TVariant, s, h[3], h[4], d + 1, h[2])", "DecItems(TVariant, s, h[3], h[4], d + 1, h[2] - 1)", "C05"),
    ("AmqpEncode", "THEN << <<code, b[c]>> >> ELSE <<>>", "THEN << <<code, b[1]>> >> ELSE <<>>", "C05"),
    ("AmqpEncode", "Len(body) + 1, n>> \\o body", "Len(body), n>> \\o body", "C05"),
    ("AmqpEncode", "VarCode8[k], Len(b)>> \\o b", "VarCode8[k], Len(b) + 1>> \\o b", "C05"),
    ("Stream", "IF Len(rx) < 8 THEN <<\"none\">>", "IF Len(rx) < 5 THEN <<\"none\">>", "C11"),
    ("Stream", "ELSE IF Len(rx) < n THEN <<\"none\">>", "ELSE IF Len(rx) < n THEN <<\"err\", Len(rx), \"length\">>", "C08"),
    ("Stream", "IF r[3] <= Len(body) THEN <<\"err\", n, \"leftover\">>", "IF r[3] <= Len(body) THEN <<\"item\", 3 + r[3], r[2], r[4]>>", "C09"),
    ("Stream", "ELSE IF IsErr(r) THEN <<\"err\", n, r[2]>>", "ELSE IF IsErr(r) THEN <<\"err\", Len(rx), r[2]>>", "C09"),
    ("MessageBuilder", "THEN Append(SelectSeq(old, LAMBDA e : e[1] # k), <<k, v>>)", "THEN Append(old, <<k, v>>)", "C17"),
    ("MessageBuilder", "[m EXCEPT !.data = <<e.val>>]", "[m EXCEPT !.data = Append(@, e.val)]", "C17"),
    ("MessageBuilder", "e.do = \"clear_body\" -> [m EXCEPT !.data = <<>>, !.seq", "e.do = \"clear_body\" -> [m EXCEPT !.seq", "C17"),
    ("MessageBuilder", "e.do = \"look\" -> m", "e.do = \"look\" -> [m EXCEPT !.fmt = <<>>]", "C17"),
    ("MessageBuilder", "[] e.do = \"if_some\" -> IF e.on THEN ApplyEdits(m, e.es, slots) ELSE m", "[] e.do = \"if_some\" -> ApplyEdits(m, e.es, slots)", "C17"),
    ("MessageBuilder", "Len(d.Data) = Len(m.data) + Len(m.msgs)", "Len(d.Data) = Len(m.data)", "C15"),
    ("TextKeys", "SameText(a, b) == a[2] = b[2]", "SameText(a, b) == a = b", "C20"),
    ("TextKeys", "Insert(m, t, v) == Append(DropKey(m, t), <<t, v>>)", "Insert(m, t, v) == Append(m, <<t, v>>)", "C20"),
    ("TextKeys", "\\/ Len(x) < Len(y) /\\", "\\/ Len(x) <= Len(y) /\\", "C20"),
    ("Instants", "1000, NanosValue(NanosOf(at)) \\div 1000000", "1000, NanosValue(NanosOf(at)) \\div 1000", "C19"),
    ("Instants", "CountOf(at) == SubSeq(MillisOf(at), 3, 10)", "CountOf(at) == SubSeq(MillisOf(at), 2, 9)", "C19"),
    ("Equality", "IF IsZero(b) THEN Zeros(Len(b)) ELSE b", "b", "C22"),
]


def main(which):
    base = run.SPEC
    for n, (mod, old, new, prop) in enumerate(MUTATIONS):
        if which and n not in which:
            continue
        d = tempfile.mkdtemp(prefix="mut")
        run.SPEC = os.path.join(d, "spec")
        shutil.copytree(base, run.SPEC)
        f = os.path.join(run.SPEC, mod + ".tla")
        t = open(f).read()
        if t.count(old) < 1:
            print(n, mod, "NOT FOUND", old)
            continue
        open(f, "w").write(t.replace(old, new, 1))
        verdict = "survived"
        rs = [r for r in models.plan(prop, True, 1)]
        try:
            run.explore(rs, os.path.join(d, "w"), 600)
        except run.ToolError as e:
            m = re.search(r"Invariant (\w+) is violated|[Aa]ction property (\w+)|property (\w+) is violated|[Tt]emporal properties|Evaluating invariant (\w+)", str(e))
            verdict = "caught: " + (m.group(0) if m else re.sub(r"\s+", " ", str(e))[:300])
        print("%2d %s %s: %s -> %s: %s" % (n, prop, mod, old[:50], new[:40], verdict), flush=True)
        shutil.rmtree(d)


main([int(x) for x in sys.argv[1:]])
