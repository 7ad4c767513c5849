# the limits of limits.py with small numbers
import importlib.util, os, re
spec = importlib.util.spec_from_file_location("limits", os.path.join(os.path.dirname(os.path.abspath(__file__)), "limits.py"))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
EDITS = []
NUM = re.compile(r"(?<![\w.%])(\d+<<\d+|\d{2,})(?![\w)])")
SKIP = "b-lim-doc b-lim-doc2 b-lim-int b-lim-year b-lim-memo b-lim-page2 b-lim-text b-lim-netlen b-lim-offset b-lim-hl".split()
for k in (2, 3, 5, 7):
    for name, kind, props, edits in m.EDITS:
        if name in SKIP:
            continue
        new = [(f, o, NUM.sub(str(k), n) if not NUM.search(o or "") else n) for f, o, n in edits]
        if new != edits:
            EDITS.append((name.replace("b-lim", "b-sm%d" % k), kind, props, new))
