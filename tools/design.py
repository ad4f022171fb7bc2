"""Rewrites DESIGN.md: tools/design_head.md, one section per property (from properties.jsonl and the checks), tools/design_tail.md with the table of planted bugs."""
import ast, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = dict(
 T01="a running list of (samples, count) contributions; the expected amplitude is their count-weighted mean, the expected refusal follows from the documented conditions",
 T02="integer arithmetic on lengths; the recorded samples followed by zeros",
 T03="a list of (time, sample) pairs filtered by the interval",
 T04="a snapshot of every attribute taken before the operation on the other object; array reads as equality of all attributes",
 T05="direct correlation sums over every lag; count-weighted mean after shifting by the best lag",
 T06="equality of the tuples of values the objects were built from (an equivalence by construction)",
 A01="sorting of (position, samples) pairs; the list of documented defects",
 A02="first and second differences of the retained positions, computed from the position list",
 A03="a filter over the list of offsets |x - source|",
 A04="the line through the two points, evaluated per sensor; taper from the definition of the Tukey window",
 A05="direct evaluation of detrending, normalization and first-arrival definitions on lists of samples",
 A06="the attributes before writing; the exact integers that SU headers can carry",
 A07="headers written by an independent byte-level writer (mc/files.py), so the intended value of every field is known",
 A08="count-weighted mean per position over independently written files",
 A09="the clicks given by a scripted user (mc/ui.py)",
 A10="each step's definition applied to the records observed before it; an array newly built from the records observed after it",
 A11="the array's own observed records, positions and source; documented defaults of the styles and limits",
 W01="nearest-bin selection and spacing formulas evaluated directly",
 W02="textbook sums over sensors, per frequency and trial velocity (mc/reftransform.py), written with plain loops from the definitions",
 W03="the velocity the synthetic plane or cylindrical wave was built with; shift, mirror and scaling invariance",
 W04="the original complex image divided by the requested maximum",
 W05="a list of contributions; the count-weighted mean",
 W06="arg-max of magnitude over each column",
 W07="the data given; contours recomputed by matplotlib from the expected image",
 M01="the documented steps performed by hand on arrays read independently",
 M02="the same run in a process forked before any run (mc/forks.py)",
 M03="the documented conditions on source position, names and arrays",
 M04="spectral sums of the windows over a common frequency step",
 M05="a table of (argument, place, type, default)",
 M07="the same steps performed one by one; direct spectra for the signal-to-noise",
    M06="direct correlation sums; true velocity of the synthetic survey",
 P01="a reference peak table (mc/refpeaks.py): list of rows of (windows, frequency, velocity, valid), filtered by the definition of each rejection",
 P02="a dictionary identifier -> peaks, compared with the parsed file after each operation",
 P03="equality of the values the objects were built from",
 P04="the row of largest power among the valid ones, column by column",
 P05="the table of cells the file text was generated from",
 S01="a list of members and identifiers",
 S02="the reference peak table with a scripted user's boxes and answers; snapshots for undo",
 S03="piecewise-linear interpolation inside each member's range, mean, deviation and correlation by definition",
 S04="the formulas relating frequency, wavelength, wavenumber, velocity and slowness",
 S05="the data given, read back from the artists drawn",
 S06="the reference peak tables, interpolated and averaged directly (as in S03); a new suite built from them",
 S07="the reference peak tables and pending selections of S02's scripted user, and the first view; markers and curves read back from the axes",
 I01="a small automaton of the session, driven by the same scripted events",
 U01="the recording's sample at each whole second",
 U02="exact rational solution (fractions) of the normal equations",
 U03="multisets of rows, densities and column moments computed on lists",
 E01="the dispersion curve the records were synthesized from; the reference peak tables of P01 through the later stages",
 U04="both orders of dropping computed on lists, utility by definition",
)


def meta(fn):
    ns = {}
    for node in ast.parse(open(fn).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("RULE", "BOUNDS", "ASSUMPTIONS"):
            ns[node.targets[0].id] = eval(compile(ast.Expression(node.value), fn, "eval"))
    return ns


cost = json.load(open(os.path.join(H, "tools", "cost.json"))) if os.path.exists(os.path.join(H, "tools", "cost.json")) else {}
out = [open(os.path.join(H, "tools", "design_head.md")).read().rstrip(), "", "## 3. Property by property", ""]
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line)
    fn = os.path.join(H, "checks", p["id"].lower() + ".py")
    n = meta(fn)
    c = cost.get(p["id"], {})
    out += [f"### {p['id']} {p['title']}", "",
            p["statement"], "",
            f"- *Enumerated and compared:* {n['RULE']}.",
            f"- *Oracle:* {ORACLE[p['id']]}.",
            f"- *Bounds, quick:* {n['BOUNDS']['quick']}.",
            f"- *Bounds, thorough:* {n['BOUNDS']['thorough']}."]
    if c:
        out += [f"- *Cost (8 cores):* quick {c['quick']}" + (f"; thorough {c['thorough']}" if c.get("thorough") else "") + "."]
    out += [f"- *Assumed:* {'; '.join(n['ASSUMPTIONS'])}.",
            f"- *Why this reaches what the tests cannot:* {p['why_tests_cant']}.", ""]
tail = open(os.path.join(H, "tools", "design_tail.md")).read().rstrip()
rows = []
det = {}
fn = os.path.join(H, "tools", "detection.txt")
if os.path.exists(fn):
    for l in open(fn):
        a = l.rstrip("\n").split("\t")
        det[a[0]] = a[1:]
for s in sorted(os.listdir(os.path.join(H, "seeded"))) if os.path.isdir(os.path.join(H, "seeded")) else []:
    m = json.load(open(os.path.join(H, "seeded", s, "meta.json")))
    d = det.get(s, ["not run", ""])
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks'].strip()[:160]} | {d[0]} | {d[1] if len(d) > 1 else ''} |")
table = "\n".join(["| planted bug | property | what it breaks | check | remark |", "|---|---|---|---|---|"] + rows)
out += [tail.replace("@@TABLE@@", table).replace("@@MUT@@", open(os.path.join(H, "tools", "mutation.md")).read().strip() if os.path.exists(os.path.join(H, "tools", "mutation.md")) else "In progress.")]
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(rows), "planted bugs")
