"""C05: DictReader and DictWriter against their csv counterparts."""
import csv
import io
import warnings

import clevercsv
from clevercsv.dialect import SimpleDialect

from vlib import dialects, gens
from vlib.engine import Part, Violation, cut, eq, expect

from props import c02

ASSUMPTIONS = ["csv.DictReader/DictWriter of the running Python are the oracle, on well-formed text (see C02)"]


def dialect_pair(case, tmp, p, simple_ok=True):
    """((csv args, kw), (clevercsv args, kw))"""
    form = case["form"] % 8
    if form == 7 and simple_ok:
        dia, kw = dialects.form(2, p, tmp)
        return (dia, {}), (SimpleDialect(p["delimiter"], p["quotechar"] or "", p["escapechar"] or "", strict=p["strict"]), {})
    dia, kw = dialects.form(form, p, tmp)
    if dia is None:
        dia = "excel"
    return (dia, kw), (dia, kw)


def read_obs(cls, lines, fn, case, dia, kw, pauses=()):
    obs = []
    k = case["fkind"] % 3
    f = None if fn is None else [list, tuple, iter][k](fn)
    args = {}
    if case["restkey"]:
        args["restkey"] = case["restkey"] if isinstance(case["restkey"], str) else "REST"
    if case["restval"]:
        args["restval"] = ["missing", 0, ("a", "b"), ""][case["fkind"] % 4]
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        pos, args = dialects.positional(case.get("pos", 0), [("restkey", None), ("restval", None), ("dialect", "excel")],
                                        {"dialect": dia, **args, **kw})
        r = cls(c02.Source(lines, pauses), f, *pos, **args)
        obs.append(("line0", r.line_num))
        for op in case["ops"]:
            t = op % 5
            if t == 0:
                fns = r.fieldnames
                obs.append(("fieldnames", type(fns).__name__, None if fns is None else list(fns), r.line_num))
            elif t == 1:
                try:
                    obs.append(("next", list(next(r).items()), r.line_num, r.reader.line_num))
                except StopIteration:
                    obs.append(("stop", r.line_num))
                except TypeError:
                    obs.append(("TypeError",))
            elif t == 2:
                obs.append(("iter", iter(r) is r))
            elif t == 3:
                for row in r:
                    obs.append(("for", list(row.items()), r.line_num))
                    break
            elif op == 4:
                r.fieldnames = ("x", "y") if len(lines) % 2 else ["x", "y"]
            elif op == 9:
                # names that aren't unique, whatever was read or warned about before
                r.fieldnames = ["x", "y", "x"]
                del ws[:]
        for _ in range(len(pauses) + 1):
            obs.append([list(x.items()) for x in r])
            obs.append(r.line_num)
        fns = r.fieldnames
        obs.append(None if fns is None else list(fns))
    return obs, ws, fns, r


def check_read(case):
    d, q, e, strict = case["d"], case["q"], case["e"], bool(case["strict"])
    if not dialects.valid(d, q, e):
        return []
    text = c02.render(case)
    if len(text) > 100000:
        return []
    lines = list(io.StringIO(text, newline=""))
    p = dialects.params(d, q, e, strict)
    fn = [x for x in case["fn"] if isinstance(x, str)] if case["hasfn"] else None
    with dialects.Temp() as tmp:
        (cd, ck), (vd, vk) = dialect_pair(case, tmp, p)
        pauses = [k for k in c02.pauses_of(case, lines, cd, ck) if k]  # the header is there
        want, _, _, _ = read_obs(csv.DictReader, lines, fn, case, cd, ck, pauses)
        got, ws, fns, r = cut("DictReader", read_obs, clevercsv.DictReader, lines, fn, case, vd, vk, pauses)
    eq(got, want, "observations of the DictReader")
    dup = fns is not None and len(set(fns)) != len(list(fns))
    expect(not dup or ws, "duplicate field names without a warning: %r" % (fns,))
    if not dup and not {4, 9} & set(case["ops"]):
        expect(not [w for w in ws if "unique" in str(w.message)], "warning about duplicates for %r" % (fns,))
    labels = []
    if dup:
        labels.append("duplicate header")
    rows = list(csv.reader(lines, **p))
    if len(rows) > 2 and any(len(x) > 1 for x in rows):
        labels.append("NT")
    n = len(fn) if fn is not None else (len(rows[0]) if rows else 0)
    if any(len(x) > n for x in rows):
        labels.append("long record")
    if any(0 < len(x) < n for x in rows):
        labels.append("short record")
    return labels


def gen_read(rng):
    d, q, e = gens.triple(rng, empty_d=0)
    rows = c02.gen_rows(rng, q)
    names = ["a"]
    if rows and rng.random() < 0.7:
        k = rng.randint(1, 4)
        names = [gens.cell_plain(rng) for _ in range(k)]
        if rng.random() < 0.2:
            names[-1] = names[0]
        rows = [[[rng.randint(0, 1), [x]] for x in names]] + rows
    return {"d": d, "q": q, "e": e, "strict": rng.random() < 0.3, "rows": rows, "nl": rng.randint(0, 3),
            "final": rng.random() < 0.6, "qnone": False, "form": rng.randint(0, 63), "hasfn": rng.random() < 0.3,
            "fn": [rng.choice(["a", "b", "c", "", "é"]) for _ in range(rng.randint(0, 4))], "fkind": rng.randint(0, 11),
            "pos": rng.choice([0, 1, 2, 3]), "restkey": rng.choice([False, False, True, True, rng.choice(["a", "b", "c", names[0] if rows else ""])]), "restval": rng.random() < 0.5,
            "pauses": [rng.randint(0, 9) for _ in range(rng.randint(1, 3))] if rng.random() < 0.1 else [],
            "ops": [rng.randint(0, 15) for _ in range(rng.randint(0, 5))]}


KEYS = [["f0", "f1", "f2", "f3", "f4"], [0, "0", None, "None", 1.5], [("a", 1), "", False, "False", b"x"]]


def write_obs(cls, err, case, dia, kw, fields):
    out = io.StringIO(newline="")
    obs = []
    args = {}
    keys = KEYS[case.get("keys", 0) % 3]
    if case["restval"]:
        args["restval"] = [None, "miss", 7, 'q"'][case["restval"] % 4]
    ea = case["extras"] % 6
    if ea:
        args["extrasaction"] = ["", "raise", "ignore", "RAISE", "Ignore", "other"][ea]
    try:
        pos, args = dialects.positional(case.get("pos", 0), [("restval", ""), ("extrasaction", "raise"), ("dialect", "excel")],
                                        {"dialect": dia, **args, **kw})
        w = cls(out, fields, *pos, **args)
    except ValueError:
        return [("ValueError",)], ""
    for op in case["ops"]:
        t = op[0] % 7
        if t >= 4 and not all(isinstance(k, int) for rec in op[1] for k, _ in rec):
            continue
        if t == 4:
            w.fieldnames = [keys[k % 5] for rec in op[1] for k, _ in rec]
            obs.append(list(w.fieldnames))
            continue
        if t == 5:
            # the caller's own list
            if isinstance(fields, list):
                fields.extend(keys[k % 5] for rec in op[1][:1] for k, _ in rec[:1])
            obs.append(w.fieldnames if w.fieldnames is None else list(w.fieldnames))
            continue
        if t == 6:
            w.restval = ["-", None, 5][len(op[1]) % 3]
            w.extrasaction = ["raise", "ignore"][sum(map(len, op[1])) % 2]
            continue
        recs = [{k if isinstance(k, str) else keys[k % 5]: v for k, v in rec} for rec in op[1]]
        try:
            if t == 0:
                obs.append(w.writeheader())
            elif t == 1:
                obs.append(w.writerows(recs))
            elif t == 2:
                obs.append(w.writerows(x for x in recs))
            else:
                for x in recs:
                    obs.append(w.writerow(x))
        except ValueError:
            obs.append("ValueError")
        except err:
            obs.append("Error")
        except (TypeError, AttributeError) as ex:
            obs.append(type(ex).__name__)
        obs.append(out.tell())
    return obs, out.getvalue()


def check_write(case):
    d, q, e = case["d"], case["q"], case["e"]
    if not dialects.valid(d, q, e):
        return []
    p = dialects.params(d, q, e, False, quoting=dialects.QUOTING[case["quoting"] % 4],
                        lineterminator=["\n", "\r\n"][case["nl"] % 2])
    fields = [KEYS[case.get("keys", 0) % 3][k % 5] for k in case["fields"]]
    mk = [list, tuple, iter, list, lambda f: None, dict.fromkeys, lambda f: dict.fromkeys(f).keys()][case["fkind"] % 7]
    with dialects.Temp() as tmp:
        (cd, ck), (vd, vk) = dialect_pair(case, tmp, p, simple_ok=False)
        want, wt = write_obs(csv.DictWriter, csv.Error, case, cd, ck, mk(fields))
        got, gt = cut("DictWriter", write_obs, clevercsv.DictWriter, clevercsv.Error, case, vd, vk, mk(fields))
    eq(gt, wt, "text written")
    eq(got, want, "results of the calls")
    labels = []
    if "ValueError" in want:
        labels.append("unknown field refused")
    if len(wt) > 4 and len(fields) > 1:
        labels.append("NT")
    return labels


def gen_write(rng):
    d, q, e = gens.triple(rng, empty_d=0)
    ops = []
    nf = rng.randint(0, 4)
    for _ in range(rng.randint(1, 4)):
        recs = []
        for _ in range(rng.randint(0, 3)):
            ks = list(range(nf))
            rng.shuffle(ks)
            if rng.random() < 0.3:
                ks = ks[:-1]
            if rng.random() < 0.25:
                ks.append(rng.randint(0, 4))
            recs.append([[k, rng.choice([gens.cell_plain(rng), gens.cell_plain(rng), q, d, "\n", rng.randint(0, 99), None])] for k in ks])
        ops.append([rng.randint(0, 3), recs])
    if rng.random() < 0.2:
        ops.insert(rng.randint(0, len(ops)), [rng.randint(4, 6), [[[rng.randint(0, 4), ""] for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 2))]])
    fkind = rng.randint(0, 3) if rng.random() < 0.9 else rng.randint(4, 6)
    if fkind == 4 and rng.random() < 0.8:
        ops.insert(0, [4, [[[k, ""] for k in range(nf)]]])
    return {"d": d, "q": q, "e": e, "fields": list(range(nf)), "fkind": fkind, "ops": ops, "pos": rng.choice([0, 1, 2, 3]),
            "restval": rng.randint(0, 7), "keys": rng.choice([0, 0, 1, 2]), "extras": rng.choice([0, 0, rng.randint(0, 5)]), "nl": rng.randint(0, 1),
            "quoting": rng.randint(0, 3), "form": rng.randint(0, 63)}


def check_round(case):
    d, q, e = case["d"], case["q"], case["e"]
    names = [x for x in case["names"] if isinstance(x, str)]
    if not dialects.valid(d, q, e) or not names or len(set(names)) != len(names) or not q:
        return []
    tok = [d, q, e, "\n", "\r\n", q + q, e + q, e + e, e + d, " "]
    val = lambda v: "".join(tok[x % len(tok)] if isinstance(x, int) else x for x in v)
    recs = [{n: val(r[i]) if i < len(r) else "" for i, n in enumerate(names)} for r in case["recs"]]
    if isinstance(case.get("rep"), int) and len(recs) > 1:
        recs = recs[:-1] * (1 + abs(case["rep"]) % 3000) + recs[-1:]
    out = io.StringIO(newline="")
    form = case["form"] % 3
    with dialects.Temp() as tmp:
        if form == 0:
            dia, kw = SimpleDialect(d, q, e), {}
        else:
            dia, kw = dialects.form([0, 1, 2][case["form"] % 3], dialects.params(d, q, e), tmp)

        def run():
            w = clevercsv.DictWriter(out, names, dialect=dia, **kw)
            w.writeheader()
            if case["form"] % 2:
                w.writerows(recs)
            else:
                for r in recs:
                    w.writerow(r)
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                rd = clevercsv.DictReader(io.StringIO(out.getvalue(), newline=""), dialect=dia, **kw)
                return rd.fieldnames, list(rd)
        fn, got = cut("DictWriter/DictReader", run)
    eq(list(fn), names, "field names read back")
    eq([list(x.items()) for x in got], [list(x.items()) for x in recs], "records read back")
    return ["NT"] if len(recs) > 1 and len(names) > 1 else []


def gen_round(rng):
    d, q, e = gens.triple(rng, empty_d=0, empty=0.1)
    k = rng.randint(1, 4)
    names = []
    while len(names) < k:
        n = rng.choice([gens.cell_plain(rng), rng.choice(["id", "na,me", 'q"x', "line\nbreak", "é", " "])])
        if n not in names:
            names.append(n)
    cellv = lambda: [rng.randint(0, 9) if rng.random() < 0.4 else gens.cell_plain(rng) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
    return {"d": d, "q": q, "e": e, "names": names, "rep": rng.choice([300, 1100]) if rng.random() < 0.004 else 0, "form": rng.randint(0, 5),
            "recs": [[cellv() for _ in range(k)] for _ in range(rng.randint(0, 5))]}


PARTS = [
    Part("read", gen_read, check_read, 50000, 1200000, rule="at least three records, some with two or more cells"),
    Part("write", gen_write, check_write, 40000, 1000000, rule="output written with at least two fields"),
    Part("roundtrip", gen_round, check_round, 40000, 1000000, rule="at least two records and two fields"),
]
