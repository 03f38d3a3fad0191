"""CSV import: faithful, exactly once, all or nothing; rules."""
from __future__ import annotations
import os
import random
from collections import Counter
from dataclasses import replace
from decimal import Decimal as D
from fractions import Fraction

from . import gen, model, outp, rules
from .common import Journal, cmp_balance, cmp_envelopes, cmp_register, check_moves
from .core import Violation
from .gen import Opt, Style, World, render, today_pool
from .model import Account, Amt, DateFmt, Entry, Post, split
from .props import check

UNKNOWN = ("expenses:unknown", "income:unknown", "unknown")


def import_world(ctx, rng, box, opt=None, rel="j.sfox", today=None):
    today = today or today_pool(rng, 1980, 2100)
    w = World(rng, today, opt or Opt(entries=(0, 6), envelopes=(0, 3), funded=0.7, accounts=(3, 7), syms=(0, 2), span=(-120, 0),
                                     mags=("int", "cents", "round")))
    for n in UNKNOWN + ("assets:checking", "expenses:food", "assets:savings"):
        if n not in w.accounts:
            w.accounts[n] = Account(n)
            w.names.append(n)
    items = w.items()
    text, fmt = render(items, Style.pick(rng))
    j = Journal(box, rel, items, text, fmt)
    ctx.sample(dict(today=str(today), journal=text[:800]))
    return w, j, today


def write_setup(box, su, rng, plain=False):
    files = {}
    box.write("bank.csv", rules.csv_text(su.records, rng))
    rt = rules.text_of(su.stmts, files, None if plain else rng)
    for p, t in files.items():
        box.write(p, t)
    box.write("bank.csv.rules", rt)
    return rt, files


def args_for(rng, box, j, extra=()):
    a = [["-f", j.rel], [rng.choice(["--csv", "--csv-file"]), "bank.csv"]]
    if rng.random() < 0.3:
        box.write("other.rules", box.text("bank.csv.rules"))
        os.unlink(box.path("bank.csv.rules"))
        a.append([rng.choice(["--rules", "--rules-file"]), "other.rules"])
    a += [[x] for x in extra]
    rng.shuffle(a)
    return [rng.choice(["i", "import", "imp"])] + [x for y in a for x in y]


def post_key(p):
    am = lambda a: None if a is None else (Fraction(a.mag), a.sym)
    return (p.account, am(p.amount), None if p.cost is None else (p.cost[0],) + am(p.cost[1]), am(p.assertion), p.envelope)


def close_post(a, b):
    ka, kb = post_key(a), post_key(b)
    if ka == kb:
        return True
    def eq(x, y):
        if x is None or y is None:
            return x is y
        return x[-1] == y[-1] and x[:-2] == y[:-2] and outp.close(x[-2], y[-2], abs(y[-2]))
    return ka[0] == kb[0] and ka[4] == kb[4] and all(eq(x, y) for x, y in zip(ka[1:4], kb[1:4]))


def same_entry(got, exp):
    if got.date != exp.date:
        return "date"
    if got.status != exp.status:
        return "status"
    if got.desc != exp.desc:
        return "description"
    if (got.payee or "") != (exp.payee or ""):
        return "payee"
    bare = lambda c: rules.norm(c or "").lstrip("/; ")      # (how many comment marks there are does not matter)
    if bare(got.comment) != bare(exp.comment):
        return "comment"
    if len(got.posts) != len(exp.posts):
        return "number of postings"
    left = list(exp.posts)
    for p in got.posts:
        for q in left:
            if close_post(p, q):
                left.remove(q)
                break
        else:
            return "postings"
    return None


def is_auto(e):
    return bool(e.posts) and all(p.is_env for p in e.posts)


def take_auto(ctx, es, pre, today, moving, judge=True):
    """split off the automatic movement that goes before the imported transactions"""
    if es and is_auto(es[0]):
        if not moving:
            raise Violation("an import with --no-move moved money", added=[str(e) for e in es[:1]])
        if judge:
            check_moves(ctx, pre, today, es[0].posts)
        return es[1:]
    if moving and judge:
        check_moves(ctx, pre, today, [])
    return es


def check_import(ctx, box, j, su, exp, args, today, moving, pre, judge=True, **kw):
    r = box.run(args, today=today, **kw)
    if r.panicked:
        raise Violation("an import crashed", run=r.brief())
    if r.err:
        raise Violation("a valid import was answered with an error", run=r.brief(), expected=[str(e) for e in exp[:3]])
    es = take_auto(ctx, j.tail(), pre, today, moving, judge)
    if len(es) != len(exp):
        raise Violation("an import did not add exactly one transaction per record", records=len(exp), added=len(es), args=args)
    for i, (g, x) in enumerate(zip(es, exp)):
        d = same_entry(g, x)
        if d:
            raise Violation(f"an imported transaction is not what the rules make of its record ({d})", record=i, got=str(g), expected=str(x), args=args)
        ctx.n["imported_transactions_compared"] += 1
        # from here on the model goes on with the exact values
        j.items[len(j.items) - len(es) + i] = x
    return r


def good_import(ctx, rng, box, rich):
    for _ in range(20):
        w, j, today = import_world(ctx, rng, box)
        su = rules.setup(rng, w.names, today, rich_blocks=rich)
        exp = rules.usable(su, set(w.names), w.acceptable)
        if exp or rng.random() < 0.1:
            return w, j, today, su, exp
    return w, j, today, su, exp


def with_assertions(rng, w, j, su, exp):
    """a balance column, as banks have it"""
    st, blocks = rules.evaluate(su.stmts)
    if blocks or not exp or rng.random() < 0.3 or len(st["fields"]) != len(su.records[-1]):
        return exp
    am = [i for i, s in enumerate(su.stmts) if s[0] == "set" and s[1].startswith("amount")]
    if len(am) != 1:
        return exp
    idx = su.stmts[am[0]][1][6:]
    acct = st["accounts"].get(idx)
    if st["amounts"].get(idx) != su.stmts[am[0]][2]:
        return exp
    if not acct or "%" in acct or sum(1 for a in st["accounts"].values() if a == acct) != 1 or acct in UNKNOWN:
        return exp
    bal = model.balances(split(j.items)[1])[0].get(acct, {})
    out, dec, cells = [], su.raw["dec"], []
    if any(sum(1 for p in e.posts if p.account == acct) != 1 for e in exp):
        return exp
    for k, e in enumerate(exp):
        for p, v, s in model.resolved(e):
            if p.account == acct:
                bal[s] = bal.get(s, Fraction(0)) + v
        p = next(q for q in e.posts if q.account == acct and q.amount is not None)
        b = bal[p.amount.sym]
        x = D(b.numerator) / D(b.denominator)
        if Fraction(x) != b or abs(x) > 10**12 or -x.as_tuple().exponent > 8:
            return exp
        p2 = Amt(x, p.amount.sym)
        out.append(replace(e, posts=[replace(q, assertion=p2) if q is p else q for q in e.posts]))
        cells.append((rules.fmt_num(x, dec, rng) + (" " + p.amount.sym if p.amount.sym else "")))
    for r, c in zip(su.records[st["skip"]:], cells):
        r.append(c)
    for r in su.records[:st["skip"]]:
        r.append("balance")
    n = su.stmts[am[0]]
    what, op, price = n[2].partition(" @ ") if " @ " in n[2] else n[2].partition(" = ")
    # (a price can come before or after it)
    su.stmts[am[0]] = ("set", n[1], what + " ! %balance%" + op + price if rng.random() < 0.5 else n[2] + " ! %balance%")
    for i, s in enumerate(su.stmts):
        if s[0] == "set" and s[1] == "fields":
            su.stmts[i] = ("set", "fields", s[2] + ", balance")
            su.assertion = True
            return out
    return fields_in_include(su.stmts, out, su)


def fields_in_include(stmts, out, su):
    for s in stmts:
        if s[0] == "include":
            for i, x in enumerate(s[2]):
                if x[0] == "set" and x[1] == "fields":
                    s[2][i] = ("set", "fields", x[2] + ", balance")
                    su.assertion = True
                    return out
            fields_in_include(s[2], out, su)
    return out


# ---------------------------------------------------------------- C07
BADVALUE = {"date": ["2020/13/45", "", "yesterday", "31.31.3131"], "amount": ["abc", "1.2.3,4,5", "--", "1 2 3", "5-5"], "status": ["!", "", "cleared", "**"],
            "acct": ["assets:nowhere", "Assets:Checking", "assets:checkin"]}


def spoil(rng, su, st, w, j, exp):
    """one mistake somewhere in the records or in the rules; returns what it is, or None"""
    data = list(range(st["skip"], len(su.records)))
    used = {"date", "amount"} & set(su.cols)
    _, blocks = rules.evaluate(su.stmts)
    kind = rng.choice(["value", "value", "value", "value", "length", "bracket", "rule", "rule", "undeclared", "missing", "utf8", "assertion", "unbalanced"])
    if kind == "value":
        if not data:
            return None
        i = rng.choice(data)
        c = rng.choice([c for c in su.cols if c in BADVALUE])
        su.records[i] = list(su.records[i])
        su.records[i][su.cols.index(c)] = rng.choice(BADVALUE[c])
        if rng.random() < 0.15:
            # (almost) nothing in it
            keep = rng.choice([None, "date", "description", "amount"])
            su.records[i] = [v if c == keep else rng.choice(["", "", " "]) for c, v in zip(su.cols, su.records[i])] + su.records[i][len(su.cols):]
        try:
            rules.expected(su.records, su.stmts, set(w.accounts))
        except rules.RecordError as e:
            return f"record {i}: {e}"
        except Exception:
            return None
        return None
    if kind == "length":
        if len(data) < 1 or (st["skip"] == 0 and len(data) < 2):
            return None
        i = rng.choice(data[1:] if st["skip"] == 0 else data)
        su.records[i] = rng.choice([su.records[i] + ["more"], su.records[i][:-1]]) if len(su.records[i]) > 1 else su.records[i] + ["more"]
        return f"record {i} has another number of fields"
    if kind == "bracket":
        if not data or st["payee"]:
            return None
        i = rng.choice(data)
        c = su.cols.index("description")
        rec = list(su.records[i])
        rec[c] = rng.choice(["unclosed [ bracket", "[", "x] then [y"])
        if rules.unclear(rec, blocks):
            return None
        b = rules.block_for(rec, blocks) or st
        if "%" + su.raw["names"]["description"] + "%" not in b["description"] or b["payee"]:
            return None
        try:
            d = rules.entry_of(rec, b, set(w.accounts)).desc
        except rules.RecordError:
            return None
        if d.rfind("]") > d.find("["):
            return None
        su.records[i] = rec
        return f"record {i} would be unreadable"
    if kind == "rule":
        bad = rng.choice(["nosuchrule value", "comment", "decimal_symbol ..", "skip one", "skip 99999999999", "include nosuchfile.rules", "fields -", "use /nonexistent/x", "fieldss a,b",
                          "skip 1.5", "nosuchrule -", "if zzz\n    status *\n    if yyy\n        status ?", "if zzz\n    nosuchrule 5", "if zzz\n    decimal ..", "if zzz\n    include nosuchfile", "fields x,x"])
        at = rng.randint(0, len(su.stmts))
        if bad == "fields x,x":
            f = [k for k, t in enumerate(su.stmts) if t[0] == "set" and t[1] == "fields"]
            if not f or not data:
                return None
            names = su.stmts[f[0]][2].split(",")
            if len(names) < 2 or len(names) > min(len(su.records[i]) for i in data):
                return None
            i, k = rng.sample(range(len(names)), 2)
            names[i] = names[k]
            su.stmts[f[0]] = ("set", "fields", ",".join(names))
            return "two fields of the same name"
        su.stmts.insert(at, ("raw", bad))
        return "rule " + bad
    if kind == "undeclared":
        # the counterpart's account is not in the journal
        need = {p.account for e in exp for p in e.posts} & set(UNKNOWN)
        if not need or any(p.account in UNKNOWN for e in w.entries for p in e.posts) or any(set(UNKNOWN) & set(e.fors) for _, e in w.envs()):
            return None
        n = rng.choice(sorted(need))
        if w.accounts[n].envelopes:
            return None
        items = [i for i in j.items if not (isinstance(i, Account) and i.name == n)]
        text, fmt = render(items, Style.pick(rng))
        j.__init__(j.box, j.rel, items, text, fmt)
        return "undeclared counterpart " + n
    if kind == "missing":
        return rng.choice(["MISSING csv", "MISSING rules"])
    if kind == "utf8":
        return rng.choice(["UTF8 csv", "UTF8 rules"])
    if kind == "assertion":
        if not su.assertion or not data:
            return None
        i = rng.choice(data)
        su.records[i] = list(su.records[i])
        v = su.records[i][-1]
        d = next((k for k, ch in enumerate(v) if ch.isdigit()), None)
        su.records[i][-1] = v[:d] + ("1" if v[d] != "1" else "2") + v[d + 1:]
        return f"record {i} asserts a balance that is not true"
    if kind == "unbalanced":
        if su.raw["shape"] != "twofull" or not data or blocks:
            return None
        e = rng.choice(exp)
        am = [(k, s) for k, s in enumerate(su.stmts) if s[0] == "set" and s[1].startswith("amount")]
        if len(am) != 2 or all(p.amount.mag == 0 for x in exp for p in x.posts):
            return None
        k, s = am[1]
        su.stmts[k] = ("set", s[1], am[0][1][2])
        try:
            es = rules.expected(su.records, su.stmts, set(w.accounts))
        except rules.RecordError:
            return None
        for e in es:
            if all(p.amount is not None and p.cost is None for p in e.posts) and len({p.amount.sym for p in e.posts}) == 1 and sum(p.amount.mag for p in e.posts) != 0:
                return "transactions that do not balance"
        return None
    return None


def text_with_raw(stmts, files, rng):
    parts, cur = [], []
    for s in stmts:
        if s[0] == "raw":
            parts.append(rules.text_of(cur, files, rng))
            parts.append(s[1] + "\n")
            cur = []
        else:
            cur.append(s)
    parts.append(rules.text_of(cur, files, rng))
    return "".join(parts)


def bulk(rng, su, w, exp):
    """many more records, before, between and after the others"""
    st, _ = rules.evaluate(su.stmts)
    good = su.records[st["skip"]:]
    if su.assertion or not good:
        return exp
    for _ in range(rng.choice([5, 30, 70, 70, 130, 130, 270, 270, 600, 1100])):
        su.records.insert(rng.randint(st["skip"], len(su.records)) if rng.random() < 0.5 else st["skip"], list(rng.choice(good)))
    return rules.expected(su.records, su.stmts, set(w.accounts))


@check("C07", (30000, 360000), "one case = an import of generated CSV records under generated rules; the appended text is read independently and compared, record by record, with a "
       "model of the rules; or an import with one mistake planted in a record or rule, where nothing may be added; distinct = distinct CSV, rules and journal")
def c07(ctx, rng, box):
    w, j, today, su, exp = good_import(ctx, rng, box, False)
    exp = with_assertions(rng, w, j, su, exp)
    st, blocks = rules.evaluate(su.stmts)
    moving = rng.random() < 0.4
    many = rng.random() < 0.01
    if many:
        exp = bulk(rng, su, w, exp)
        ctx.n["long_imports"] += 1
    if rng.random() < 0.55:
        rt, _ = write_setup(box, su, rng)
        ctx.sig(rt, box.text("bank.csv"))
        ctx.sample(dict(csv=box.text("bank.csv")[:500], rules=rt[:800]))
        args = args_for(rng, box, j, [] if moving else ["-n"])
        ctx.n["imports"] += 1
        ctx.n["records"] += len(exp)
        snap = box.snapshot()
        check_import(ctx, box, j, su, exp, args, today, moving, list(j.items))
        after = box.snapshot()
        for f in snap:
            if f != j.rel and after.get(f) != snap[f]:
                raise Violation("an import changed another file", file=f)
        cmp_balance(ctx, box.ok(["b", "-n", "-f", j.rel], today=today).out, j.items, "balance report after an import")
        cmp_register(ctx, box.ok(["r", "-n", "-f", j.rel], today=today).out, j.items, j.fmt)
        if not su.assertion and rng.random() < 0.4 and exp:
            ctx.n["second_imports"] += 1
            if any(e.date == today for e in exp):
                moving = False
                args = [a for a in args if a != "-n"] + ["-n"]
            check_import(ctx, box, j, su, exp, args, today, moving, list(j.items))
        return
    what = None
    for _ in range(6):
        what = spoil(rng, su, st, w, j, exp)
        if what:
            break
        # records may have been changed without effect: start over with the good ones
        w, j, today, su, exp = good_import(ctx, rng, box, False)
        exp = with_assertions(rng, w, j, su, exp)
        if many:
            exp = bulk(rng, su, w, exp)
        st, blocks = rules.evaluate(su.stmts)
    if not what:
        return
    box.write("bank.csv", rules.csv_text(su.records, rng))
    files = {}
    rt = text_with_raw(su.stmts, files, rng)
    for p, t in files.items():
        box.write(p, t)
    box.write("bank.csv.rules", rt)
    ctx.sig(rt, box.text("bank.csv"), what)
    if what == "MISSING csv":
        os.unlink(box.path("bank.csv"))
    elif what == "MISSING rules":
        os.unlink(box.path("bank.csv.rules"))
    elif what == "UTF8 csv":
        box.write("bank.csv", box.read("bank.csv") + b"\xff\xfe,\xff\n")
    elif what == "UTF8 rules":
        box.write("bank.csv.rules", box.read("bank.csv.rules") + b"\ncomment \xff\n")
    args = ["i", "-f", j.rel, "--csv", "bank.csv"] + ([] if moving else ["-n"])
    ctx.n["failing_imports"] += 1
    snap = box.snapshot()
    pre = list(j.items)
    r = box.run(args, today=today)
    if r.panicked:
        raise Violation("an import with a mistake crashed instead of reporting an error", mistake=what, run=r.brief())
    if not r.err:
        raise Violation("an import with a mistake was not answered with an error", mistake=what, run=r.brief())
    after = box.snapshot()
    if set(after) != set(snap):
        raise Violation("a failing import created or removed files", mistake=what)
    for f in snap:
        if f == j.rel and moving:
            es = j.tail()
            if len(es) > 1 or (es and not is_auto(es[0])):
                raise Violation("a failing import left transactions in the journal", mistake=what, added=[str(e) for e in es])
            take_auto(ctx, es, pre, today, True)
        elif after[f] != snap[f]:
            raise Violation("a failing import left changes behind", mistake=what, file=f, after=after[f][-600:].decode("utf-8", "replace"))


# ---------------------------------------------------------------- C08
@check("C08", (30000, 360000), "one case = an import under rules with conditional blocks, defaults, resets and includes, compared with a model of the rules; and the same rules written "
       "in another way (in place of includes, with defaults spelled out, general rules repeated in blocks), which has to add the same; distinct = distinct rules and CSV")
def c08(ctx, rng, box):
    w, j, today, su, exp = good_import(ctx, rng, box, True)
    rt, files = write_setup(box, su, rng)
    ctx.sig(rt, box.text("bank.csv"))
    ctx.sample(dict(csv=box.text("bank.csv")[:500], rules=rt[:800]))
    st, blocks = rules.evaluate(su.stmts)
    ctx.n["blocks"] += len(blocks)
    ctx.n["records"] += len(exp)
    ctx.n["records_in_blocks"] += sum(1 for r in su.records[st["skip"]:] if rules.block_for(r, blocks))
    ctx.n["included_rules_files"] += len(files)
    before = j.data
    base_items = list(j.items)
    check_import(ctx, box, j, su, exp, ["i", "-n", "-f", j.rel, "--csv", "bank.csv"], today, False, base_items)
    # written in another way
    alt = flatten(su.stmts)
    how = rng.choice(["flat", "spelled", "reset"])
    if how == "spelled":
        alt = [("set", n, rules.DEFAULTS[n]) for n in ("date_format", "date", "decimal", "description", "status")] + [("set", "skip", "1")] + alt
    elif how == "reset":
        alt = [("set", n, "-") for n in ("comment", "date_format", "date", "decimal", "decimal_symbol", "description", "status", "payee", "skip", "account5", "amount5", "note")] + alt
    box.write(j.rel, before)
    j2 = Journal(box, j.rel, base_items, before, j.fmt)
    box.write("bank.csv.rules", rules.text_of(alt, {}, rng))
    ctx.n["rewritten_rules"] += 1
    check_import(ctx, box, j2, su, exp, ["i", "-n", "-f", j.rel, "--csv", "bank.csv"], today, False, base_items)


def flatten(stmts):
    out = []
    for s in stmts:
        if s[0] == "include":
            out += flatten(s[2])
        elif s[0] == "if":
            out.append(("if", s[1], flatten(s[2])))
        else:
            out.append(s)
    return out


# ---------------------------------------------------------------- C28
NAMES = ["bank.csv", "bank", "bank.CSV", "bank.txt", "my bank.csv", "2024.01.csv", ".csv", "bank.csv.csv", "bänk.csv", "b\udcffnk.csv", "\udce9t\udce9", "bank.rules", "j.sfox.csv", "a=b.csv",
         "bank..csv", "bank.csv~", "%date%.csv"]
RNAMES = ["other.rules", "rules", "x.txt", "my rules", "r\udcff.rules", "bank.csv", "règles.rules", "bank.rules", "other.csv.rules"]
DIRS = ["", "", "in", "in/deep", "my data", "d\udcfer", "journals"]


@check("C28", (16000, 190000), "one case = an import whose CSV, rules and journal lie in different directories under unusual names, called from another directory, with wrong files of "
       "similar names around; what was added is compared with the model of the right files; or an import with one of them missing; distinct = distinct layout, command line and files")
def c28(ctx, rng, box):
    w, j, today, su, exp = good_import(ctx, rng, box, False)
    su.stmts = flatten(su.stmts)
    jd, cd, rd, wd = (rng.choice(DIRS) for _ in range(4))
    os.unlink(box.path(j.rel))
    jrel = os.path.join(jd, rng.choice(["j.sfox", "main", "j\udcff.sfox", "my journal.sfox"]))
    csv = os.path.join(cd, rng.choice(NAMES))
    explicit = rng.random() < 0.45
    rul = os.path.join(rd, rng.choice(RNAMES)) if explicit else csv + ".rules"
    if len({jrel, csv, rul}) < 3:
        return
    j = Journal(box, jrel, j.items, j.data, j.fmt)
    box.write(csv, rules.csv_text(su.records, rng))
    box.write(rul, rules.text_of(su.stmts, {}, rng))
    os.makedirs(box.path(wd), exist_ok=True)
    # wrong ones around them
    good_r = box.read(rul)
    wrong_c = lambda: rng.choice([rules.csv_text(su.records + su.records[-1:], rng), rules.csv_text(su.records[:-1], rng), "", "x,y\n1,2\n", "\n" * 3])
    wrong_r = lambda: rng.choice([good_r + b"\nstatus *\ncomment wrong\n", b"skip 0\n", b"", b"nonsense\n", good_r.replace(b"fields", b"comment")])
    b = os.path.basename(csv)
    stem = os.path.splitext(b)[0]
    spots = {os.path.join(d, n): wrong_c for d in {jd, cd, rd, wd, ""} for n in (b, "bank.csv", stem)}
    spots.update({os.path.join(d, n): wrong_r for d in {jd, cd, rd, wd, ""} for n in
                  (b + ".rules", stem + ".rules", "bank.csv.rules", "rules", ".rules", b + ".csv.rules", b.lower() + ".rules", os.path.basename(rul), "\ufffd".join(b.split("\udcff")) + ".rules")})
    for f, make in spots.items():
        if f and f not in (jrel, csv, rul) and rng.random() < 0.4 and not os.path.isdir(box.path(f)):
            box.write(f, make())
            ctx.n["wrong_files_around"] += 1
    # some of them are links to files elsewhere, beside which there are wrong ones, too
    for k, f in enumerate((csv, rul)):
        if rng.random() < 0.15:
            real = os.path.join("store", rng.choice([f"data{k}", f"x{k}.csv", f"{k}.txt"]))
            os.makedirs(box.path("store"), exist_ok=True)
            os.rename(box.path(f), box.path(real))
            os.symlink(box.path(real) if rng.random() < 0.5 else os.path.relpath(box.path(real), os.path.dirname(box.path(f))), box.path(f))
            if f == csv and rng.random() < 0.6:
                box.write(real + ".rules", wrong_r())
            ctx.n["linked_files"] += 1
    cwd = os.path.normpath(box.path(wd))
    def spell(rel):
        k = rng.random()
        a = box.path(rel)
        s = a if k < 0.25 else os.path.relpath(a, cwd)
        if k > 0.6:
            s = os.path.join(os.path.dirname(s) or ".", ".", os.path.basename(s))
        elif k > 0.5:
            s = os.path.join("..", os.path.basename(cwd), s) if not s.startswith("/") else s
        return s
    moving = rng.random() < 0.3
    parts = [[rng.choice(["--csv", "--csv-file"]), spell(csv)]]
    env = {}
    if rng.random() < 0.7:
        parts.append([rng.choice(["-f", "--file"]), spell(jrel)])
    else:
        env[rng.choice(["SILVERFOX_FILE", "LEDGER_FILE"])] = spell(jrel)
    if explicit:
        parts.append([rng.choice(["--rules", "--rules-file"]), spell(rul)])
    if not moving:
        parts.append([rng.choice(["-n", "--no-move"])])
    rng.shuffle(parts)
    cmd = rng.choice(["i", "import", "imp"])
    args = [cmd] + [x for y in parts for x in y]
    ctx.sig(repr((args, wd, jrel, csv, rul)), j.data)
    ctx.sample(dict(args=[repr(a) for a in args], cwd=repr(wd), journal=repr(jrel), csv=repr(csv), rules=repr(rul)))
    broken = None
    if rng.random() < 0.3:
        broken = rng.choice(["csv", "rules", "nocsv", "novalue", "csvdir", "rulesdir"])
        if broken in ("csv", "csvdir"):
            os.unlink(box.path(csv))
        elif broken in ("rules", "rulesdir"):
            os.unlink(box.path(rul))
        if broken.endswith("dir"):
            os.mkdir(box.path(csv if broken == "csvdir" else rul))
        if broken == "nocsv":
            args = [cmd] + [x for y in parts if not y[0].startswith("--csv") for x in y]
        elif broken == "novalue":
            args = [cmd] + [x for y in parts if not y[0].startswith("--csv") for x in y] + ["--csv"]
    snap = box.snapshot()
    pre = list(j.items)
    if broken is None:
        ctx.n["imports"] += 1
        check_import(ctx, box, j, su, exp, args, today, moving, pre, judge=False, cwd=cwd, env=env)
    else:
        ctx.n["failing_imports"] += 1
        r = box.run(args, today=today, cwd=cwd, env=env)
        if r.panicked:
            raise Violation("an import without one of its files crashed", missing=broken, run=r.brief())
        if not r.err:
            raise Violation("an import without one of its files was not answered with an error", missing=broken, run=r.brief())
        es = j.tail()
        if len(es) > (1 if moving else 0) or (es and not is_auto(es[0])):
            raise Violation("an import without one of its files added something", missing=broken, added=[str(e) for e in es])
    after = box.snapshot()
    if set(after) != set(snap):
        raise Violation("an import created or removed files", files=repr(set(after) ^ set(snap)))
    for f in snap:
        if f != jrel and after[f] != snap[f]:
            raise Violation("an import changed another file than the journal", file=repr(f))


# ---------------------------------------------------------------- C17, the rules' part
def layout_case(ctx, rng, box):
    w, j, today, su, exp = good_import(ctx, rng, box, rng.random() < 0.7)
    su.stmts = flatten(su.stmts)
    write_setup(box, su, rng)
    plain = rules.text_of(su.stmts, {}, None)
    before, items = j.data, list(j.items)
    for i in range(3):
        out = []
        for line in plain.split("\n"):
            while rng.random() < 0.3:
                out.append(rng.choice(["", "  ", "\t", *(x + c for x in ("", "    ", "\t") for c in gen.COMMENTS)]))
            if line.strip() and rng.random() < 0.4:
                line += rng.choice([" ", "" if not line.endswith("/") else " ", "\t", "   "]) + rng.choice(gen.COMMENTS)
            out.append(line)
        text = plain if i == 0 else "\n".join(out)
        ctx.sig(text)
        ctx.n["decorated_rules"] += 1
        box.write("bank.csv.rules", text)
        j2 = Journal(box, j.rel, items, before, j.fmt)
        check_import(ctx, box, j2, su, exp, ["i", "-n", "-f", j.rel, "--csv", "bank.csv"], today, False, items)
    ctx.sample(text[:800])
