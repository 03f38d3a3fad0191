"""The envelopes report as a whole, date formats, runs at the same time, surroundings."""
from __future__ import annotations
import datetime as dt
import errno
import os
import random
import re
from copy import deepcopy
from dataclasses import replace
from decimal import Decimal as D
from fractions import Fraction
from math import floor

from . import gen, model, outp, rules
from .checks_envelopes import FUND, fund_world, income, local_day, user_edit, zones
from .checks_files import pending, pending_world
from .checks_import import UNKNOWN, flatten, good_import, import_world, is_auto, same_entry, write_setup
from .checks_reports import add_true_assertions, approx_pools, compare_obs, journal_scale, moves_map, near, observe, start
from .common import Journal, auto_entries, check_moves, cmp_balance, cmp_envelopes, cmp_register
from .core import Violation, epoch
from .gen import Opt, Style, World, render, today_pool
from .model import Account, Amt, DateFmt, Entry, Envelope, Post, split
from .props import check

DAY = dt.timedelta(days=1)

# ---------------------------------------------------------------- C23
BAR = re.compile(r"\|([^|]*)\|\s*$")


def bars(out):
    """{(account, envelope): (now bar, next bar)} in the order shown, and the order of everything"""
    res, acct, env, sect = {}, None, None, None
    for line in out.split("\n"):
        if not line.strip():
            continue
        if not line[0].isspace():
            acct = line.strip()
        elif line.startswith("      ") and env is not None and (line.split()[0] in ("now", "next")):
            m = BAR.search(line)
            if not m:
                raise Violation("envelopes report: no progress bar", line=line)
            res.setdefault((acct, env), []).append(m[1])
        elif line.startswith("    ") and line[4] != " ":
            env = line.strip()
        else:
            env = None
    return res


@check("C23", (9000, 108000), "one case = a journal with envelopes in many states (empty, partly saved, exactly full, above target, overspent), reported on several days; accounts, "
       "order, sections, targets and the length of every bar compared with the model; distinct = distinct journal and day")
def c23(ctx, rng, box):
    opt = Opt(envelopes=rng.choice([(1, 4), (3, 10)]), entries=(0, 14), accounts=(2, 9), funded=rng.choice([0.3, 0.9]), redefine=0.15, syms=rng.choice([(0, 1), (1, 3)]),
              kinds=(("pureenv", 6), ("manual", 2), ("linked", 4), ("simple", 1), ("blank", 1)), large=0.08, span=rng.choice([(-60, 10), (-400, 40)]))

    def tweak(w):
        for _ in range(rng.randint(0, 4)):
            e = income(w, rng)
            if e:
                w.entries.append(e)
        # exactly at, just below and just above a fraction of the target
        for a, env in w.envs():
            if rng.random() < 0.5:
                k = rng.choice([0, 1, 2, 10, 13, 20, 39, 40, 40, 40, 41, 80])
                x = (env.amount.mag * k / 40).quantize(D(1).scaleb(-8))
                x += rng.choice([0, 0, D(1).scaleb(-6), -D(1).scaleb(-6), D("0.01"), D("-0.01")])
                if x and abs(x) < 10**12:
                    w.entries.append(Entry(w.date(), "*", "put", None, [Post(a, Amt(x, env.amount.sym), envelope=env.name)]))
        # accounts with the same envelope names
        ev = w.envs()
        if ev and len(w.names) > 1 and rng.random() < 0.5:
            a, env = rng.choice(ev)
            b = rng.choice([n for n in w.names if n != a])
            if env.name not in {e.name for e in w.accounts[b].envelopes}:
                e2 = w.add_envelope(b)
                if e2 and rng.random() < 0.8 and env.name not in {e.name for e in w.accounts[b].envelopes}:
                    e2.name = env.name
                    if any(not w.acceptable(e) for e in w.entries):
                        w.accounts[b].envelopes.remove(e2)
                elif e2 and any(not w.acceptable(e) for e in w.entries):
                    w.accounts[b].envelopes.remove(e2)
    w, j, today = start(ctx, rng, box, opt, tweak=tweak)
    day = today
    for i in range(rng.randint(1, 3)):
        flag = rng.choice([["-n"], ["-n"], []])
        out = box.ok([rng.choice(["e", "envelopes", "env"])] + flag + ["-f", j.rel], today=day, cols=rng.choice([0, 40, 120])).out
        j.tail()
        shown, st = cmp_envelopes(ctx, out, j.items, day)
        ctx.sig(j.data, str(day))
        if list(shown) != sorted(shown):
            raise Violation("envelopes report: the accounts are not in alphabetical order", shown=list(shown))
        bal = list(outp.parse_balance(box.ok(["b", "-n", "-f", j.rel], today=day).out))
        if bal != sorted(bal):
            raise Violation("balance report: the accounts are not in alphabetical order", shown=bal)
        bb = bars(out)
        widths = {len(x) for v in bb.values() for x in v}
        if len(widths) > 1:
            raise Violation("envelopes report: bars of different width", widths=sorted(widths), stdout=out[-2500:])
        for k, s in st.envs.items():
            v = bb.get(k, [])
            who = dict(account=k[0], envelope=k[1], today=str(day), target=float(s.env.amount.f), bars=v)
            if len(v) != 2:
                raise Violation("envelopes report: an envelope does not have two bars", **who)
            for name, bar, amt in (("now", v[0], s.shown_now), ("next", v[1], s.shown_next)):
                fill = bar.rstrip(" ")
                n, width = len(fill), len(bar)
                if " " in fill or len(set(fill)) > 1:
                    raise Violation("envelopes report: a bar is not one filled part followed by one empty part", **who)
                if s.env.amount.f <= 0:
                    continue
                x = Fraction(width) * amt / s.env.amount.f
                eps = (outp.tol(s.scale) * width) / s.env.amount.f + Fraction(width, 10**12)
                cut = lambda y: max(0, min(width, floor(y)))
                ctx.n["bars_compared"] += 1
                ctx.n["bars_full" if n == width else "bars_empty" if n == 0 else "bars_partial"] += 1
                if not cut(x - eps) <= n <= cut(x + eps):
                    raise Violation(f"envelopes report: the bar of `{name}` does not show the part of the target that is saved", saved=float(amt), filled=n, width=width,
                                    expected=[cut(x - eps), cut(x + eps)], **who)
        day += DAY * rng.choice([1, 1, 5, 31])


# ---------------------------------------------------------------- C24
MORE = gen.FMTS + ["%B-%d-%Y", "%Y年%m月%d日", "%G-W%V-%u", "%y%m%d", "%d.%m.%y", "%A,%d-%B-%Y", "%a_%Y_%m_%d", "%Y'%m'%d", "%e.%m.%Y", "(%Y/%m/%d)", "%-d.%-m.%Y", "%j/%Y", "%Y/%b/%d",
                   "%F", "%D", "%Y:%m:%d", "%b.%d,%Y", "%d%%%m%%%Y"]


def text_date(d, fmt):
    return d.strftime(fmt)


def usable_fmt(fmt, dates):
    if ("%y" in fmt or "%D" in fmt) and any(not 1970 <= d.year <= 2068 for d in dates):
        return False
    if any(not 1000 <= d.year <= 9999 for d in dates):
        return False
    return "%e" not in fmt or all(d.day > 9 for d in dates)


def dates_in(items):
    res = []
    for it in items:
        if isinstance(it, Entry):
            res.append(it.date)
        if isinstance(it, Account):
            for e in it.envelopes:
                res += [x for x in (e.starting, e.sched.arg) if isinstance(x, dt.date)]
    return res


def without_fmt(items):
    return [x for x in items if not isinstance(x, DateFmt)]


def declare(rng, items, pool, how):
    """the same items with other declarations; several formats, each from its declaration on"""
    items = without_fmt(items)
    if how == "default":
        return items
    res = [DateFmt(rng.choice(pool))] + items
    if how == "mixed":
        for _ in range(rng.randint(1, 5)):
            res.insert(rng.randint(0, len(res)), DateFmt(rng.choice(pool)))
    return res


def observe_fmt(ctx, box, items, fmt, text, today, cmds=("b", "e", "r")):
    res = {}
    for cmd in cmds:
        box.write("o.sfox", text)
        r = box.run([cmd, "-n", "-f", "o.sfox"], today=today)
        if r.panicked or r.err:
            raise Violation("a journal was not accepted in another date format", run=r.brief(), journal=text[:3000], last_format=fmt)
        res[cmd] = r.out
    r = box.run(["e", "-f", "o.sfox"], today=today)
    if r.panicked or r.err:
        raise Violation("a journal was not accepted in another date format", run=r.brief(), journal=text[:3000], last_format=fmt)
    data = box.read("o.sfox")
    if not data.startswith(text.encode()):
        raise Violation("the journal's previous content was changed", run=r.brief())
    tail = data[len(text.encode()):].decode()
    # the date as text: read what was written with any format
    shown = text_date(today, fmt)
    std = []
    for line in tail.split("\n"):
        if line and not line[0].isspace():
            if not line.startswith(shown + " "):
                raise Violation("a recorded movement is not dated today in the declared format", line=line, expected=shown, last_format=fmt)
            line = today.strftime("%Y/%m/%d") + line[len(shown):]
        std.append(line)
    es = outp.parse_written("\n".join(std), "%Y/%m/%d")
    res["moves"] = sorted((e.date, e.status, e.desc, sorted(map(repr, e.posts))) for e in es)
    res["e after moves"] = r.out
    # and what was written is read back
    r2 = box.run(["e", "-n", "-f", "o.sfox"], today=today)
    if r2.panicked or r2.err or r2.out != r.out:
        raise Violation("a movement recorded in the declared date format is not read back with the same meaning", run=r2.brief(), first=r.out[-1500:], tail=tail, last_format=fmt)
    return res


@check("C24", (7000, 84000), "one case = one journal rendered in the default date format and again in others (one of 26 formats throughout, or several, each from its declaration "
       "on), with all reports, due dates and movements compared; or a date that the declared format does not allow, which has to be rejected; distinct = distinct text and date")
def c24(ctx, rng, box):
    today = today_pool(rng, 1975, 2060)
    w = World(rng, today, Opt(envelopes=(0, 6), entries=(1, 14), funded=0.8, refmt=0, fmts=0, span=rng.choice([(-500, 40), (-60, 60), (-3000, 300)])))
    for _ in range(2):
        e = income(w, rng)
        if e:
            w.entries.append(e)
    items = without_fmt(w.items())
    scale = journal_scale(items)
    dates = dates_in(items) + [today]
    pool = [f for f in MORE if usable_fmt(f, dates)]
    style = lambda: Style(random.Random(1))
    text, fmt = render(items, style())
    ctx.sample(text[:1200])
    base = observe_fmt(ctx, box, items, fmt, text, today)
    rows = outp.parse_register(base["r"])
    for how in ["one", rng.choice(["one", "mixed"]), "mixed"]:
        it2 = declare(rng, items, pool, how)
        t2, f2 = render(it2, style())
        ctx.sig(t2, str(today))
        got = observe_fmt(ctx, box, it2, f2, t2, today)
        ctx.n["format_variants"] += 1
        for it in it2:
            if isinstance(it, DateFmt):
                ctx.n["formats_declared"] += 1
        for k, what in (("b", "the balance report"), ("e", "the envelopes report"), ("e after moves", "the envelopes report"), ("moves", "the automatic movements")):
            if not compare_obs(k, base[k], got[k], scale):
                raise Violation(f"another date format changed {what}", first=str(base[k])[-2000:], second=str(got[k])[-2000:], journal=text[:2500], rewritten=t2[:2500])
        r2 = outp.parse_register(got["r"])
        exp = model.register(split(items)[1])
        if not len(exp) == len(rows) == len(r2):
            raise Violation("another date format changed the number of transactions in the register", first=len(rows), second=len(r2), rewritten=t2[:2500])
        for (e, *_), a, b in zip(exp, rows, r2):
            want = text_date(e.date, f2).split() + a[0].split()[1:]
            if b[0].split() != want or a[1] != b[1]:
                raise Violation("register: a transaction is not shown with its date in the declared format", shown=b[0], expected=" ".join(want), last_format=f2)
            va, vb = {s: (c, r) for c, r, s in a[2]}, {s: (c, r) for c, r, s in b[2]}
            if set(va) != set(vb) or any(not near(va[s][i], vb[s][i], scale) for s in va for i in (0, 1)):
                raise Violation("another date format changed an amount in the register", shown=b[0], first=str(a[2]), second=str(b[2]))
    # a date that is none in the declared format
    es = [x for x in items if isinstance(x, Entry)]
    if not es:
        return
    e = rng.choice(es)
    f = rng.choice([x for x in pool])
    bad = wrong_date(rng, e.date, f)
    if bad is not None:
        it2 = [DateFmt(f)] + items
        t2, f2 = render(it2, style())
        good = text_date(e.date, f)
        i = t2.find("\n" + good + " " + e.status + " " + e.desc)
        if i >= 0:
            t3 = t2[:i + 1] + bad + t2[i + 1 + len(good):]
            box.write("o.sfox", t3)
            for cmd in ("b", "r", "e"):
                r = box.run([cmd, "-f", "o.sfox"], today=today)
                ctx.n["wrong_dates_tried"] += 1
                if r.panicked or not r.err or r.out.strip() or box.read("o.sfox") != t3.encode():
                    raise Violation("a date that does not exist in the declared format was accepted", format=f, date=bad, run=r.brief())


def wrong_date(rng, d, f):
    """text that is no date in format f whatever lenience one has (month 13, day 32, another field order, nothing at all)"""
    if f in ("%Y/%m/%d", "%Y-%m-%d", "%d.%m.%Y", "%m/%d/%Y", "%d/%m/%Y", "%Y%m%d", "%Y:%m:%d", "%Y'%m'%d", "%Y年%m月%d日"):
        mk = lambda y, m, dd: f.replace("%Y", f"{y:04}").replace("%m", f"{m:02}").replace("%d", f"{dd:02}")
        y = d.year
        opts = [mk(y, 13, d.day), mk(y, 0, d.day), mk(y, d.month, 32), mk(y, d.month, 0), mk(y, 4, 31), mk(y, 2, 30), mk(y, 11, 31),
                mk(2023, 2, 29), mk(1900, 2, 29), mk(2100, 2, 29)]
        if "-" not in f:
            opts.append(d.strftime("%Y-%m-%d"))
        if "%b" not in f:
            opts.append(d.strftime("%d-%b-%Y"))
        return rng.choice(opts)
    if f in ("%d-%b-%Y", "%B-%d-%Y", "%Y/%b/%d"):
        return d.strftime(f.replace("%b", "Foo").replace("%B", "Foo"))
    if f in ("%Y.%j", "%j/%Y"):
        return f.replace("%Y", "2023").replace("%j", "366") if rng.random() < 0.5 else f.replace("%Y", "2023").replace("%j", "000")
    if f in ("%a_%Y_%m_%d", "%A,%d-%B-%Y"):
        return (d.strftime("%a") if "%a" in f else d.strftime("%A")) + (d + DAY).strftime(f.replace("%a", "").replace("%A", ""))
    return None


# ---------------------------------------------------------------- C25
def writer_kinds(rng):
    return rng.choice(["fill", "fill", "import", "import", "importfill"])


def post_list(e):
    return sorted(repr(p) for p in e.posts)


def second_setup(rng, w, today, box):
    """another CSV file with rules of its own"""
    for _ in range(20):
        su = rules.setup(rng, w.names, today)
        exp = rules.usable(su, set(w.names), w.acceptable)
        if exp:
            break
    files = {}
    box.write("two/bank.csv", rules.csv_text(su.records, rng))
    rt = rules.text_of(flatten(su.stmts), files, rng)   # (included rules are looked up in the working directory)
    assert not files
    box.write("two/bank.csv.rules", rt)
    return exp


def interleaving(seq, x, y):
    """is seq made of x and y, each in its order, nothing else?"""
    if len(seq) != len(x) + len(y):
        return False
    at = {0}        # how many of x are used up
    for i, g in enumerate(seq):
        nxt = set()
        for p in at:
            if p < len(x) and not same_entry(g, x[p]):
                nxt.add(p + 1)
            if i - p < len(y) and not same_entry(g, y[i - p]):
                nxt.add(p)
        at = nxt
    return len(x) in at


@check("C25", (1100, 13000), "one case = two writers (automatic movement, import), or a writer and a report, or a writer and the user's own addition, on one journal: the first is stopped "
       "before each of its file operations in turn while the other runs to its end, and some pairs of stopping points are tried; oracle on the journal's bytes, both reports and the "
       "read-back; distinct = distinct (files, commands, stopping points)",
       exhaustive="all single stopping points of the first process (every open, read and write of a user's file)")
def c25(ctx, rng, box):
    w, j, today, su, exp = good_import(ctx, rng, box, False)
    if rng.random() < 0.15:
        n = rng.choice([100, 300])
        st, _ = rules.evaluate(su.stmts)
        data = su.records[st["skip"]:]
        if data:
            k = max(1, n // len(data))
            su.records = su.records[:st["skip"]] + [r for _ in range(k) for r in data]
            exp = [e for _ in range(k) for e in exp]
    write_setup(box, su, rng)
    exp2 = second_setup(rng, w, today, box)
    more = []
    for _ in range(3):
        e = income(w, rng, rich=True)
        if e:
            more.append(e)
    if more:
        text, _ = render(more, Style(random.Random(1)), j.fmt)
        j.append("\n" + text, more)
    a = writer_kinds(rng)
    b = rng.choice([writer_kinds(rng), writer_kinds(rng), "user", "report"])
    report = rng.choice("ber")
    uitems = []
    for _ in range(rng.randint(1, 3)):
        e = w.add_entry((("simple", 2), ("blank", 1), ("multi", 1), ("pureenv", 2)))
        if e:
            uitems.append(e)
    utext = "\n" + render(uitems, Style(random.Random(2)), j.fmt)[0]

    def args(kind, csv):
        if kind == "fill":
            return [rng.choice("ber"), "-f", j.rel]
        if kind == "report":
            return [report, "-n", "-f", j.rel]
        return ["i", "-f", j.rel, "--csv", csv] + (["-n"] if kind == "import" else [])
    aa, ba = args(a, "bank.csv"), args(b, "two/bank.csv")
    ea = exp if a.startswith("import") else []
    eb = exp2 if b.startswith("import") else uitems if b == "user" else []
    snap = box.snapshot()
    old = snap[j.rel]
    ctx.sample(dict(first=aa, second=b if b == "user" else ba, journal=old.decode()[:600]))
    reports = set()

    def do_b(tag="B", fault=None):
        if b == "user":
            with open(box.path(j.rel), "ab") as f:
                f.write(utext.encode())
            return None
        return box.start(ba, today=today, tag=tag, fault=fault)

    def judge(points, ra, rb, before_b=None, after_b=None):
        det = dict(first=aa, second=b if b == "user" else ba, stopped_at=points)
        for r in (ra, rb):
            if r is None:
                continue
            if r.panicked:
                raise Violation("a run crashed while another was under way", run=r.brief(), **det)
            if r.err:
                raise Violation("a run gave an error because another was under way", run=r.brief(), **det)
        after = box.snapshot()
        for f, d in snap.items():
            if f != j.rel and after.get(f) != d:
                raise Violation("another file was changed or removed", file=f, **det)
        if set(after) - set(snap):
            raise Violation("files were left behind", files=sorted(set(after) - set(snap)), **det)
        new = after[j.rel]
        if not new.startswith(old):
            raise Violation("two runs at the same time: bytes that were in the journal before are gone or changed", before=len(old), after=len(new), **det)
        es = outp.parse_written(new[len(old):].decode("utf-8", "replace"), j.fmt)
        autos = [e for e in es if is_auto(e) and e.desc == "move to envelopes" and e.date == today]
        rest = [e for e in es if not any(e is x for x in autos)]
        ua = [e for e in (eb if b == "user" else []) if is_auto(e) and e.desc == "move to envelopes" and e.date == today]
        if not ua and not interleaving(rest, ea, eb):
            raise Violation("two runs at the same time: what was recorded is not all transactions of both, each whole and in its order", expected=[str(e) for e in (ea + eb)[:6]],
                            found=[str(e) for e in rest[:6]], counts=[len(ea), len(eb), len(rest)], tail=new[len(old):].decode("utf-8", "replace")[-1500:], **det)
        movers = (a != "import") + (b in ("fill", "importfill"))
        if len(autos) > movers and not ua:
            raise Violation("two runs at the same time: more automatic movements than runs", autos=[str(e) for e in autos], **det)
        ctx.n["transactions_found_whole"] += len(es)
        # each movement is right for a state the journal was in
        if not ua:
            for m in autos:
                why = None
                k = next(i for i, x in enumerate(es) if x is m)
                for cut in range(k, -1, -1):
                    try:
                        check_moves(ctx, j.items + es[:cut], today, m.posts)
                        break
                    except Violation as v:
                        why = why or v
                else:
                    raise Violation("two runs at the same time: a movement is right for no state the journal was in: " + why.what, **{**why.detail, **det})
        r = box.run(["b", "-n", "-f", j.rel], today=today)
        if r.panicked or r.err:
            raise Violation("two runs at the same time left a journal that cannot be read", run=r.brief(), tail=new[len(old):].decode("utf-8", "replace")[-1500:], **det)
        cmp_balance(ctx, r.out, j.items + ea + eb, "balance report after two runs at the same time")
        if b == "report":
            x = rb.out
            for state_items in ([], [e for e in es[:1]], es):
                box.write("o.sfox", old + render_back(new, old, len(state_items), es))
                y = box.run([report, "-n", "-f", "o.sfox"], today=today)
                if compare_obs(report, x, y.out, journal_scale(j.items + es)):
                    break
            else:
                raise Violation("a report made while another run was recording shows neither the state before nor after it", shown=x[-1500:], **det)
            os.unlink(box.path("o.sfox"))
            ctx.n["concurrent_reports_compared"] += 1

    n = 0
    stopped = True
    while stopped and n < 60:
        n += 1
        box.restore(snap)
        pa = box.start(aa, today=today, tag="A", fault=f"stop:{n}")
        ra = box.wait(pa)
        stopped = ra is None
        pb = do_b()
        rb = box.wait(pb) if pb else None
        if stopped:
            ra = box.cont(pa)
            ctx.n["preemptions"] += 1
        ctx.sig(old, aa, b, n)
        judge([n], ra, rb)
    if b != "user":
        for _ in range(6):
            i, k = rng.randint(1, max(1, n - 1)), rng.randint(1, max(1, n))
            box.restore(snap)
            pa = box.start(aa, today=today, tag="A", fault=f"stop:{i}")
            ra = box.wait(pa)
            pb = do_b(fault=f"stop:{k}")
            rb = box.wait(pb)
            first = rng.random() < 0.5
            if first and ra is None:
                ra = box.cont(pa)
            if rb is None:
                rb = box.cont(pb)
            if ra is None:
                ra = box.cont(pa)
            ctx.n["double_preemptions"] += 1
            ctx.sig(old, aa, b, i, k, first)
            judge([i, k, first], ra, rb)


def render_back(new, old, n, es):
    """the added text up to the n-th transaction"""
    tail = new[len(old):]
    if n >= len(es):
        return tail
    out, seen = [], 0
    for line in tail.decode().splitlines(keepends=True):
        if line.strip() and not line[0].isspace():
            seen += 1
            if seen > n:
                break
        out.append(line)
    return "".join(out).encode()


# ---------------------------------------------------------------- C26
def surroundings(rng, day):
    """(keyword arguments of a run) with the given local date"""
    while True:
        tz = rng.choice(zones())
        now = epoch(day) + rng.randint(-16 * 3600, 16 * 3600)
        if rng.random() < 0.4:
            now = epoch(day, 0) + rng.choice([-1, 0, 1, 86399, 86400]) + rng.choice([0, 0, -14 * 3600, 11 * 3600, -19800])
        if local_day(now, tz) == day:
            break
    env = {}
    if rng.random() < 0.6:
        env[rng.choice(["LANG", "LC_ALL", "LC_TIME", "LC_NUMERIC"])] = rng.choice(["C", "de_DE.UTF-8", "en_US.UTF-8", "tr_TR.UTF-8", "POSIX", "nonsense"])
    for k, v in (("TERM", ["dumb", "xterm-256color", ""]), ("NO_COLOR", ["1"]), ("COLUMNS", ["20", "400", "x"]), ("HOME", ["/nonexistent", None]), ("USER", ["root", ""]),
                 ("RUST_BACKTRACE", ["1", "full"]), ("RUST_LOG", ["debug", "trace"]), ("PATH", [None, ""]), ("LEDGER_FILE", ["/nonexistent"]), ("SILVERFOX_FILE", ["", "/nonexistent"]),
                 ("EDITOR", ["ed"]), ("PWD", ["/", "/nonexistent", None]), ("DATE_FORMAT", ["%d"]), ("CLICOLOR_FORCE", ["1"])):
        if rng.random() < 0.15:
            env[k] = rng.choice(v)
    return dict(now=now, tz=tz, cols=rng.choice([0, 1, 20, 80, 132, 1000]), env=env)


# the ones that may matter (or that belong to the runtime library and to the time zone)
ALLOWED_ENV = {"TZ", "TZDIR", "SILVERFOX_FILE", "LEDGER_FILE", "RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_MIN_STACK", "ASAN_OPTIONS", "PATH", "LD_PRELOAD"}
ENVVALUES = ["1", "0", "", "x", "true", "no", "20", "400", "-5", "%d", "2020/01/01", "/nonexistent", "C", "de_DE.UTF-8", ",", "$", "dumb", "xterm"]


def no_width(ctx, cmd, s, r):
    """the register may say that it needs a terminal (it prints nothing then)"""
    if r.panicked:
        raise Violation("the program crashed because of its surroundings", run=r.brief(), surroundings=str(s))
    if r.err:
        if cmd == "r" and s.get("cols", 1) == 0 and not r.out:
            ctx.n["register_without_terminal"] += 1
            return True
        raise Violation("a valid journal was answered with an error because of the surroundings", run=r.brief(), surroundings=str(s))
    return False


def squeeze(out):
    return [x.split() for x in out.split("\n") if x.strip()]


@check("C26", (5000, 60000), "one case = one journal reported under different clocks, time zones, locales, terminals, environment variables and standard inputs: balance and register on "
       "different days too, envelopes and movements on the same local day; outputs compared with each other; distinct = distinct (journal, command, surroundings)")
def c26(ctx, rng, box):
    today = today_pool(rng, 1975, 2150)
    w, j, today = fund_world(ctx, rng, box, opt=replace(FUND, entries=(1, 14), syms=(0, 3), envelopes=(0, 6)), today=today)
    snap = box.snapshot()
    scale = journal_scale(j.items)
    box.write("stdin.txt", "2020/01/01 * x\n  assets 5\n" * 3)
    box.write("sub/dir/x", "")

    def extra():
        k = {}
        if rng.random() < 0.2:
            k["stdin"] = box.path("stdin.txt")
        return k
    base = {}
    for cmd in "ber":
        base[cmd] = box.ok([cmd, "-n", "-f", j.rel], today=today).out
    cmp_balance(ctx, base["b"], j.items)
    # anything but the date
    for _ in range(4):
        cmd = rng.choice("beer")
        s = surroundings(rng, today)
        r = box.run([cmd, "-n", "-f", j.rel], **s, **extra())
        if no_width(ctx, cmd, s, r):
            continue
        ctx.n["surroundings_tried"] += 1
        ctx.sig(j.data, cmd, repr(s))
        if squeeze(r.out) != squeeze(base[cmd]) and not compare_obs(cmd, base[cmd], r.out, scale):
            raise Violation("a report on the same day depends on the time of day, time zone, locale, terminal or environment", surroundings=s, first=base[cmd][-1500:], second=r.out[-1500:])
        if cmd in "be" and r.out != base[cmd]:
            raise Violation("the same report is laid out differently on the same day", surroundings=s, first=base[cmd][-1500:], second=r.out[-1500:])
    # the date as well
    for _ in range(3):
        day = max(dt.date(1970, 1, 3), min(dt.date(2199, 12, 30), today + DAY * rng.choice([-1, 1, -400, 400, rng.randint(-9000, 9000)])))
        s = surroundings(rng, day)
        cmd = rng.choice("br")
        r = box.run([cmd, "-n", "-f", j.rel], **s, **extra())
        if no_width(ctx, cmd, s, r):
            continue
        ctx.n["other_days_tried"] += 1
        ctx.sig(j.data, cmd, repr(s))
        if squeeze(r.out) != squeeze(base[cmd]) and not compare_obs(cmd, base[cmd], r.out, scale):
            raise Violation("the balance or register depends on the day it is made", surroundings=s, first=base[cmd][-1500:], second=r.out[-1500:])
    # any variable that the program was seen to look at
    looked = {}
    for cmd in "ber":
        r = box.run([cmd, "-n", "-f", j.rel], today=today, log=True)
        for e in r.events:
            if e.startswith("getenv "):
                ctx.n["looks_at_environment_variables"] += 1
                if e[7:] not in ALLOWED_ENV:
                    looked.setdefault(e[7:], []).append(cmd)
    for name, cmds in looked.items():
        for v in ENVVALUES:
            cmd = rng.choice(cmds)
            r = box.run([cmd, "-n", "-f", j.rel], today=today, env={name: v})
            ctx.n["surroundings_tried"] += 1
            if r.panicked or r.err or r.out != base[cmd]:
                raise Violation("a report depends on an environment variable", variable=name, value=v, run=r.brief(), first=base[cmd][-1500:], second=r.out[-1500:])
    if box.read(j.rel) != j.data:
        raise Violation("a report with --no-move changed the journal")
    # movements
    moves, seen = [], set()
    for i in range(4):
        box.restore(snap)
        s = dict(today=today, log=True) if i == 0 else surroundings(rng, today)
        if i == 3:
            if not seen:
                break
            s = dict(today=today, env={n: rng.choice(ENVVALUES) for n in seen})
        cmd = rng.choice("ber")
        r = box.run([cmd, "-f", j.rel], **s)
        no_width(ctx, cmd, s, r)
        if i == 0:
            seen = {e[7:] for e in r.events if e.startswith("getenv ")} - ALLOWED_ENV
        data = box.read(j.rel)
        if not data.startswith(j.data):
            raise Violation("the journal's previous content was changed")
        es = outp.parse_written(data[len(j.data):].decode(), j.fmt)
        for e in es:
            if e.date != today:
                raise Violation("a movement is not dated with the local calendar date", date=str(e.date), today=str(today), surroundings=str(s))
        moves.append(sorted((e.date, e.status, e.desc, sorted(map(repr, e.posts))) for e in es))
        ctx.n["movements_compared"] += len(es)
        if not compare_obs("moves", moves[0], moves[-1], scale):
            raise Violation("the movements of a day depend on the time of day, time zone, locale, terminal or environment", surroundings=str(s), first=str(moves[0])[-1500:], second=str(moves[-1])[-1500:])


# ---------------------------------------------------------------- C27
def written_moves(box, j):
    data = box.read(j.rel)
    if not data.startswith(j.data):
        raise Violation("the journal's previous content was changed")
    return sorted((e.date, e.status, e.desc, sorted(map(repr, e.posts))) for e in outp.parse_written(data[len(j.data):].decode(), j.fmt))


@check("C27", (5000, 60000), "one case = one journal and a command during which the wall clock passes midnight (or is set, or the computer sleeps): the moment is put before each look at the clock in turn; "
       "report and movements have to be those of a run wholly on the first day or wholly on the second; distinct = distinct (journal, command, days, moment)")
def c27(ctx, rng, box):
    today = today_pool(rng, 1975, 2150)
    w, j, today = fund_world(ctx, rng, box, opt=replace(FUND, entries=(0, 8), syms=(0, 2), envelopes=(1, 5)), today=today)
    snap = box.snapshot()
    scale = journal_scale(j.items)
    cmd = rng.choice("beer")
    args = [cmd] + rng.choice([[], [], [], ["-n"]]) + ["-f", j.rel]
    tz = rng.choice(["UTC", "UTC", rng.choice(zones())])
    days = rng.choice([1, 1, 1, 1, 2, 7, 31, 366, -1, -30])
    day2 = today + DAY * days
    if tz == "UTC":
        a, b = (epoch(today, 0) + 86399, epoch(day2, 0) + rng.choice([0, 1, 3600])) if days > 0 else (epoch(today), epoch(day2))
    else:
        a, b = epoch(today) + rng.randint(-40000, 40000), epoch(day2) + rng.randint(-40000, 40000)
    whole = []
    for t in (a, b):
        box.restore(snap)
        r = box.run(args, now=t, tz=tz, env={"SFMON_JUMP": "0:0"}, log=True)
        if r.panicked or r.err:
            raise Violation("a valid journal was answered with an error or a crash", run=r.brief())
        whole.append((r.out, written_moves(box, j), sum(e == "clock" for e in r.events)))
    same = compare_obs(cmd, whole[0][0], whole[1][0], scale) and whole[0][1] == whole[1][1]
    ctx.n["days_that_differ"] += not same
    looks = max(whole[0][2], whole[1][2])
    ctx.n["looks_at_the_clock"] += looks
    at = list(range(2, looks + 1))
    if len(at) > 12:
        at = sorted(rng.sample(at, 12))
    for k in at:
        box.restore(snap)
        r = box.run(args, now=a, tz=tz, env={"SFMON_JUMP": f"{k}:{b - a}"})
        ctx.n["moments_tried"] += 1
        ctx.sig(j.data, cmd, str(today), days, k)
        if r.panicked or r.err:
            raise Violation("a run during which the date changed ended in an error or a crash", run=r.brief(), moment=k)
        m = written_moves(box, j)
        if not any(compare_obs(cmd, o, r.out, scale) and compare_obs("moves", mm, m, scale) for o, mm, _ in whole):
            raise Violation("a run during which the date changed is neither one of the day before nor one of the day after", moment=k, days=[str(today), str(day2)], report=r.out[-1500:],
                            before=whole[0][0][-1500:], after=whole[1][0][-1500:], moves=str(m)[-800:], moves_before=str(whole[0][1])[-800:], moves_after=str(whole[1][1])[-800:])


# ---------------------------------------------------------------- C29
# names next to which a program that looks at them instead of comparing them goes astray: words of the journal's language, one name
# inside another, names that differ in case or in one letter, long names, other scripts
TREE = ["for", "amount", "funding", "due", "by", "starting", "no", "date", "now", "next", "every", "expense", "goal", "expenses", "goals", "available", "account", "include",
        "date_format", "manual", "aggressive", "conservative", "envelopes", "envelope:x", "unknown", "expenses:unknown", "income:unknown", "none", "nan", "inf", "true", "x", "xx", "X", "x:",
        "x:y", "x:y:z", "xy", "year", "monday", "cash", "Cash", "CASH", "cash2", "cash:", "cash:2", "a.b", "a_b", "a-b", "a&b", "a+b", "a=b", "a@b", "a!b", "a*b", "(a)", "{a}", "'a'", "a%sb",
        "a\\b", "a|b", "é", "e\u0301", "É", "ß", "ss", "日本", "日", "\U0001f98a", "ﬁ", "q" * 200, "q" * 199 + "r", "total", "$", "€", "%", "1st", "2020", "15th", "0", "-", "*x", "?", "~", "=", "==", "envelope2", "enveloped"]
ACCT29 = [t for t in TREE if t not in ("-",)] + ["expenses:" + t for t in ("food", "Food", "foo", "food:", "food:out", "f")] + ["my:assets", "Assets:cash", "ASSETS", "liabilities:asset", "non-asset"]
ASSET29 = ["asset", "assets", "assets:", "assetsx", "asset:", "assets:x", "assets:X", "assets:x:y", "assets:xy", "assets:by", "assets:for", "assets:unknown", "assets:日本", "assets:" + "q" * 90, "assets:é",
           "assets:cash", "assets:cash2", "assets:cash:", "assets-2", "asset_s", "assets:expenses", "assets:goals", "assets:available", "assets:envelope"]
ENV29 = TREE + ["food", "Food", "foo", "food:", "f", "no_date", "nodate", "due_by", "everyother", "envelope", "assets:x", "asset"]
SYM29 = ["$", "€", "£", "¥", "₿", "A", "a", "AA", "Aa", "US", "USD", "U", "SD", "US$", "e", "E", "x", "X", "nan", "inf", "NaN", "円", "zł", "é", "by", "for", "o", "O", "l", "f64", "#", "%", "&", "_", "kr", "$$"]
SYM29 = [s for s in SYM29 if not any(c.isdigit() for c in s)]
WORD29 = ["by", "due", "envelope", "account", "include", "expense", "goal", "amount", "for", "no date", "transfer", "Automatic", "automatic", "2020/01/01", "*", "?", "~", "@", "!", "=", "5", "$5", "日本", "x" * 60, "é"]


def rename(names, pool, rng, keep=lambda n: True):
    """another name for each of them: different ones stay different, and `keep` keeps its value"""
    res, used = {}, set()
    for n in names:
        free = [p for p in pool if p not in used and keep(p) == keep(n)]
        res[n] = rng.choice(free)
        used.add(res[n])
    return res


def renamed(items, acc, env, sym, rng):
    items = deepcopy(items)
    A = lambda a: a and Amt(a.mag, sym[a.sym])
    k = 0
    for it in items:
        if isinstance(it, Account):
            for v in it.envelopes:
                v.name, v.amount, v.fors = env[it.name, v.name], A(v.amount), [acc[f] for f in v.fors]
            it.name = acc[it.name]
        elif isinstance(it, Entry):
            k += 1
            it.desc = f"t{k} " + " ".join(rng.choice(WORD29) for _ in range(rng.randint(0, 3)))
            it.desc = it.desc.strip()
            it.payee = rng.choice([it.payee, None, "Bob", "by", "x] y"]) if rng.random() < 0.5 else it.payee
            for p in it.posts:
                if p.is_env:
                    p.envelope = env[p.account, p.envelope]
                p.account, p.amount, p.assertion = acc[p.account], A(p.amount), A(p.assertion)
                p.cost = p.cost and (p.cost[0], A(p.cost[1]))
    return items


@check("C29", (12000, 144000), "one case = one journal and the same journal with its accounts, envelopes, currencies, descriptions and payees consistently called something else (words of the journal's own "
       "language, names inside one another, names that differ in case): every amount, date and movement has to be the same; distinct = distinct renamed journal text and date")
def c29(ctx, rng, box):
    today = today_pool(rng)
    w = World(rng, today, Opt(envelopes=rng.choice([(0, 2), (1, 6)]), entries=(1, 14), large=0.01, funded=0.7) if rng.random() < 0.4 else FUND)
    for _ in range(rng.choice([0, 1, 2, 4])):
        e = income(w, rng, rich=rng.choice([True, None]))
        if e:
            w.entries.insert(rng.randint(0, len(w.entries)), e)
    items = w.items()
    if rng.random() < 0.5 and not {"big", "huge"} & set(w.classes):
        add_true_assertions(rng, items, 0.2)
    names = list(w.names)
    asset = lambda n: n.startswith("asset")
    part = rng.random()
    same = lambda xs: {x: x for x in xs}
    if len(names) > 22:
        return
    acc = rename(names, ACCT29 + ASSET29, rng, asset) if part < 0.85 else same(names)
    env = {}
    for a in w.accounts.values():
        ns = [v.name for v in a.envelopes]
        env.update({(a.name, n): m for n, m in (rename(ns, ENV29, rng) if part < 0.5 or part > 0.7 else same(ns)).items()})
    syms = [s for s in w.syms if s is not None]
    sym = {**(rename(syms, SYM29, rng) if rng.random() < 0.7 else same(syms)), None: None}
    seed = rng.random()
    style = lambda: Style(random.Random(seed))
    text, fmt = render(items, style())
    other = renamed(items, acc, env, sym, rng)
    text2, _ = render(other, style())
    ctx.sig(text2, str(today))
    ctx.n["accounts_renamed"] += sum(k != v for k, v in acc.items())
    ctx.n["envelopes_renamed"] += sum(k[1] != v for k, v in env.items())
    ctx.n["currencies_renamed"] += sum(k != v for k, v in sym.items())
    ctx.sample(text2[:1500])
    scale = journal_scale(items)
    x, y = observe(box, text, fmt, today), observe(box, text2, fmt, today)
    P = lambda pool: {sym[s]: v for s, v in pool.items()}

    def differ(what, k):
        raise Violation(f"other names for the same things: {what}", names=str({k: v for k, v in {**acc, **env, **sym}.items() if k != v})[:1500], first=str(x[k])[-1500:], second=str(y[k])[-1500:],
                        journal=text[:2500], renamed=text2[:2500])
    a, b = outp.parse_balance(x["b"]), outp.parse_balance(y["b"])
    if {acc[n] for n in a} != set(b) or not all(approx_pools(P(a[n]), b[acc[n]], scale) for n in a):
        differ("the balance report shows other amounts", "b")
    short = False
    for k in ("e", "e after moves"):
        a, b = outp.parse_envelopes(x[k]), outp.parse_envelopes(y[k])
        if {acc[n] for n in a} != set(b):
            differ("the envelopes report lists other accounts", k)
        for n in a:
            e, f = a[n]["envs"], b[acc[n]]["envs"]
            if not approx_pools(P(a[n]["available"]), b[acc[n]]["available"], scale) and not (k != "e" and short):
                differ("the envelopes report shows other available money", k)
            if {env[n, m] for m in e} != set(f):
                differ("the envelopes report lists other envelopes", k)
            if k != "e" and any(abs(v) <= 4 * outp.tol(scale) for v in a[n]["available"].values()) or k != "e" and not a[n]["available"]:
                # all the money is given away; envelopes due on the same day may get it in the order of their names
                short = True
                continue
            for m, v in e.items():
                u = f[env[n, m]]
                if v["type"] != u["type"] or v["due"] != u["due"] or (sym[v["sym"]], sym[v["tsym"]]) != (u["sym"], u["tsym"]) \
                        or not all(near(v[q], u[q], scale) for q in ("target", "now", "next")):
                    differ("the envelopes report shows other amounts or dates", k)
                ctx.n["envelopes_compared"] += 1
    a, b = moves_map(x["moves"]), moves_map(y["moves"])
    a = {(acc[q[0]], env[q[0], q[1]] if q[1] is not None else None, sym[q[2]]): v for q, v in a.items()}
    if short:
        ctx.n["money_was_short"] += 1
        tot = lambda m: {(q[0], q[2]): sum(v for r, v in m.items() if (r[0], r[2]) == (q[0], q[2])) for q in m}
        a, b = tot(a), tot(b)
    ctx.n["movements_compared"] += len(a)
    if not all(abs(a.get(q, 0) - b.get(q, 0)) <= 40 * outp.tol(scale) for q in set(a) | set(b)):
        differ("other automatic movements", "moves")
    a, b = outp.parse_register(x["r"]), outp.parse_register(y["r"])
    rows = lambda r: ({s: c for c, _, s in r[2]}, {s: c for _, c, s in r[2]})
    if len(a) != len(b) or not all(p[0].split()[0] == q[0].split()[0] and all(set(P(c)) == set(d) and approx_pools(P(c), d, scale) for c, d in zip(rows(p), rows(q))) for p, q in zip(a, b)):
        differ("the register shows other rows", "r")
    ctx.n["register_rows_compared"] += len(a)


# ---------------------------------------------------------------- C30
BAD_OUT = [errno.EPIPE, errno.EPIPE, errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.ECONNRESET, errno.EFBIG]


@check("C30", (2500, 30000), "one case = one command on one set of files, run once undisturbed and then once for each of its writes to standard output and standard error (up to 10, first and last included) with "
       "that write failed (and all later ones), cut off, shortened, interrupted, or the process killed there; distinct = distinct (files, command, fault)")
def c30(ctx, rng, box):
    kind = rng.choice(["report", "report", "report", "report", "nomove", "import", "error"])
    opt = replace(FUND, big=0.002) if rng.random() < 0.5 else Opt(envelopes=(0, 5), entries=(1, 25), funded=0.6)
    if kind == "import":
        w, j, today, su, exp = good_import(ctx, rng, box, rng.random() < 0.3)
        write_setup(box, su, rng)
        args = ["i", "-f", j.rel, "--csv", "bank.csv"] + rng.choice([[], ["-n"]])
    else:
        for _ in range(4):
            w, j, today = fund_world(ctx, rng, box, opt=opt, rich=rng.choice([True, None]))
            if kind == "nomove" or pending(j.items, today):
                break
        args = [rng.choice("ber"), "-f", j.rel] + (["-n"] if kind == "nomove" else [])
        if kind == "error":
            j = Journal(box, j.rel, j.items, box.text(j.rel) + rng.choice(["\n2020/01/01 nonsense\n    nowhere 5\n", "\naccount\n", "\ninclude nowhere.sfox\n", "\nnonsense\n"]), j.fmt)
    scale = journal_scale(j.items)
    box.write("unrelated.txt", "keep\n")
    snap = box.snapshot()
    old = snap[j.rel]
    cols = rng.choice([120, 120, 80, 40])

    def run(fault):
        box.restore(snap)
        r = box.run(args, today=today, fault=fault, cols=cols)
        after = box.snapshot()
        if {f: d for f, d in after.items() if f != j.rel} != {f: d for f, d in snap.items() if f != j.rel}:
            raise Violation("trouble with the output: another file was changed, made or removed", fault=fault, args=args)
        if not after.get(j.rel, b"").startswith(old):
            raise Violation("trouble with the output: bytes that were in the journal before are gone or changed", fault=fault, args=args)
        new = after[j.rel][len(old):]
        try:
            es = outp.parse_written(new.decode(), j.fmt)
            r.moves = sorted((e.date, e.status, e.desc, sorted(map(repr, e.posts))) for e in es)
            r.imported = [(e.date, e.status, e.desc, sorted(map(repr, e.posts))) for e in es if not is_auto(e)]
        except (ValueError, IndexError, UnicodeDecodeError):
            raise Violation("trouble with the output: what was added to the journal is no whole transaction", fault=fault, args=args, added=new[-600:].decode("utf-8", "replace"))
        return r
    u = run("outnone:0")
    if kind != "error" and (u.panicked or u.err):
        raise Violation("a valid journal was answered with an error or a crash", run=u.brief())
    others = []

    def undisturbed():
        """what the command may show on another run (sums are rounded in whatever order the hash maps give)"""
        if not others:
            others.extend(run("outnone:0") for _ in range(6))
        return [u] + others
    wr = [e.split() for e in u.events if e.startswith("output ")]
    ctx.n["output_writes_in_undisturbed_runs"] += len(wr)
    ctx.n["kind_" + kind] += 1
    ctx.sample(dict(args=args, writes=len(wr)))
    at = list(range(1, len(wr) + 1))
    if len(at) > 10:
        at = sorted({1, 2, len(wr), len(wr) - 1} | set(rng.sample(at, 6)))
    for k in at:
        fd, size = int(wr[k - 1][1]), int(wr[k - 1][2])
        some = rng.choice([1, max(1, size // 2), max(1, size - 1)])
        fs = [f"outshort:{k}:{some}", f"outeintr:{k}", f"outkill:{k}"]
        if fd == 1:
            fs += [f"outfail:{k}:{rng.choice(BAD_OUT)}", f"outpart:{k}:{some}"]
        if len(at) > 3:
            fs = rng.sample(fs, 3)
        for f in fs:
            r = run(f)
            ctx.n["faults_injected"] += 1
            ctx.n[f.split(":")[0]] += 1
            ctx.sig(old, args, f)
            if not any(e.startswith(("KILL", "output ")) and ("errno" in e or "short" in e or "part" in e or "EINTR" in e or "KILL" in e) for e in r.events):
                # the run made fewer writes than the undisturbed one
                ctx.n["fault_not_reached"] += 1
                continue
            name = f.split(":")[0]
            if r.sig is not None and not (name == "outkill" and r.sig == 9 or name in ("outfail", "outpart") and r.sig == 13):
                raise Violation("trouble with the output: the program did not end by itself", fault=f, run=r.brief())
            # the journal: untouched, or as in the undisturbed run
            sound = not r.moves or (part_of(r.moves, u.moves) and r.imported in ([], u.imported) if kind == "import" else compare_obs("moves", u.moves, r.moves, scale))
            if not sound and not settled(lambda x: str(x.moves), r, lambda: run(f), undisturbed, lambda a, b: a == b):
                raise Violation("trouble with the output: something else was recorded than in the undisturbed run", fault=f, args=args, recorded=str(r.moves)[-1200:], undisturbed=str(u.moves)[-1200:])
            if name in ("outshort", "outeintr"):
                if r.moves == [] and u.moves:
                    raise Violation("an interrupted or partial write of the report: nothing was recorded", fault=f, args=args, undisturbed=str(u.moves)[-1200:])
                for n, what in ((1, "report"), (2, "error message")):
                    get = (lambda x: x.out) if n == 1 else (lambda x: x.err)
                    if get(r) != get(u) and not settled(get, r, lambda: run(f), undisturbed, lambda a, b: a == b):
                        raise Violation(f"after an interrupted or partial write the {what} is not complete", fault=f, args=args, shown=get(r)[-1200:], complete=get(u)[-1200:])
                if r.rc != u.rc:
                    raise Violation("after an interrupted or partial write the program ended differently", fault=f, args=args, rc=r.rc, undisturbed=u.rc, err=r.err[-500:])
                ctx.n["output_complete"] += 1
            elif name in ("outfail", "outpart"):
                if r.rc == 0 and not r.err and not any("errno" in e for e in r.events if e.startswith("output ")) and r.out == u.out:
                    # what was cut off was all there was to write
                    ctx.n["nothing_was_lost"] += 1
                    continue
                if f.endswith(f":{errno.EPIPE}"):
                    # nobody reads it any more: it may end quietly
                    ctx.n["reader_gone"] += 1
                elif r.rc == 0 and not r.err:
                    raise Violation("the report could not be written, and the program passed over that", fault=f, run=r.brief())
                ctx.n["failure_reported"] += 1
            if name in ("outfail", "outpart", "outkill"):
                if not u.out.startswith(r.out.rstrip("\ufffd")) and not settled(lambda x: x.out.rstrip("\ufffd"), r, lambda: run(f), undisturbed, lambda a, b: b.startswith(a)):
                    raise Violation("before the output failed something else was shown than in the undisturbed run", fault=f, args=args, shown=r.out[-1200:], undisturbed=u.out[-1200:])


def part_of(a, b):
    b = list(b)
    for x in a:
        if x not in b:
            return False
        b.remove(x)
    return True


def settled(get, r, again, undisturbed, same):
    """does the difference come from what runs may differ in? Only a difference that stands in every repetition counts"""
    outs = {get(x) for x in undisturbed()}
    if len(outs) > 1 or any(same(get(r), o) for o in outs):
        return True
    return any(any(same(get(x), o) for o in outs) for x in (again() for _ in range(4)))
