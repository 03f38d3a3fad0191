"""Rejection of invalid journals, and survival of any input."""
from __future__ import annotations
import datetime as dt
import os
import random
from dataclasses import replace
from decimal import Decimal as D

from . import gen, model, rules
from .checks_envelopes import FUND
from .checks_files import no_effect, pending, pending_world
from .checks_import import UNKNOWN, good_import, write_setup
from .core import Violation
from .gen import Opt, Style, World, amt_text, num, render, today_pool
from .model import Account, Amt, DateFmt, Entry, Post
from .props import check

# ---------------------------------------------------------------- C03
BADAMT = ["abc", "1.2.3", "5-5", "1-", "-", "..", "$", "1.2.3 $", "€1.2.3", "--", "x y z", "$ 5 5 5", "5 $ x y", "- $", "1-2 USD", "-.-"]


class Parts:
    """what a faulty chunk is made of: known accounts, an amount, a date"""

    def __init__(self, rng, fmt, today):
        self.rng, self.fmt = rng, fmt
        self.d = (today - dt.timedelta(days=rng.randint(0, 300))).strftime(fmt)
        self.date = today
        self.sym = rng.choice([None, None, "$", "EUR", "kr"])
        self.st = Style(random.Random(rng.random()))
        self.m = gen.mag(rng, ("int", "cents", "round"))
        self.s = rng.choice("?~*")

    def a(self, mult=1, sym="?"):
        return amt_text(Amt(self.m * mult, self.sym if sym == "?" else sym), self.st)

    def head(self):
        return f"{self.d} {self.s} faulty" if self.rng.random() < 0.8 else f"{self.d} {self.s}"


A, B, C, E = "assets:vx", "expenses:vx", "expenses:vy", "assets:ve"
PRELUDE = [f"account {A}", f"account {B}", f"account {C}", f"account {E}\n    expense okay due every 5th\n        amount 5"]


def tx(head, *posts):
    return head + "\n" + "".join(f"    {p}\n" for p in posts)


def status_fault(p):
    r = p.rng
    s = r.choice(["", "!", "x", "**", "*~", "?*", "cleared", "*x", "(*)", "-", "~~", "&", "[*]"])
    good = tx(p.head(), f"{A} {p.a()}", f"{B} {p.a(-1)}")
    # (without any status, the next word takes its place)
    tail = r.choice(["", " faulty", " faulty [p]"]) if s == "" else " faulty"
    return good, tx(f"{p.d} {s}".rstrip() + tail, f"{A} {p.a()}", f"{B} {p.a(-1)}"), f"status {s!r}"


def date_fault(p):
    r = p.rng
    y = p.date.year
    bad = r.choice([dt.date(y, 1, 31).strftime(p.fmt).replace("31", "32", 1) if "31" in dt.date(y, 1, 31).strftime(p.fmt) else "x", "hello", "2020", "99/99", "", p.d + "x",
                    "x" + p.d, p.d[:-1] + "-", p.d.replace(p.d[4], "|"), "20x0/01/01", "1/2/3/4", p.d + "/1"])
    if bad == p.d:
        bad = "nodate"
    try:
        dt.datetime.strptime(bad, p.fmt)
        bad = "nodate"
    except ValueError:
        pass
    good = tx(p.head(), f"{A} {p.a()}", f"{B}")
    return good, tx(f"{bad} * faulty".lstrip(), f"{A} {p.a()}", f"{B}"), f"date {bad!r}"


def account_fault(p):
    r = p.rng
    n = r.choice([x for x in ("assets:v", "assets:vxx", "Assets:vx", "assets", "vx", "expenses:vx:", ":", "assets:vx:sub", "envelope:vx", "expenses", "assets:vx,") if x not in p.declared])
    v = r.choice(["first", "last", "blank", "zero", "env", "envonly", "price"])
    a, b = (f"{A} {p.a()}", f"{B} {p.a(-1)}")
    good = tx(p.head(), a, b)
    if v == "first":
        bad = tx(p.head(), f"{n} {p.a()}", b)
    elif v == "last":
        bad = tx(p.head(), a, f"{n} {p.a(-1)}")
    elif v == "blank":
        good, bad = tx(p.head(), a, B), tx(p.head(), a, n)
    elif v == "zero":
        good, bad = tx(p.head(), a, b, f"{C} 0"), tx(p.head(), a, b, f"{n} {p.a(0)}")
    elif v == "env":
        good, bad = tx(p.head(), a, b, f"envelope {E} okay 1"), tx(p.head(), a, b, f"envelope {n} okay 1")
    elif v == "envonly":
        good, bad = tx(p.head(), f"envelope {E} okay 1"), tx(p.head(), f"envelope {n} okay 1")
    else:
        good, bad = tx(p.head(), f"{A} 5 XX @ 2", f"{B} -10"), tx(p.head(), f"{n} 5 XX @ 2", f"{B} -10")
    return good, bad, f"undeclared {n} ({v})"


def amount_fault(p):
    r = p.rng
    x = r.choice(BADAMT)
    v = r.choice(["amount", "second", "price", "total", "assertion", "env", "envelope target", "amount+assertion"])
    if x == "--" and v in ("amount", "second", "amount+assertion"):
        x = "abc"
    good = tx(p.head(), f"{A} {p.a()}", f"{B} {p.a(-1)}")
    if v == "amount":
        bad = tx(p.head(), f"{A} {x}", f"{B} {p.a(-1)}")
    elif v == "second":
        bad = tx(p.head(), f"{A} {p.a()}", f"{B} {x}")
    elif v == "price":
        good, bad = tx(p.head(), f"{A} 5 XX @ 2", f"{B} -10"), tx(p.head(), f"{A} 5 XX @ {x}", f"{B} -10")
    elif v == "total":
        good, bad = tx(p.head(), f"{A} 5 XX = 10", f"{B} -10"), tx(p.head(), f"{A} 5 XX = {x}", f"{B} -10")
    elif v == "assertion":
        bad = tx(p.head(), f"{A} {p.a()} ! {x}", f"{B} {p.a(-1)}")
    elif v == "amount+assertion":
        bad = tx(p.head(), f"{A} {x} ! {p.a()}", f"{B} {p.a(-1)}")
    elif v == "env":
        good, bad = tx(p.head(), f"envelope {E} okay 1"), tx(p.head(), f"envelope {E} okay {x}")
        if x in ("x y z", "$ 5 5 5", "5 $ x y", "- $"):
            bad = tx(p.head(), f"envelope {E} okay abc")
    else:
        good = f"account {A}\n    goal tgt due every 5th\n        amount 5\n"
        bad = f"account {A}\n    goal tgt due every 5th\n        amount {x}\n"
    return good, bad, f"amount {x!r} ({v})"


def blanks_fault(p):
    r = p.rng
    n = r.choice([2, 2, 3])
    names = r.sample([A, B, C], n)
    rest = [f"{A} {p.a()}"] * r.choice([0, 1, 1])
    env = [f"envelope {E} okay 1"] * r.choice([0, 0, 1])
    if env:
        p.sym = None
        rest = [f"{A} {p.a()}"] if rest else []
    good = tx(p.head(), *rest, names[0], *env)
    posts = rest + names + env
    r.shuffle(posts)
    return good, tx(p.head(), *posts), f"{n} omitted amounts"


def mixed_fault(p):
    r = p.rng
    s1, s2 = r.sample(["$", "EUR", "kr", "USD", "AAPL"], 2)
    k = r.choice([0, 1, 2])
    c1 = " @ 2" if k else ""
    c2 = " = 7" if k == 2 else ""
    good = tx(p.head(), f"{A} 5 {s1}", f"{B} 7 {s1}", C)
    bad = [f"{A} 5 {s1}{c1}", f"{B} 7 {s2}{c2}", C] + r.choice([[], [f"{A} 3"]])
    r.shuffle(bad)
    return good, tx(p.head(), *bad), "omitted amount next to two currency symbols"


def bracket_fault(p):
    r = p.rng
    t = r.choice(["[payee", "[", "x [payee ; ]", "pay] [ee", "] [", "[[", "[payee // ]", "a [b c"])
    good = tx(p.head() + " [payee]", f"{A} {p.a()}", f"{B} {p.a(-1)}")
    return good, tx(p.head() + " " + t, f"{A} {p.a()}", f"{B} {p.a(-1)}"), f"payee {t!r}"


def unbalanced_fault(p):
    r = p.rng
    n = r.choice([1, 2, 2, 3, 4])
    xs = [gen.mag(r, ("int", "cents", "round", "tiny"), False) for _ in range(n)]
    if n == 1:
        off = D(0)
    else:
        xs[-1] = -sum(xs[:-1], D(0))
        off = r.choice([D(1).scaleb(-8), D(1).scaleb(-2), D(1), D(2) * xs[-1] or D(1), D(1000), D(1).scaleb(-4)])
        if off == D(1).scaleb(-8) and any(abs(x) > 1000 for x in xs):
            off = D(1).scaleb(-2)
    acc = [r.choice([A, B, C, E]) for _ in range(n)]
    env = [f"envelope {E} okay 1"] if r.random() < 0.15 else []
    form = lambda x, m: f"{x} {amt_text(Amt(m, p.sym), p.st)}"
    good = tx(p.head(), *(form(a, x) for a, x in zip(acc, xs)), *env) if n > 1 else tx(p.head(), form(A, D(0)))
    k = r.randrange(n)
    ys = [x + (off if i == k else 0) for i, x in enumerate(xs)]
    if n == 1 and ys[0] == 0:
        ys[0] = D(1)
    if r.random() < 0.2:
        acc = [acc[0]] * n
    bad = tx(p.head(), *(form(a, y) for a, y in zip(acc, ys)), *env)
    return good, bad, f"unbalanced by {off}"


def acctdef_fault(p):
    r = p.rng
    bad = r.choice(["account\n", "account   \n", "account ; name\n", "account // name\n", "account two words\n", "account three words here\n", "account x y ; z\n",
                    "account\n    expense food due every 5th\n        amount 5\n", "account my food\n    expense food due every 5th\n        amount 5\n"])
    return "account fine:name\n", bad, f"account definition {bad.splitlines()[0]!r}"


def envdef(name, due, *props, kind="expense"):
    return f"    {kind} {name} {due}\n" + "".join(f"        {x}\n" for x in props)


def dup_fault(p):
    r = p.rng
    k1, k2 = r.choice(["expense", "goal"]), r.choice(["expense", "goal"])
    d1, d2 = r.choice(["due every 5th", "by every friday", "no date"]), r.choice(["due every 6th", "no date"])
    a, b = envdef("twin", d1, "amount 5", kind=k1), envdef("twin", d2, "amount 6", "funding manual", kind=k2)
    other = envdef("other", "due every 7th", "amount 7") if r.random() < 0.5 else ""
    good = f"account {A}\n" + a + other + b.replace("twin", "twin2")
    if r.random() < 0.5:
        return good, f"account {A}\n" + a + other + b, "duplicate envelope"
    mid = tx(p.head(), f"{A} {p.a()}", f"{B} {p.a(-1)}") if r.random() < 0.3 else ""
    return good, f"account {A}\n" + a + mid + f"account {A}\n" + other + b, "duplicate envelope over two definitions"


def envdef_fault(p):
    r = p.rng
    st = p.date.strftime(p.fmt)
    k = r.choice(["expense", "goal"])
    v = r.choice(["nodue", "nodue2", "property", "property2", "funding", "yearly", "otherweek", "othermonth", "freq", "novalue", "badamount", "badstart", "twofor", "type"])
    good = f"account {A}\n" + envdef("newone", f"due every year starting {st}", "amount 5", f"for {B}", "funding aggressive", kind=k)
    line = {"nodue": envdef("newone", "", "amount 5", kind=k), "nodue2": envdef("newone", r.choice(["due", "by", "due by", "every 5th", "monthly", "by due every 5th", "by due", f"starting {st}"]), "amount 5", kind=k),
            "property": envdef("newone", "due every 5th", "amount 5", r.choice(["colour red", "amounts 5", "found aggressive", "fo expenses:vx", "Amount 5", "starting " + st, "due every 5th", "4"]), kind=k),
            "property2": envdef("newone", "due every 5th", r.choice(["colour red", "target 5", "funded manual"]), "amount 5", kind=k),
            "funding": envdef("newone", "due every 5th", "amount 5", "funding " + r.choice(["fast", "Aggressive", "none", "agressive", "conservative!", "auto", "manual aggressive", "5"]), kind=k),
            "yearly": envdef("newone", r.choice(["due every year", "by every year", "due by every year"]), "amount 5", kind=k),
            "otherweek": envdef("newone", "due every other " + r.choice(["friday", "Mon", "sunday"]), "amount 5", kind=k),
            "othermonth": envdef("newone", "due every other " + r.choice(["5th", "31st", "1st"]), "amount 5", kind=k),
            "freq": envdef("newone", "due " + r.choice(["every fortnight", "every", "every other", "tomorrow", "every other year starting " + st, "2020/13/45x"]), "amount 5", kind=k),
            "novalue": envdef("newone", "due every 5th", *r.sample(["amount 5", r.choice(["for", "funding", "amount", "for  ; x", "funding // manual", "amount\t"])], 2), kind=k),
            "badamount": envdef("newone", "due every 5th", r.choice(["", "funding manual\n        "]) + "amount " + r.choice(["five", "USD", "1 2 3", "5 0 USD", "-", "1.2.3"]), kind=k),
            "badstart": envdef("newone", r.choice(["due every 5th", "by every friday", "due every year", "due every other 5th"]) + " starting " +
                               r.choice(["soon", "13/13/13/13", "5th", st + "x", "x" + st, "the " + st, "starting " + st]), "amount 5", kind=k),
            "twofor": envdef("newone", "due every 5th", "amount 5", "for " + r.choice([f"{B} {C}", f"{B}, {C}", f"{B} and {C}", f"{B} {B}", "my expenses"]), kind=k),
            "type": envdef("newone", "due every 5th", "amount 5", kind=r.choice(["budget", "Expense", "goals", "expenses", "envelope", "GOAL"]))}[v]
    return good, f"account {A}\n" + line, f"envelope definition ({v}): {line.split(chr(10))[0].strip()}"


FAULTS = [status_fault, date_fault, account_fault, amount_fault, amount_fault, blanks_fault, mixed_fault, bracket_fault, unbalanced_fault, unbalanced_fault, acctdef_fault, dup_fault,
          envdef_fault, envdef_fault]


@check("C03", (35000, 420000), "one case = a valid journal with money waiting to be moved into which one fault of a listed kind was put at a random place (also in an included file), run with "
       "every kind of command; the same journal with a sound chunk in that place is accepted; distinct = distinct journal text")
def c03(ctx, rng, box):
    today = today_pool(rng)
    w = pending_world(rng, today, replace(FUND, entries=(0, 5), accounts=(2, 5), fmts=0.4, late=0, redefine=0, refmt=0), UNKNOWN + ("assets:checking",), tries=5)
    items = w.items()
    fmt = w.fmt if any(isinstance(i, DateFmt) for i in items) else "%Y/%m/%d"
    kind = rng.choice(FAULTS)
    p = Parts(rng, fmt, today)
    p.declared = set(w.accounts)
    good, bad, what = kind(p)
    style = Style.pick(rng)
    segs = []
    # which accounts the faulty transaction is about: also ones without a colon, deep ones, ones of other kinds
    names = {A: rng.choice([A, A, "assets:v:deep:vxa", "vxatop"]), B: rng.choice([B, B, "vxbtop", "Équité:vxb"]), C: rng.choice([C, C, "vxctop", "liabilities:vxc:q"])}
    for old, new in names.items():
        good, bad, what = good.replace(old, new), bad.replace(old, new), what.replace(old, new)
    cur = "%Y/%m/%d"
    for it in items:
        t, cur = render([it], style, cur)
        segs.append(t)
    k = next((n + 1 for n, i in enumerate(items) if isinstance(i, DateFmt)), 0)
    segs[k:k] = [f"account {names[n]}" for n in (A, B, C)] + PRELUDE[3:]
    at = rng.choice([k + len(PRELUDE), len(segs), rng.randint(k + len(PRELUDE), len(segs))])
    inc = rng.random() < 0.25

    def build(chunk):
        s = list(segs)
        if inc:
            box.write("part.sfox", chunk)
            s.insert(at, "include part.sfox\n")
        else:
            s.insert(at, chunk)
        return "".join(x if x.endswith("\n") else x + "\n" for x in s)
    box.write("bank.csv", "d,x,a\n2020/01/01,x,5\n2020/01/02,y,-5\n")
    box.write("bank.csv.rules", "fields date,description,amount\naccount1 assets:checking\namount1 %amount% MARK\n")
    cmds = [["b"], ["e"], ["r"], ["i", "--csv", "bank.csv"], ["b", "-n"], ["e", "-n"], ["r", "-n"], ["i", "-n", "--csv", "bank.csv"], ["s"], ["n"]]
    # control: the same journal without the fault
    text = build(good)
    if rng.random() < 0.3 or ctx.case < 40:
        box.write("j.sfox", text)
        box.ok([rng.choice("ber"), "-n", "-f", "j.sfox"], today=today)
        ctx.n["sound_controls_accepted"] += 1
    text = build(bad)
    if rng.random() < 0.2:
        text = text.rstrip("\n")
    box.write("j.sfox", text)
    ctx.sig(text)
    ctx.sample(dict(fault=what, chunk=bad))
    snap = box.snapshot()
    ctx.n["fault_" + kind.__name__.replace("_fault", "")] += 1
    for c in rng.sample(cmds, 2):
        r = box.run(c + ["-f", "j.sfox"], today=today)
        no_effect(box, snap, r, "a journal that has to be rejected", fault=what, chunk=bad, included=inc)
        ctx.n["rejections_observed"] += 1


# ---------------------------------------------------------------- C19
TOKENS = ["account", "envelope", "expense", "goal", "include", "currency", "date_format", "every", "every other", "due", "by", "due by", "starting", "no date", "amount", "for", "funding",
          "aggressive", "conservative", "manual", "if", "fields", "skip", "description", "payee", "comment", "note", "status", "decimal_symbol", "decimal", "account1", "amount1", "use",
          "%date%", "%amount%", "%", "%%", "%x", "[", "]", "[]", "][", "//", ";", "@", "=", "!", "!!", "-", "--", "---", "~", "*", "?", ".", ",", "$", "€", "0", "-0", "1e308", "1e400",
          "nan", "inf", "9" * 400, "0." + "0" * 330 + "1", "0th", "1st", "29th", "30th", "31st", "32nd", "99th", "4294967295th", "4294967296th", "every 0th", "every 31st", "every year",
          "every friday", "every other friday", "every other 31st", "2020/02/29", "0001/01/01", "9999/12/31", "2020/13/01", "\u0301", "\u200b", "\u00a0", "\u3000", "\u2028", "İ", "ß", "ﬁ",
          "🦊", "\t", " ", "  ", "\r", "\x00", "\x0b", "\x0c", "\x1b[31m", "\"", "'", "\"\"", ",,", "\ufeff", "a" * 300, "%d", "%Y", "%Q", "%-d", "%+", "%:z", "%s", "%N", "%c", "%5Y", "%",
          "100%", "-n", "-f", "(none)", "\\", "\n", "\n\n", "\n ", "\n\t", "\n    "]
BYTES = [b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\xa6", b"\x80", b"\xed\xa0\x80", b"\x00", b"\xef\xbb\xbf"]
NASTYFMT = ["%", "%%", "%Q", "%d", "%Y", "%s", "%c", "%+", "%H:%M", "%Z", "%:z", "%5", "%-", "%Y/%m/%d %H", "", "x", "%Y/%m/%d%", "%é", "%_d", "%0Y", "%.3f", "%y%m%d", "%G-%V-%u", "%e.%B"]


def mutate(rng, data: bytes, other: bytes, n=None):
    """structure-aware and blind damage to a text"""
    b = bytearray(data)
    for _ in range(n or rng.choice([1, 1, 1, 2, 2, 3, 5, 10])):
        k = rng.random()
        if k < 0.08 and b:
            i = rng.randrange(len(b))
            b[i] = rng.randrange(256)
        elif k < 0.16 and b:
            i = rng.randrange(len(b))
            del b[i:i + rng.choice([1, 1, 2, 5, 40])]
        elif k < 0.24:
            i = rng.randint(0, len(b))
            b[i:i] = rng.choice(BYTES) if rng.random() < 0.3 else bytes([rng.randrange(128)])
        elif k < 0.45:
            # a token somewhere, usually at a border between words
            t = rng.choice(TOKENS).encode()
            s = bytes(b)
            cuts = [i for i, c in enumerate(s) if c in b" \n\t,"] or [0]
            i = rng.choice(cuts) + rng.choice([0, 1])
            b[i:i] = rng.choice([t, b" " + t, t + b" ", b"\n" + t])
        elif k < 0.65:
            # one token in place of another
            toks = token_spans(bytes(b))
            if toks:
                i, j = rng.choice(toks)
                t = rng.choice(TOKENS).encode() if rng.random() < 0.6 else rng.choice(other.split() or [b""])
                b[i:j] = t
        elif k < 0.72:
            toks = token_spans(bytes(b))
            if toks:
                i, j = rng.choice(toks)
                del b[i:j]
        else:
            ls = bytes(b).split(b"\n")
            i = rng.randrange(len(ls))
            m = rng.random()
            if m < 0.2:
                ls.insert(rng.randint(0, len(ls)), ls[i])
            elif m < 0.4:
                del ls[i]
            elif m < 0.55:
                j = rng.randrange(len(ls))
                ls[i], ls[j] = ls[j], ls[i]
            elif m < 0.65:
                ls[i] = ls[i].lstrip()
            elif m < 0.75:
                ls[i] = b"    " + ls[i]
            elif m < 0.85:
                ls[i] = ls[i][:rng.randint(0, len(ls[i]))]
            elif m < 0.95:
                ls.insert(i, rng.choice(other.split(b"\n") or [b""]))
            else:
                ls = ls[:i]
            b = bytearray(b"\n".join(ls))
    return bytes(b)


NUMBERS = ["0", "-0", "1", "-1", "0.00000001", "0.000000001", "99999999999999999999", "-5", "1,000", "0.1", "12345678.12345678", "1.", ".5", "-.5", "007", "1e5", "1,0,0", "50", "100"]
DATES = ["2020/02/29", "1970/01/01", "2000/01/31", "2024/12/31", "0001/01/01", "9999/12/31", "2100/02/28", "2021/03/31", "2200/01/01"]
DUES = ["every 0th", "every 1st", "every 29th", "every 31st", "every 40th", "every 99999th", "every monday", "every sun", "every other 31st starting 2001/01/31", "every other 0th starting 2001/01/31",
        "every other 77th starting 2024/02/29", "every year starting 2000/02/29", "every year starting 9999/12/31", "every other friday starting 0001/01/01", "every 5th starting 9999/12/31",
        "2000/01/01", "9999/12/31", "every friday starting 0001/01/01", "every year starting 0001/01/01"]


def gentle(rng, data: bytes):
    """something else of the same kind in place of a number, date, due clause, account, status, currency: mostly still well-formed"""
    s = data.decode("utf-8", "replace")
    import re
    for _ in range(rng.choice([1, 2, 4, 8])):
        k = rng.choice(["num", "num", "date", "due", "acct", "status", "sym", "drop"])
        if k == "num":
            m = [x for x in re.finditer(r"(?<![\w/.%])-?\d[\d.,]*(?![\w/])", s)]
            t = rng.choice(NUMBERS)
        elif k == "date":
            m = [x for x in re.finditer(r"\b\d{4}/\d\d/\d\d\b", s)]
            t = rng.choice(DATES)
        elif k == "due":
            m = [x for x in re.finditer(r"(?<=due )[^\n;]*|(?<=by )[^\n;]*|no date", s)]
            t = rng.choice(DUES)
            if m:
                x = rng.choice(m)
                m = [x]
                t = "due " + t if x.group().startswith("no") else t
        elif k == "acct":
            accts = re.findall(r"^account\s+(\S+)", s, re.M)
            if not accts:
                continue
            m = [x for x in re.finditer("|".join(re.escape(a) for a in accts), s)]
            t = rng.choice(accts)
        elif k == "status":
            m = [x for x in re.finditer(r"(?<= )[?~*](?= )", s)]
            t = rng.choice("?~*")
        elif k == "sym":
            m = [x for x in re.finditer(r"(?<=\d) ?[^\W\d]+(?=\s)", s)]
            t = rng.choice(["", " $", " EUR", "€", " " + "x" * 60])
        else:
            m = [x for x in re.finditer(r"(?<=\S)[ ]+-?[\d.,]+[^\n]*$", s, re.M)]
            t = ""
        if m:
            x = rng.choice(m)
            s = s[:x.start()] + t + s[x.end():]
    return s.encode()


def token_spans(s):
    out, i, n = [], 0, len(s)
    while i < n:
        while i < n and s[i] in b" \n\t,\r":
            i += 1
        j = i
        while j < n and s[j] not in b" \n\t,\r":
            j += 1
        if j > i:
            out.append((i, j))
        i = j
    return out


def survived(ctx, r, what):
    ctx.n["inputs_tried"] += 1
    if "AddressSanitizer" in r.err:
        raise Violation("AddressSanitizer report", run=r.brief(), input=what)
    if r.panicked:
        kind = {6: "abort", 9: "hang (CPU limit) or out of memory", 11: "segmentation fault or stack overflow", 24: "hang (CPU limit)", 25: "unbounded output"}.get(r.sig, "panic")
        raise Violation(f"the program ended with a {kind} instead of a report or an error", run=r.brief(), input=what)
    if r.err.strip():
        ctx.n["ended_in_an_error"] += 1
    else:
        ctx.n["ended_in_a_report"] += 1


def any_day(rng):
    k = rng.random()
    if k < 0.1:
        return rng.choice([dt.date(1970, 1, 1), dt.date(1970, 1, 2), dt.date(2199, 12, 31), dt.date(2100, 2, 28), dt.date(2000, 2, 29), dt.date(2038, 1, 19), dt.date(2106, 2, 7)])
    return today_pool(rng, 1970, 2199)


@check("C19", (11250, 135000), "one case = a valid set of files (journal, rules, CSV), mutated in a structure-aware and a blind way and run with various commands, dates, terminal widths and "
       "(every fourth run) under AddressSanitizer; also extreme but well-formed journals, deep and cyclic includes, broken command lines; distinct = distinct input bytes and command line",
       kinds=("debug", "asan"))
def c19(ctx, rng, box):
    today = any_day(rng)
    case = ctx.case
    if case % 500 == 5:
        return huge(ctx, rng, box, today)
    if case % 40 == 3:
        return extremes(ctx, rng, box, today)
    if case % 40 == 7:
        return depths(ctx, rng, box, today)
    if case % 10 == 1:
        return command_lines(ctx, rng, box, today)
    imp = rng.random() < 0.45
    if imp:
        w, j, today2, su, exp = good_import(ctx, rng, box, rng.random() < 0.6)
        write_setup(box, su, rng)
    else:
        opt = Opt(envelopes=(0, 6), entries=(0, 10), fmts=0.3, funded=0.7) if rng.random() < 0.5 else replace(FUND, fmts=0.3)
        w = World(rng, today, opt)
        text, fmt = render(w.items(), Style.pick(rng))
        box.write("j.sfox", text)
    base = box.snapshot()
    names = [n for n in base]
    other = b"\n".join(base.values())
    ctx.sample(dict(files=sorted(names)))
    for i in range(rng.randint(4, 8)):
        which = rng.choice(names) if rng.random() < 0.8 else "j.sfox"
        soft = rng.random() < 0.4
        data = gentle(rng, base[which]) if soft else mutate(rng, base[which], other)
        ctx.n["gentle_mutations" if soft else "hard_mutations"] += 1
        if rng.random() < 0.05:
            data = b"date_format " + rng.choice(NASTYFMT).encode() + b"\n" + data
        box.write(which, data)
        day = today if rng.random() < 0.7 else any_day(rng)
        if imp:
            args = rng.choice([["i", "-f", "j.sfox", "--csv", "bank.csv"], ["i", "-n", "-f", "j.sfox", "--csv", "bank.csv"]])
        else:
            args = [rng.choice(["b", "e", "r"])] + rng.choice([[], ["-n"]]) + ["-f", "j.sfox"]
        kind = "asan" if rng.random() < 0.25 else "debug"
        cols = rng.choice([120, 120, 80, 0, 1, 2, 10, 39, 40, 41, 57, 500, 65535])
        r = box.run(args, today=day, cols=cols, kind=kind)
        ctx.n["runs_" + kind] += 1
        ctx.sig(data, args, str(day), cols)
        survived(ctx, r, data.decode("utf-8", "replace")[:3000])
        # what was written has to be survived, too
        if rng.random() < 0.2:
            r = box.run([rng.choice("ber"), "-n", "-f", "j.sfox"], today=day, cols=cols)
            survived(ctx, r, "after " + " ".join(args))
        for n in names:
            box.write(n, base[n])


def extremes(ctx, rng, box, today):
    """well-formed but extreme"""
    k = rng.choice(["many", "long", "numbers", "envelopes", "dates", "wide", "lines"])
    if k == "many":
        n = 1500
        text = "account a\naccount b\n" + "".join(f"{(today - dt.timedelta(days=i % 900)).strftime('%Y/%m/%d')} * x{i}\n  a {i}\n  b\n" for i in range(n))
    elif k == "long":
        s = rng.choice(["x", "é", "日", "🦊", "a:"]) * rng.choice([300, 5000, 70000])
        if rng.random() < 0.7:
            # letters of one to four bytes: whatever place a text is cut at is in the middle of one sometime
            t, u, v, c = (rng.choice(["", "a", "ab"]) + gen.longtext(rng, rng.choice([40, 300, 3000])) for _ in range(4))
            acct = rng.choice(["assets:", "asset", ""]) + t
            text = (f"account {acct}\n  expense {u} due every 5th\n    amount 5 {c}\n    for {v}\n    funding aggressive\n  goal {v} no date\n    amount 7\naccount {v}\naccount equity\n" +
                    "".join(f"2020/01/0{i} * {rng.choice([t, u, v, c])} [{rng.choice([t, u, v])}] ; {u}\n  {acct} {i}{rng.choice(['', ' ' + c])}\n  {rng.choice([v, 'equity'])}\n" for i in range(1, 9))
                    + f"2020/01/09 * {u}\n  envelope {acct} {u} 1 {c}\n  envelope {acct} {v} 2\n")
        else:
            text = f"account {s}\naccount b\n2020/01/01 * {s} [{s}]\n  {s} 5\n  b\n2020/01/01 * y\n  {s} 5 {s.replace(':', '')}\n  b -5 {s.replace(':', '')}\n"
    elif k == "numbers":
        v = [rng.choice(["9" * rng.choice([15, 17, 20, 100, 308, 310, 400]), "0." + "0" * rng.choice([7, 8, 20, 323, 330]) + "1", "1" + "0" * 307, "-0", "00000", "-0.0"]) for _ in range(6)]
        text = "account a\n  expense e due every 5th\n    amount %s\n    funding aggressive\n    for b\n  goal g due every 6th\n    amount %s\n    funding conservative\naccount b\n" % (v[0], v[1])
        text += "".join(f"{today.strftime('%Y/%m/%d')} * n\n  a {x}{rng.choice(['', ' @ ' + v[3], ' $', ' $ @ ' + v[2], ' $ = ' + v[4]])}\n  b\n" for x in v)
    elif k == "envelopes":
        envs = "".join(f"  {rng.choice(['expense', 'goal'])} e{i} {rng.choice(['due every %dth' % (i % 40), 'no date', 'due every other %dth starting 2001/0%d/28' % (i % 45, i % 9 + 1), 'due every monday', 'due every year starting 2000/02/29', 'due every other sunday starting 1972/01/0%d' % (i % 9 + 1)])}\n    amount {i}\n    for b\n    funding {rng.choice(['aggressive', 'conservative'])}\n" for i in range(300))
        text = "account a\n" + envs + "account b\n2020/01/01 * x\n  a 100000\n  b\n2020/01/01 * x\n  a -50\n  b\n"
    elif k == "dates":
        ds = ["0001/01/01", "0001/01/02", "9999/12/31", "9999/12/01", "1600/02/29", "1969/12/31", "2262/04/12", "5000/06/30"]
        envs = "".join(f"  expense e{i} due {f.format(d)}\n    amount 5\n    funding {rng.choice(['aggressive', 'conservative'])}\n" for i, (d, f) in enumerate(
            (d, f) for d in ds for f in ("{}", "every 31st starting {}", "every other 31st starting {}", "every year starting {}", "every friday starting {}", "every other friday starting {}")))
        text = "account a\n" + envs + "account b\n" + "".join(f"{d} * x\n  a 50\n  b\n  envelope a e3 1\n" .replace("  b\n  env", "  b -50\n  env") for d in ds)
    elif k == "wide":
        text = "account a\naccount b\n" + f"{today.strftime('%Y/%m/%d')} * w\n" + "".join(f"  a {i} S{'x' * (i % 7)}{chr(65 + i % 26)}{chr(97 + i // 26)}\n  b -{i} S{'x' * (i % 7)}{chr(65 + i % 26)}{chr(97 + i // 26)}\n" for i in range(400))
    else:
        text = rng.choice(["\n" * 20000, " \n" * 5000, ";" * 50000, "include\n", "account a\n" * 2000, "date_format %Y\n" * 500, "\t" * 10000, "[" * 10000])
    box.write("j.sfox", text)
    ctx.sample(dict(extreme=k))
    for cmd in ("b", "e", "r"):
        for cols in (rng.choice([0, 1, 80]), 200):
            kind = "asan" if rng.random() < 0.2 else "debug"
            r = box.run([cmd] + rng.choice([[], ["-n"]]) + ["-f", "j.sfox"], today=today, cols=cols, kind=kind)
            ctx.n["runs_" + kind] += 1
            ctx.sig(text, cmd, cols, str(today))
            survived(ctx, r, k + ": " + text[:1500])
    ctx.n["extreme_journals"] += 1


def huge(ctx, rng, box, today):
    """many transactions, postings, records or rules, with a small stack: what needs stack in proportion to the input shows before the input gets too large to be run often"""
    k = ["late", "down", "shuffled", "postings", "records", "patterns", "accounts", "words"][ctx.case // 500 % 8]
    n = 8000
    days = [dt.date(1971, 1, 1) + dt.timedelta(days=rng.randint(0, 60000)) for _ in range(n)]
    head = "account assets:a\naccount equity\naccount unknown\naccount income:unknown\naccount expenses:unknown\n"
    args, text = [rng.choice("ber"), "-n"], head
    if k in ("late", "down", "shuffled"):
        days.sort(reverse=k == "down")
        if k == "shuffled":
            n = 4000
            rng.shuffle(days)
        elif k == "late":
            days.append(dt.date(1970, 6, 1))
        text += "".join(f"{d:%Y/%m/%d} * x\n  assets:a 1\n  equity\n" for d in days[-n:])
    elif k == "postings":
        text += f"{days[0]:%Y/%m/%d} * x\n" + "  assets:a 1\n" * n + "  equity\n"
    elif k == "accounts":
        text += "".join(f"account assets:x{i}\n" for i in range(n)) + f"{days[0]:%Y/%m/%d} * x\n" + "".join(f"  assets:x{i} 1\n" for i in range(n)) + "  equity\n"
    elif k == "words":
        text += f"{days[0]:%Y/%m/%d} * " + "word " * 40000 + "\n  assets:a 1\n  equity\n" + "; comment\n" * 40000
    else:
        args = ["i", "-n", "--csv", "x.csv"]
        m = n // 4 if k == "records" else 20
        box.write("x.csv", "d,t,a\n" + "".join(f"{d:%Y/%m/%d},t,{i - 7}\n" for i, d in enumerate(days[:m])))
        box.write("x.csv.rules", "fields date,description,amount\naccount assets:a\n" + ("if\n" + "nothing\n" * n + "t\n  payee x\n" + "if none\n  payee y\n" * 300 if k == "patterns" else ""))
    box.write("j.sfox", text)
    ctx.sample(dict(huge=k))
    r = box.run(args + ["-f", "j.sfox"], today=today, env={"SFMON_STACK": "256"})
    ctx.n["runs_debug"] += 1
    ctx.n["huge_inputs"] += 1
    ctx.sig(k, args, str(days[0]))
    survived(ctx, r, f"huge: {k}, {len(text)} bytes of journal, 256 kB of stack")
    if r.err.strip():
        raise Violation("a large but correct input was answered with an error", run=r.brief(), input=k)


def depths(ctx, rng, box, today):
    """deep and cyclic includes, of journals and of rules"""
    n = rng.choice([5, 100, 250, 255, 256, 257, 300, 1000, 4000])
    loop = rng.random() < 0.3
    for i in range(n):
        box.write(f"c{i}", f"include c{i + 1}\n")
        box.write(f"r{i}", f"include r{i + 1}\n")
    box.write(f"c{n}", f"include c{rng.randint(0, n)}\n" if loop else "account a\n")
    box.write(f"r{n}", f"include r{rng.randint(0, n)}\n" if loop else "fields date,description,amount\naccount a\n")
    box.write("ok.sfox", "account a\naccount income:unknown\n")
    box.write("x.csv", "a,b,c\n2020/01/01,x,5\n")
    ifs = "if x\n"
    for i in range(3):
        ifs += "    " * (i + 1) + rng.choice(["if y\n", "include r0\n", "status *\n", "include nest\n"])
    box.write("nest", ifs + "fields date,description,amount\naccount a\n")
    for a in (["b", "-f", "c0"], ["i", "-f", "ok.sfox", "--csv", "x.csv", "--rules", "r0"], ["i", "-f", "ok.sfox", "--csv", "x.csv", "--rules", "nest"]):
        for kind in ("debug", "asan") if rng.random() < 0.3 else ("debug",):
            r = box.run(a, today=today, kind=kind)
            ctx.n["runs_" + kind] += 1
            ctx.sig(n, loop, a, kind)
            survived(ctx, r, f"{n} levels of includes, cyclic: {loop}; {a}")
    ctx.n["include_chains"] += 1


def command_lines(ctx, rng, box, today):
    box.write("j.sfox", "account a\n  expense e due every 5th\n    amount 5\n    funding aggressive\naccount income:unknown\naccount expenses:unknown\n2020/01/01 * x\n  a 5\n  income:unknown\n")
    box.write("x.csv", "a,b,c\n2020/01/01,x,5\n")
    box.write("x.csv.rules", "fields date,description,amount\naccount a\n")
    os.makedirs(box.path("d"), exist_ok=True)
    pool = ["b", "e", "r", "i", "s", "n", "x", "", "-", "--", "-n", "--no-move", "-f", "--file", "j.sfox", "x.csv", "x.csv.rules", "--csv", "--csv-file", "--rules", "--rules-file", "d", "/", ".",
            "..", "/dev/null", "nofile", "é", "🦊", b"\xff\xfe", b"b\xff", "-h", "--help", "\n", " ", "=", "-fj.sfox", "--file=j.sfox", "/proc/self/mem", "j.sfox/", "d/../j.sfox", "a" * 5000]
    good = [["-f", "j.sfox"], ["--csv", "x.csv"], ["--rules", "x.csv.rules"], ["-n"]]
    for _ in range(12):
        if rng.random() < 0.5:
            args = [rng.choice(pool) for _ in range(rng.randint(0, 6))]
        else:
            args = [rng.choice(pool[:8])] + [x for g in rng.sample(good, rng.randint(1, 4)) for x in g]
            for _ in range(rng.choice([0, 1, 2])):
                args[rng.randrange(len(args))] = rng.choice(pool)
        env = {}
        for v in ("SILVERFOX_FILE", "LEDGER_FILE"):
            if rng.random() < 0.3:
                env[v] = rng.choice(["j.sfox", "", "d", "nofile", "/", b"\xff", "/dev/null"])
        args = [a for a in args if a != "\x00"]
        kind = "asan" if rng.random() < 0.1 else "debug"
        r = box.run(args, today=today, env=env, cols=rng.choice([120, 0, 20]), kind=kind)
        ctx.n["runs_" + kind] += 1
        ctx.n["command_lines"] += 1
        ctx.sig(args, sorted(env.items()))
        survived(ctx, r, str(args) + str(env))
