"""Reports: balances, omitted amounts, notation, register, layout, order, assertions."""
from __future__ import annotations
import datetime as dt
import random
from collections import Counter
from dataclasses import replace
from decimal import Decimal as D
from fractions import Fraction

from . import gen, model, outp
from .common import (Journal, auto_entries, cmp_balance, cmp_envelopes, cmp_register, check_moves)
from .core import Violation
from .gen import Opt, Style, World, render, today_pool
from .model import Account, Amt, DateFmt, Entry, Envelope, Post, Sched, split
from .props import check


def start(ctx, rng, box, opt=None, style=None, today=None, tweak=None):
    today = today or today_pool(rng)
    w = World(rng, today, opt or Opt())
    if tweak:
        tweak(w)
    items = w.items()
    text, fmt = render(items, style or Style.pick(rng))
    j = Journal(box, "j.sfox", items, text, fmt)
    ctx.sig(text, str(today))
    ctx.n["transactions_generated"] += len(w.entries)
    ctx.n["envelopes_generated"] += len(w.envs())
    ctx.sample(dict(today=str(today), journal=text[:1500]))
    return w, j, today


def zero_sum(ctx, shown, entries):
    """if every transaction uses a single currency, each currency sums to zero over all accounts"""
    if any(len({s for _, _, s in model.resolved(e)}) > 1 for e in entries):
        return
    tot, scale = {}, Fraction(0)
    for pool in shown.values():
        for s, v in pool.items():
            model.add(tot, s, v)
    for e in entries:
        scale += sum((model.post_scale(e, p, v) for p, v, _ in model.resolved(e)), Fraction(0))
    n = sum(len(p) for p in shown.values())
    for s, v in tot.items():
        if abs(v) > outp.tol(scale) * (n + 1):
            raise Violation("the totals of a currency do not sum to zero over all accounts", currency=s, sum=float(v))
    ctx.n["zero_sums_checked"] += 1


@check("C01", (20000, 240000), "one case = a generated journal (accounts, envelopes, transactions of every form) whose balance report was compared, "
       "amount by amount, with exact sums; distinct = distinct journal text and date")
def c01(ctx, rng, box):
    opt = Opt(entries=rng.choice([(1, 10), (1, 20), (15, 60)]), syms=rng.choice([(0, 1), (0, 3), (2, 7)]), big=1 if rng.random() < 0.01 else 0, crowd=0.02)
    w, j, today = start(ctx, rng, box, opt)
    ctx.n["big_journals"] += opt.big
    r = box.ok(["b", "-n", "-f", "j.sfox"], today=today)
    shown = cmp_balance(ctx, r.out, j.items)
    zero_sum(ctx, shown, w.entries)
    if w.envs() and rng.random() < 0.6:
        day = today
        for _ in range(rng.randint(1, 3)):
            r = box.ok([rng.choice("br" if rng.random() < .7 else "e"), "-f", "j.sfox"], today=day)
            auto_entries(ctx, j.tail(), day)
            r = box.ok(["b"] + rng.choice([["-n"], []]) + ["-f", "j.sfox"], today=day)
            j.tail()
            cmp_balance(ctx, r.out, j.items, "balance report after automatic movements")
            day += dt.timedelta(days=rng.choice([1, 1, 2, 7, 31]))
    if rng.random() < 0.3:
        # the user goes on writing transactions
        for _ in range(rng.randint(1, 4)):
            w.add_entry()
        items = j.items + w.entries[len([e for e in split(j.items)[1] if e in w.entries]):]
        new = [e for e in w.entries if not any(e is x for x in j.items)]
        late = [a for a in w.accounts.values()]
        txt, _ = render(new, Style.pick(rng), j.fmt)
        j.append("\n" + txt, new)
        r = box.ok(["b", "-n", "-f", "j.sfox"], today=today)
        cmp_balance(ctx, r.out, j.items)


@check("C02", (20000, 240000), "one case = a journal whose transactions omit an amount (any position, currency, next to envelope postings, mixed with priced "
       "foreign amounts), all three reports compared with the model; distinct = distinct journal text and date")
def c02(ctx, rng, box):
    kinds = (("blank", 5), ("mixedblank", 4), ("manualblank", 0), ("manual", 3), ("linked", 4), ("onlyblank", 0.3), ("multi", 1), ("exchange", 0.5))
    opt = Opt(entries=(1, 12), kinds=kinds, syms=rng.choice([(0, 1), (1, 1), (1, 3)]), native=0.9)

    def tweak(w):
        for e in w.entries:
            real = e.real()
            if len(real) > 1 and rng.random() < 0.8 and not any(p.amount is None for p in real):
                p = rng.choice(real)
                old = p.amount
                p.amount = None
                syms = {q.amount.sym for q in e.posts if q.amount is not None}
                if len(syms - {None}) > 1 or p.cost or not w.acceptable(e):
                    p.amount = old
                else:
                    ctx.n["omitted_amounts_added"] += 1
    w, j, today = start(ctx, rng, box, opt, tweak=tweak)
    ctx.n["omitted_amounts"] += sum(1 for e in w.entries for p in e.posts if p.amount is None)
    cmp_balance(ctx, box.ok(["b", "-n", "-f", "j.sfox"], today=today).out, j.items)
    cmp_register(ctx, box.ok(["r", "-n", "-f", "j.sfox"], today=today).out, j.items, j.fmt)
    if w.envs():
        cmp_envelopes(ctx, box.ok(["e", "-n", "-f", "j.sfox"], today=today).out, j.items, today)
    # writing the omitted amounts out changes nothing
    full = []
    for it in j.items:
        if isinstance(it, Entry) and any(p.amount is None for p in it.posts):
            v, s = model.blank_amount(it)
            dec = D(v.numerator) / D(v.denominator)
            if Fraction(dec) == v and -dec.as_tuple().exponent <= 8:
                it = replace(it, posts=[replace(p, amount=Amt(dec, s)) if p.amount is None else p for p in it.posts])
        full.append(it)
    text, _ = render(full, Style(rng))
    box.write("full.sfox", text)
    cmp_balance(ctx, box.ok(["b", "-n", "-f", "full.sfox"], today=today).out, j.items, "balance report with the amounts written out")


# ---------------------------------------------------------------- C04
def notations(sym, v, rng):
    """many ways to write the same amount"""
    neg = v < 0
    n = gen.num(v)
    i, _, f = n.partition(".")
    nums = {n}
    for z in range(1, min(8 - len(f), 3) + 1):
        nums.add(i + "." + f + "0" * z)
    if len(i) > 3:
        g, k = [], i
        while k:
            g.insert(0, k[-3:])
            k = k[:-3]
        nums |= {",".join(g) + x[len(i):] for x in list(nums)}
    res = set()
    for x in nums:
        for m in (["-", "---"] if neg else ["", "--", "----"]):
            if sym is None:
                res.add(m + x)
                continue
            for sp in ("", " "):
                res |= {m + sym + sp + x, sym + sp + m + x, m + x + sp + sym}
    return sorted(res)


@check("C04", (12500, 150000), "one case = one journal posting the same values in many notations and in up to eight currencies, through real postings, envelope "
       "postings, envelope targets, prices and assertions; each shown amount compared exactly; distinct = distinct journal text")
def c04(ctx, rng, box):
    today = today_pool(rng)
    syms = rng.sample([None] + gen.SYMS + gen.LONGSYMS, rng.randint(1, 8))
    lines, exp = ["account equity", "account assets:box"], {}
    box_tot = {}
    k = 0
    hist = []
    for s in syms:
        for _ in range(rng.randint(1, 3)):
            v = gen.mag(rng, ["int", "cents", "dec8", "tiny", "round", "big", "wide"], False)
            if rng.random() < 0.1:
                v = rng.choice([D("1000"), D("-1234567.89"), D("0.00000001"), D("999999.99999999"), D("-0.10"), D("100000000")])
            if abs(v) >= D(9) * 10**7:
                v = v.quantize(D("0.01"))
            ns = notations(s, v, rng)
            for t in rng.sample(ns, min(len(ns), 6)):
                k += 1
                a = f"assets:n{k}"
                lines.append(f"account {a}")
                hist.append((a, s, v, t))
    rng.shuffle(hist)
    for a, s, v, t in hist:
        form = rng.random()
        lines += ["", f"2020/01/{rng.randint(1, 28):02} {rng.choice('?~*')} w", ]
        other = rng.choice(["equity", "assets:box"])
        counter = rng.choice(notations(s, -v, rng)) if form < 0.5 else ""
        ass = ""
        if rng.random() < 0.3:
            q = v
            ass = " ! " + rng.choice(notations(s, q, rng))
        p1 = f"    {a}{' ' * rng.randint(1, 4)}{t}{ass}"
        p2 = f"    {other}  {counter}".rstrip()
        lines += [p1, p2] if rng.random() < 0.5 else [p2, p1]
        exp[a] = (s, v)
        if other == "assets:box":
            model.add(box_tot, s, Fraction(-v))
    # the same amount as a price, a target and an envelope posting
    prices, envs = [], []
    fs = [s for s in syms if s is not None]
    for _ in range(rng.randint(0, 3)):
        if not fs:
            break
        k += 1
        s = rng.choice(fs)
        v, q = gen.mag(rng, ["int", "cents", "round"]), gen.mag(rng, ["int", "cents", "round"])
        neg = rng.random() < 0.4
        v = -v if neg else v
        op = rng.choice("@=")
        total = v * q if op == "@" else (-q if neg else q)
        lines[0:0] = [f"account assets:p{k}"]
        t = rng.choice(notations(None, q if op == "@" else total, rng))
        lines += ["", "2020/02/02 * price", f"    equity  {rng.choice(notations(s, v, rng))} {op} {t}", f"    equity  {rng.choice(notations(None, D(0), rng))}",
                  f"    assets:p{k}"]
        exp[f"assets:p{k}"] = (None, -total)
    for _ in range(rng.randint(0, 4)):
        k += 1
        s = rng.choice(syms)
        v, put, take = [gen.mag(rng, ["int", "cents", "dec8", "round"]) for _ in range(3)]
        lines[0:0] = [f"account assets:e{k}", f"    {rng.choice(['goal', 'expense'])} env{k} {rng.choice(['no date', 'due every 5th'])}",
                      f"        amount {rng.choice(notations(s, v, rng))}"]
        lines += ["", "2020/03/03 ~ moves", f"    envelope assets:e{k} env{k}  {rng.choice(notations(s, put, rng))}",
                  f"    envelope assets:e{k} env{k}  {rng.choice(notations(s, -take, rng))}"]
        envs.append((f"assets:e{k}", f"env{k}", s, v, put, take))
    text = "\n".join(lines) + "\n"
    box.write("j.sfox", text)
    ctx.sig(text)
    ctx.n["notations_tried"] += len(hist)
    ctx.n["currencies_used"] += len(syms)
    ctx.sample(text[:1500])
    out = box.ok(["b", "-n", "-f", "j.sfox"], today=today).out
    shown = outp.parse_balance(out)
    byval = {}
    for a, (s, v) in exp.items():
        got = {x: y for x, y in shown.get(a, {}).items() if y != 0 or x == s}
        exact = abs(v) * 10**8 < 2**52 and not a.startswith("assets:p")   # a product of two numbers is rounded
        if exact and got != {s: Fraction(v)} or set(got) != {s} or abs(got[s] - Fraction(v)) > outp.tol(abs(Fraction(v))):
            raise Violation("an amount is not shown with its value and currency", account=a, expected=[str(v), s],
                            shown={str(x): str(float(y)) for x, y in got.items()}, journal=[t for b, _, _, t in hist if b == a])
        line = [x for x in out.split("\n") if x.split()[:1] == [a]][0]
        if byval.setdefault((s, v), line[len(a):].strip()) != line[len(a):].strip():
            raise Violation("the same amount written in two ways is shown differently", account=a)
        ctx.n["amounts_compared"] += 1
    for s, v in box_tot.items():
        g = shown.get("assets:box", {}).get(s, Fraction(0))
        if not outp.close(g, v, sum(abs(Fraction(x)) for _, (t, x) in exp.items() if t == s)):
            raise Violation("amounts of one currency do not sum up by themselves", currency=s, shown=float(g), expected=float(v))
    if set(shown.get("assets:box", {})) - set(box_tot):
        raise Violation("a currency appears that was never posted", currencies=[str(x) for x in shown["assets:box"]])
    rows = outp.parse_register(box.ok(["r", "-n", "-f", "j.sfox"], today=today).out)
    cnt = Counter()
    for head, to, amts in rows:
        for c, _, s in amts:
            cnt[s] += 1
            if s not in set(syms) | {None}:
                raise Violation("register: a currency that was never written", currency=s, row=head)
    if envs:
        rep = outp.parse_envelopes(box.ok(["e", "-n", "-f", "j.sfox"], today=today).out)
        for a, n, s, v, put, take in envs:
            g = rep.get(a, {}).get("envs", {}).get(n)
            if g is None:
                raise Violation("an envelope is missing from the report", account=a, envelope=n)
            if g["tsym"] != s or g["sym"] != s or g["target"] != Fraction(v):
                raise Violation("an envelope's target is not what was written", envelope=n, expected=[str(v), s], shown=[float(g["target"]), g["tsym"]])
            if not outp.close(g["now"] + g["next"], Fraction(put - take), put + take):
                raise Violation("envelope postings do not add up", envelope=n, shown=float(g["now"] + g["next"]), expected=str(put - take))
            av = {x: y for x, y in rep[a]["available"].items() if not outp.close(y, Fraction(0), put + take)}
            w = {s: Fraction(take - put)} if put != take else {}
            if set(av) != set(w) or any(not outp.close(av[x], w[x], put + take) for x in w):
                raise Violation("envelope money shows up in the wrong currency", envelope=n, shown={str(x): float(y) for x, y in av.items()})
            ctx.n["amounts_compared"] += 2


# ---------------------------------------------------------------- C16
@check("C16", (30000, 360000), "one case = a journal with out-of-order, equal-dated, multi-currency and envelope transactions whose register was compared row by row "
       "with the model and with the balance report; distinct = distinct journal text and date")
def c16(ctx, rng, box):
    opt = Opt(entries=rng.choice([(1, 8), (4, 25), (20, 60)]), envelopes=(0, 3), syms=rng.choice([(0, 0), (0, 3), (2, 5)]),
              span=rng.choice([(-5, 1), (-40, 40), (-500, 40), (-9000, 9000)]) if True else None, big=1 if rng.random() < 0.01 else 0, crowd=0.02)
    ctx.n["big_journals"] += opt.big
    today = today_pool(rng, 2005, 2120) if opt.span[0] < -1000 else None
    w, j, today = start(ctx, rng, box, opt, today=today)
    if rng.random() < 0.4 and w.envs():
        box.ok(["b", "-f", "j.sfox"], today=today)
        j.tail()
    r = box.ok(["r", "-n", "-f", "j.sfox"], today=today, cols=rng.choice([20, 80, 120, 300]))
    rows = cmp_register(ctx, r.out, j.items, j.fmt)
    bal = outp.parse_balance(box.ok(["b", "-n", "-f", "j.sfox"], today=today).out)
    last, tot, scale = {}, {}, {}
    for _, _, amts in rows:
        for _, run, s in amts:
            last[s] = run
    for a, pool in bal.items():
        if a.startswith("asset"):
            for s, v in pool.items():
                model.add(tot, s, v)
    for e in split(j.items)[1]:
        for p, v, s in model.resolved(e):
            if p.account.startswith("asset"):
                model.add(scale, s, model.post_scale(e, p, v))
    for s in set(last) | set(tot):
        a, b = last.get(s, Fraction(0)), tot.get(s, Fraction(0))
        if abs(a - b) > outp.tol(2 * scale.get(s, 0)) * (1 + len(bal)):
            raise Violation("the last running total is not the sum of the asset accounts", currency=s, register=float(a), balance=float(b))


# ---------------------------------------------------------------- C17
@check("C17", (12500, 150000), "one case = one journal rendered plainly and in several decorated layouts (comments, blank lines, indentation, spacing, line endings); "
       "all reports and movements compared; or an import with decorated rules; distinct = distinct decorated text")
def c17(ctx, rng, box):
    if rng.random() < 0.3:
        from .checks_import import layout_case
        return layout_case(ctx, rng, box)
    today = today_pool(rng)
    asserting = rng.random() < 0.3
    opt = Opt(envelopes=(0, 5), entries=(1, 10), funded=0.8)
    if asserting:
        opt.mags = ("int", "cents", "round")      # (sums of these are far from the limits of floating-point numbers)
    w = World(rng, today, opt)
    items = w.items()
    if asserting:
        add_true_assertions(rng, items, 0.3)
    seed = rng.random()
    plain, fmt = render(items, Style(random.Random(seed)))
    plain0 = plain
    ctx.sig(plain)
    res = observe(box, plain, fmt, today)
    invalid = rng.random() < 0.15
    if invalid:
        # rejection must not depend on layout either
        items = list(items)
        items.insert(rng.randint(0, len(items)), Entry(today, rng.choice("?~*"), "bad", None, [Post(w.names[0], Amt(D(1))), Post("undeclared:account", Amt(D(-1)))]))
        plain, fmt = render(items, Style(random.Random(seed)))
        res = observe(box, plain, fmt, today, ok=False)
    for i in range(3):
        st = Style(random.Random(f"{seed}{i}"), False, rng.choice([0.1, 0.25, 0.5]), rng.random() < 0.3, rng.random() < 0.6)
        text, _ = render(items, st)
        if i == 2 and not invalid:
            # decorate the plain text line by line instead
            text = decorate(rng, plain)
        ctx.sig(text)
        ctx.n["decorated_texts"] += 1
        got = observe(box, text, fmt, today, ok=not invalid)
        for k in res:
            same = compare_obs(k, res[k], got[k], 0 if invalid else journal_scale(items))
            if not same:
                raise Violation(f"comments or layout changed the result of `{k}`", plain=str(res[k])[-1500:], decorated=str(got[k])[-1500:], decorated_journal=text[:3000],
                                plain_journal=plain[:3000])
    ctx.sample(text[:1500])


def decorate(rng, text):
    out = []
    for line in text.split("\n"):
        while rng.random() < 0.25:
            out.append(rng.choice(["", "   ", "\t", *(x + c for x in ("", "    ", "\t") for c in gen.COMMENTS)]))
        if line.strip():
            k = rng.random()
            if k < 0.3:
                line += rng.choice([" ", "", "\t", "      "]) + rng.choice(gen.COMMENTS)
            elif k < 0.45:
                line += rng.choice(["  ", "\t", " "])
        elif rng.random() < 0.5:
            continue
        out.append(line)
    nl = rng.choice(["\n", "\n", "\r\n"])
    return nl.join(out)


def observe(box, text, fmt, today, ok=True):
    """everything a user can see of this journal on this day"""
    res = {}
    for cmd in ("b", "e", "r"):
        box.write("o.sfox", text)
        r = box.run([cmd, "-n", "-f", "o.sfox"], today=today)
        if r.panicked or bool(r.err) == ok:
            raise Violation("a journal was " + ("not accepted" if ok else "accepted that has to be rejected"), run=r.brief(), journal=text[:3000])
        res[cmd] = r.out
        if box.text("o.sfox") != box.read("o.sfox").decode() or box.read("o.sfox") != text.encode():
            raise Violation("a report with --no-move changed the journal", run=r.brief())
    box.write("o.sfox", text)
    r = box.run(["e", "-f", "o.sfox"], today=today)
    if r.panicked or bool(r.err) == ok:
        raise Violation("a journal was " + ("not accepted" if ok else "accepted that has to be rejected"), run=r.brief(), journal=text[:3000])
    data = box.read("o.sfox")
    if not data.startswith(text.encode()):
        raise Violation("the journal's previous content was changed", run=r.brief())
    es = outp.parse_written(data[len(text.encode()):].decode(), fmt)
    res["moves"] = sorted((e.date, e.status, e.desc, sorted(map(repr, e.posts))) for e in es)
    res["e after moves"] = r.out
    return res


def journal_scale(items):
    """how large the sums are that can be behind a shown amount (bounds rounding errors)"""
    accts, body = model.split(items)
    tot = sum((model.post_scale(e, p, v) for e in body for p, v, _ in model.resolved(e)), Fraction(0)) \
        + sum((abs(p.amount.f) for e in body for p in e.envs()), Fraction(0)) + sum((e.amount.f for a in accts.values() for e in a.envelopes), Fraction(0))
    return tot * model.many(sum(len(e.posts) for e in body))


def near(a, b, scale):
    """two amounts, both as shown (each was rounded on its own)"""
    return abs(a - b) <= 2 * outp.tol(scale)


def approx_pools(a, b, scale):
    return all(near(a.get(s, Fraction(0)), b.get(s, Fraction(0)), scale) for s in set(a) | set(b))


def compare_obs(k, a, b, scale, reordered=False):
    """do two observations of the same kind show the same?"""
    if a == b:
        return True
    if k == "b":
        x, y = outp.parse_balance(a), outp.parse_balance(b)
        return list(x) == list(y) and all(approx_pools(x[n], y[n], scale) for n in x)
    if k.startswith("e"):
        x, y = outp.parse_envelopes(a), outp.parse_envelopes(b)
        return list(x) == list(y) and all(
            approx_pools(x[n]["available"], y[n]["available"], scale) and list(x[n]["envs"]) == list(y[n]["envs"])
            and all(all(x[n]["envs"][m][f] == y[n]["envs"][m][f] for f in ("type", "due", "sym", "tsym", "target"))
                    and all(near(x[n]["envs"][m][f], y[n]["envs"][m][f], scale) for f in ("now", "next")) for m in x[n]["envs"]) for n in x)
    if k == "moves":
        x, y = moves_map(a), moves_map(b)
        return (not a or not b or [m[:3] for m in a] == [m[:3] for m in b]) and all(near(x.get(q, Fraction(0)), y.get(q, Fraction(0)), scale) for q in set(x) | set(y))
    x, y = outp.parse_register(a), outp.parse_register(b)
    if reordered:
        return reg_key(x) == reg_key(y)
    vals = lambda r: {s: c for c, _, s in r[2]}
    runs = lambda r: {s: c for _, c, s in r[2]}
    return len(x) == len(y) and all(p[0].split() == q[0].split() and p[1] == q[1] and approx_pools(vals(p), vals(q), scale) and set(runs(p)) == set(runs(q))
                                    and approx_pools(runs(p), runs(q), scale) for p, q in zip(x, y))


# ---------------------------------------------------------------- C20
@check("C20", (5500, 66000), "one case = one journal run repeatedly and with its transactions / account definitions permuted; reports and movements compared as "
       "values; distinct = distinct permuted text")
def c20(ctx, rng, box):
    today = today_pool(rng)
    w = World(rng, today, Opt(envelopes=(0, 8), entries=(2, 18), funded=0.85, late=0, redefine=0, kinds=Opt.kinds + (("income", 0),)))
    accts = list(w.accounts.values())
    head = [DateFmt(w.fmt)]
    body = list(w.entries)
    scale = journal_scale(accts + body)
    style = lambda: Style(random.Random(1))
    text, fmt = render(head + accts + body, style())
    ctx.sample(text[:1500])
    base = observe(box, text, fmt, today)
    # the same again
    for _ in range(2):
        ctx.n["repetitions"] += 1
        again = observe(box, text, fmt, today)
        for k in base:
            if base[k] != again[k] if k != "moves" else not compare_obs(k, base[k], again[k], scale):
                raise Violation(f"running the same command again on the same files gave something else (`{k}`)", first=str(base[k])[-1500:], second=str(again[k])[-1500:], journal=text[:3000])
    for _ in range(4):
        a2, b2 = list(accts), list(body)
        mode = rng.choice(["entries", "accounts", "both", "reverse", "sorted"])
        if mode in ("accounts", "both"):
            rng.shuffle(a2)
        if mode in ("entries", "both"):
            rng.shuffle(b2)
        if mode == "reverse":
            b2.reverse()
        if mode == "sorted":
            b2.sort(key=lambda e: e.date)
        t2, _ = render(head + a2 + b2, style())
        ctx.sig(t2)
        ctx.n["permutations"] += 1
        got = observe(box, t2, fmt, today)
        det = dict(order=mode, journal=text[:3000], permuted=t2[:3000])
        for k, what in (("b", "the balance report"), ("e", "the envelopes report"), ("e after moves", "the envelopes report"), ("moves", "the automatic movements"),
                        ("r", "the register beyond transactions of the same date")):
            if not compare_obs(k, base[k], got[k], scale, reordered=True):
                raise Violation(f"reordering changed {what}", first=str(base[k])[-2500:], second=str(got[k])[-2500:], **det)


def moves_map(moves):
    import re as _re
    res = {}
    for _, _, _, posts in moves:
        for p in posts:
            q = eval(p, {"Post": Post, "Amt": Amt, "Decimal": D})
            res[q.account, q.envelope, q.amount.sym] = res.get((q.account, q.envelope, q.amount.sym), Fraction(0)) + q.amount.f
    return res


def reg_key(rows):
    """dates in order, and per date the multiset of rows without running totals (rounded)"""
    by, order = {}, []
    for head, to, amts in rows:
        d = head.split()[0]
        if d not in by:
            order.append(d)
        by.setdefault(d, []).append((tuple(head.split()), to, tuple(sorted((str(s), round(float(c), 2 if abs(c) > 10**6 else 6) + 0.0) for c, _, s in amts))))
    return [(d, sorted(by[d])) for d in order]


# ---------------------------------------------------------------- C21
def add_true_assertions(rng, items, p=0.5):
    """put true assertions on postings, in journal order; returns the places"""
    bal, places = {}, []
    for it in items:
        if not isinstance(it, Entry):
            continue
        vals = {id(q): (v, s) for q, v, s in model.resolved(it)}
        for q in it.posts:
            if q.is_env:
                continue
            v, s = vals[id(q)]
            model.add(bal.setdefault(q.account, {}), s, v)
            if rng.random() < p:
                pool = bal[q.account]
                s2 = rng.choice(list(pool)) if rng.random() < 0.3 else s
                x = pool[s2]
                dec = D(x.numerator) / D(x.denominator)
                if Fraction(dec) != x or -dec.as_tuple().exponent > 8:
                    continue
                dec = dec + D(0)
                # an assertion without a symbol is in the posting's own currency
                sym = s2
                if s2 is None and s is not None:
                    continue
                if s2 == s and rng.random() < 0.4:
                    sym = None
                q.assertion = Amt(dec, sym)
                places.append((it, q, s2))
    return places


@check("C21", (10000, 120000), "one case = a journal with true assertions (accepted, reports unchanged) and the same journal with one of them made false by a "
       "varied amount (rejected, nothing written); distinct = distinct journal text")
def c21(ctx, rng, box):
    today = today_pool(rng)
    opt = Opt(entries=rng.choice([(1, 6), (3, 20)]), envelopes=(0, 4), funded=0.9, syms=rng.choice([(0, 0), (0, 2), (1, 4)]),
              mags=("int", "cents", "dec8", "round", "tiny"))
    w = World(rng, today, opt)
    items = w.items()
    style = Style.pick(rng)
    style.fancy = min(style.fancy, 0.1)
    seed = rng.random()
    style.rng = random.Random(seed)
    bare, fmt = render(items, style)
    places = add_true_assertions(rng, items, rng.choice([0.1, 0.4, 0.9]))
    style.rng = random.Random(seed)
    text, fmt = render(items, style)
    ctx.sig(text)
    ctx.n["true_assertions"] += len(places)
    ctx.sample(text[:1500])
    a = observe(box, bare, fmt, today)
    b = observe(box, text, fmt, today)
    for k in a:
        if not compare_obs(k, a[k], b[k], journal_scale(items)):
            raise Violation(f"true assertions changed the result of `{k}`", without=str(a[k])[-1500:], with_=str(b[k])[-1500:], journal=text[:3000])
    if not places:
        return
    for _ in range(3):
        it, q, s = rng.choice(places)
        old = q.assertion
        k = rng.random()
        scale = max(abs(old.mag), D(1))
        if k < 0.2:
            wrong = old.mag + rng.choice([1, -1]) * D("0.000001") * scale
        elif k < 0.45:
            wrong = old.mag + rng.choice([1, -1]) * D("0.01") * (1 if scale < 10**6 else scale)
        elif k < 0.6 and old.mag != 0:
            wrong = -old.mag
        elif k < 0.7 and old.mag != 0:
            wrong = D(0)
        else:
            wrong = old.mag + rng.choice([1, -1]) * gen.mag(rng, ["int", "cents"])
        wrong = wrong.quantize(D(1).scaleb(-8))
        if abs(wrong - old.mag) <= D("0.0000005") * scale:
            q.assertion = old
            continue
        q.assertion = Amt(wrong, old.sym)
        style.rng = random.Random(seed)
        bad, _ = render(items, style)
        q.assertion = old
        ctx.sig(bad)
        ctx.n["false_assertions"] += 1
        box.write("bad.sfox", bad)
        for args in (["b"], ["e"], ["r"], ["b", "-n"]):
            r = box.run(args + ["-f", "bad.sfox"], today=today)
            if r.panicked:
                raise Violation("the program crashed on a false assertion", run=r.brief())
            if not r.err or r.out.strip() or box.read("bad.sfox") != bad.encode():
                raise Violation("a false balance assertion was not rejected", asserted=str(wrong), actual=str(old.mag), symbol=s, account=q.account, run=r.brief(), journal=bad[:3000])
