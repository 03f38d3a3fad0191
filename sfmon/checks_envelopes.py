"""Envelopes: funding, due dates, now/next, inference, conservation."""
from __future__ import annotations
import datetime as dt
import os
import random
from dataclasses import replace
from decimal import Decimal as D
from fractions import Fraction
from zoneinfo import ZoneInfo

from . import gen, model, outp
from .checks_reports import journal_scale, start
from .common import Journal, auto_entries, check_moves, cmp_balance, cmp_envelopes
from .core import Violation, epoch
from .gen import Opt, Style, World, make_sched, render, today_pool
from .model import Account, Amt, DateFmt, Entry, Envelope, Post, Sched, split
from .props import check

DAY = dt.timedelta(days=1)
FUND = Opt(big=0.006, crowd=0.008, envelopes=(1, 6), funded=0.85, accounts=(2, 6), entries=(1, 8), syms=(0, 2), span=(-120, 0), mags=("int", "cents", "dec8", "round", "tiny"),
           schedkinds=("weekly", "biweekly", "monthly", "bimonthly", "yearly", "once", "once", "never", "monthly"))


def income(w, rng, acct=None, date=None, rich=None):
    """money arrives in the account of an envelope, in the envelope's currency"""
    ev = w.envs()
    if not ev:
        return None
    acct2, env = rng.choice(ev)
    acct = acct or acct2
    need = sum((e.amount.mag for a, e in ev if a == acct and e.amount.sym == env.amount.sym), D(0))
    k = rng.random() if rich is None else (0.9 if rich else 0.2)
    if k < 0.35:
        m = (need * D(rng.choice(["0.1", "0.5", "0.9", "0.01"]))).quantize(D(1).scaleb(-8))
    elif k < 0.5:
        m = need
    elif k < 0.6:
        m = gen.mag(rng, w.classes)
    else:
        m = need * rng.choice([1, 2, 3, 50])
    if m == 0:
        m = D(1)
    if rich is None and rng.random() < 0.12:
        m = -m
    other = rng.choice([n for n in w.names if n != acct])
    x = Amt(m, env.amount.sym)
    e = Entry(date or w.date(), rng.choice("?~*"), "income", None, [Post(acct, x), Post(other, x.neg())])
    if rng.random() < 0.3:
        e.posts[1].amount = None
    rng.shuffle(e.posts)
    # keep linked envelopes out of it when that would be ambiguous
    return e if w.acceptable(e) else None


def fund_world(ctx, rng, box, opt=FUND, rich=None, style=None, today=None):
    def tweak(w):
        for _ in range(rng.randint(1, 4)):
            e = income(w, rng, rich=rich)
            if e:
                w.entries.insert(rng.randint(0, len(w.entries)), e)
    return start(ctx, rng, box, opt, tweak=tweak, style=style, today=today)


def user_edit(ctx, w, j, rng, today, kinds=None, date=None):
    """the user adds one or two transactions"""
    new = []
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.random()
        d = date or (today if k < 0.35 else today - DAY * rng.randint(1, 60) if k < 0.75 else today + DAY * rng.randint(1, 40))
        e = income(w, rng, date=d) if rng.random() < 0.3 else None
        if e is not None:
            w.entries.append(e)
        else:
            e = w.add_entry(kinds, d)
        if e:
            new.append(e)
    if new:
        text, _ = render(new, Style.pick(rng), j.fmt)
        j.append("\n" + text, new)
        ctx.n["user_edits"] += 1
    return new


def moved_day(ctx, box, j, rng, day, cmd=None, amounts=True, **kw):
    pre = list(j.items)
    cmd = cmd or rng.choice(["b", "e", "r"])
    r = box.ok([cmd, "-f", j.rel], today=day, **kw)
    posts = auto_entries(ctx, j.tail(), day)
    st = check_moves(ctx, pre, day, posts, amounts)
    return posts, st, r


@check("C09", (10000, 120000), "one case = a history of runs on successive days over a journal with funded, manual, expired and dateless envelopes and scarce money; every "
       "automatic posting is checked against the model's available balance, target and schedule; distinct = distinct journal and start date")
def c09(ctx, rng, box):
    w, j, today = fund_world(ctx, rng, box, rich=rng.choice([None, None, False]))
    day = today
    for i in range(rng.randint(2, 6)):
        posts, st, _ = moved_day(ctx, box, j, rng, day, amounts=False)
        ctx.n["days"] += 1
        before = model.balances(split(j.items)[1])[0]
        out = box.ok(["b", "-n", "-f", j.rel], today=day).out
        cmp_balance(ctx, out, j.items, "balance report after an automatic movement")
        # what the report itself says: nothing negative because of us, nothing above target because of us
        rep = outp.parse_envelopes(box.ok(["e", "-n", "-f", j.rel], today=day).out)
        for p in posts:
            a = rep[p.account]["available"].get(p.amount.sym, Fraction(0))
            if a < -outp.tol(st.avail_scale(p.account, p.amount.sym) * 2) * 2:
                raise Violation("the account is overdrawn after an automatic movement", account=p.account, available=float(a), moved=str(p.amount), today=str(day))
        if rng.random() < 0.5:
            user_edit(ctx, w, j, rng, day)
        day += DAY * rng.choice([0, 1, 1, 1, 2, 7, 30])


BEFORE = (("linked", 5), ("manual", 1), ("pureenv", 1), ("simple", 2), ("blank", 1))


@check("C10", (4500, 54000), "one case = a history of daily runs; each movement is compared with the funding rule, and envelopes with enough money are followed to their due "
       "date (full the day before, not earlier); distinct = distinct journal and start date")
def c10(ctx, rng, box):
    if rng.random() < 0.5:
        w, j, today = fund_world(ctx, rng, box, rich=rng.choice([None, True, False]))
        day = today
        for i in range(rng.randint(2, 8)):
            if rng.random() < 0.3:                     # transactions of the day, before its first run
                user_edit(ctx, w, j, rng, day, kinds=BEFORE, date=day)
            moved_day(ctx, box, j, rng, day)
            ctx.n["days"] += 1
            if rng.random() < 0.35:
                user_edit(ctx, w, j, rng, day)
            day += DAY * rng.choice([0, 1, 1, 1, 1, 2, 5, 14])
        return
    # just in time: enough money, daily runs, one full period
    opt = replace(FUND, entries=(0, 0), schedkinds=("weekly", "biweekly", "monthly", "once", "yearly", "bimonthly"), funded=1.0,
                  mags=("int", "cents", "round"), syms=(0, 1), redefine=0)
    today = today_pool(rng)
    w = World(rng, today, opt)
    w.entries = []
    for a, env in w.envs():
        env.fors = []
        w.entries.append(Entry(today - DAY * rng.randint(0, 3), "*", "plenty", None, [Post(a, Amt(env.amount.mag * 50, env.amount.sym)),
                               Post("equity:plenty", Amt(env.amount.mag * -50, env.amount.sym))]))
    w.accounts["equity:plenty"] = Account("equity:plenty")
    items = w.items()
    text, fmt = render(items, Style.pick(rng))
    j = Journal(box, "j.sfox", items, text, fmt)
    ctx.sig(text, str(today))
    ctx.sample(dict(today=str(today), journal=text[:1200]))
    day = today
    limit = rng.randint(8, 40)
    filled = {}
    for i in range(limit):
        posts, st, _ = moved_day(ctx, box, j, rng, day)
        ctx.n["days"] += 1
        rep = outp.parse_envelopes(box.ok(["e", "-n", "-f", j.rel], today=day).out)
        for (a, n), s in st.envs.items():
            if s.due is None:
                continue
            g = rep[a]["envs"][n]
            full = outp.close(g["next"], s.env.amount.f, s.env.amount.f * 40)
            left = (s.due - day).days
            who = dict(account=a, envelope=n, today=str(day), due=str(s.due), saved=float(g["next"]), target=float(s.env.amount.f), funding=s.env.funding)
            key = (a, n, s.due)
            if s.env.funding == "aggressive" and not full:
                raise Violation("an aggressive envelope is not full although there is enough money", **who)
            if s.env.funding == "conservative":
                if left == 1 and not full:
                    raise Violation("a conservative envelope is not full on the day before its due date", **who)
                if left > 1 and full and s.env.amount.f > Fraction(1, 10**3):
                    raise Violation("a conservative envelope is full before the day before its due date", **who)
                if left == 1:
                    ctx.n["just_in_time_reached"] += 1
        day += DAY


ZONES = ["UTC", "Pacific/Kiritimati", "Pacific/Pago_Pago", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Europe/London"]


def zones():
    return [z for z in ZONES if os.path.exists("/usr/share/zoneinfo/" + z)] or ["UTC"]


def local_day(now, tz):
    return dt.datetime.fromtimestamp(now, ZoneInfo(tz)).date() if tz != "UTC" else dt.datetime.fromtimestamp(now, dt.timezone.utc).date()


@check("C11", (11250, 135000), "one case = a schedule of runs (any command, several per day, near midnight, in various time zones) interleaved with user edits dated today, before "
       "and after; every movement is checked against the transactions of that day; distinct = distinct journal, clock and zone")
def c11(ctx, rng, box):
    w, j, today = fund_world(ctx, rng, box, rich=rng.choice([None, True]))
    tz = rng.choice(zones())
    now = epoch(today, rng.choice([0, 3, 10, 12, 14, 23]), rng.choice([0, 1, 30, 59]))
    moved = {}
    edited = True
    last_day = None
    for i in range(rng.randint(5, 14)):
        day = local_day(now, tz)
        if last_day != day and rng.random() < 0.3:     # transactions of the day, before its first run
            user_edit(ctx, w, j, rng, day, kinds=BEFORE, date=day)
            edited = True
        cmd = rng.choice(["b", "e", "r", "balance", "envelopes", "reg", "i"])
        pre, before = list(j.items), j.data
        if cmd == "i":
            r = box.run(["i", "-f", j.rel, "--csv", "none.csv"], now=now, tz=tz)   # fails after moving
        else:
            r = box.ok([cmd, "-f", j.rel], now=now, tz=tz)
        posts = auto_entries(ctx, j.tail(), day)
        # used-up money can leave a rounding remainder behind when sums approach the precision of the numbers used
        eps = 2 * outp.tol(journal_scale(pre))
        dust = eps > Fraction(5, 10**8) and bool(posts) and all(abs(p.amount.f) <= eps for p in posts)
        if not edited and last_day == day and j.data != before and not dust:
            raise Violation("a repeated run on the same day without new transactions changed the journal", today=str(day), added=j.data[len(before):].decode())
        check_moves(ctx, pre, day, posts, amounts=False)
        for p in posts:
            k = (day, p.account, p.envelope)
            moved[k] = moved.get(k, 0) + 1
            if moved[k] > 1 and not dust:
                raise Violation("an envelope received two automatic movements on one day", day=str(day), account=p.account, envelope=p.envelope)
        ctx.n["runs_in_schedule"] += 1
        ctx.sig(j.data, now, tz)
        edited = False
        last_day = day
        k = rng.random()
        if k < 0.4:
            if user_edit(ctx, w, j, rng, day, kinds=(("linked", 3), ("manual", 2), ("pureenv", 3), ("simple", 1), ("blank", 1))):
                edited = True
        k = rng.random()
        if k < 0.45:
            now += rng.choice([1, 60, 3600, 7200, 4 * 3600])
        elif k < 0.85:
            now += rng.choice([24 * 3600, 24 * 3600, 23 * 3600 + 3599, 12 * 3600, 3 * 24 * 3600])
        if rng.random() < 0.1:
            tz = rng.choice(zones())


# ---------------------------------------------------------------- C12
@check("C12", (2750, 33000), "one case = a journal of 20-40 envelopes with random schedules, reported on many days (around due dates, month ends, leap days, in various time "
       "zones); each shown date compared with a day-by-day calendar scan; distinct = distinct (schedule, starting date, today)")
def c12(ctx, rng, box):
    today = today_pool(rng, 1972, 2190)
    envs = []
    fmt = rng.choice(gen.FMTS)
    acct = Account("assets:a")
    kinds = ("weekly", "biweekly", "monthly", "bimonthly", "yearly", "once", "never")
    for i in range(rng.randint(20, 40)):
        sched, starting = make_sched(rng, today, kinds if rng.random() < 0.8 else (rng.choice(kinds),))
        envs.append(Envelope(rng.choice(["expense", "goal"]), f"e{i}", sched, Amt(D(100)), [], rng.choice([None, "manual", "aggressive", "conservative"]), starting))
    acct.envelopes = envs
    items = [DateFmt(fmt), acct, Account("equity")]
    text, fmt = render(items, Style.pick(rng))
    j = Journal(box, "j.sfox", items, text, fmt)
    ctx.sample(dict(today=str(today), journal=text[:1500]))
    days = {today, today + DAY, today - DAY}
    for e in rng.sample(envs, 4):
        d = model.next_due(e.sched, e.starting, today)
        if d:
            days |= {d - DAY, d, d + DAY} if rng.random() < 0.5 else {rng.choice([d - DAY, d, d + DAY])}
        if e.starting:
            days.add(e.starting + DAY * rng.choice([-1, 0, 1]))
    y = today.year + rng.randint(-1, 5)
    days |= {dt.date(y, 2, 28), dt.date(y, 3, 1), dt.date(y, 12, 31), dt.date(y, 1, rng.randint(28, 31)), today + DAY * rng.randint(1, 900)}
    if y % 4 == 0 and (y % 100 or y % 400 == 0):
        days.add(dt.date(y, 2, 29))
    for day in sorted(days):
        if not dt.date(1970, 1, 3) <= day <= dt.date(2199, 12, 30):
            continue
        tz = rng.choice(zones()) if rng.random() < 0.3 else "UTC"
        now = epoch(day, rng.choice([0, 5, 12, 18, 23]), rng.choice([0, 30, 59]))
        d = local_day(now, tz)
        r = box.ok(["e", "-n", "-f", "j.sfox"], now=now, tz=tz)
        cmp_envelopes(ctx, r.out, items, d, due=True, split_=False, totals=False, available=False, targets=False)
        for e in envs:
            ctx.sig(e.sched, e.starting, d)


# ---------------------------------------------------------------- C13
@check("C13", (8750, 105000), "one case = a journal of envelope movements and linked spending reported on many days around due dates; now and next compared with the model; "
       "distinct = distinct journal and day")
def c13(ctx, rng, box):
    opt = Opt(envelopes=(1, 6), entries=(4, 22), span=rng.choice([(-80, 20), (-500, 60), (-1500, 200)]), syms=(0, 1), accounts=(2, 6), funded=rng.choice([0.2, 0.8]),
              kinds=(("pureenv", 5), ("manual", 3), ("linked", 5), ("simple", 1), ("blank", 1)), redefine=0.05,
              schedkinds=rng.choice([Opt.schedkinds, ("monthly",), ("bimonthly", "biweekly"), ("yearly",), ("weekly", "monthly", "once")]))
    w, j, today = start(ctx, rng, box, opt)
    days = {today}
    for a, e in w.envs():
        for d in (model.next_due(e.sched, e.starting, today), model.last_due(e.sched, e.starting, today), e.starting):
            if d:
                days |= {d + DAY * k for k in rng.sample([-1, 0, 1], 2)}
    for e in w.entries:
        if rng.random() < 0.3:
            days.add(e.date + DAY * rng.choice([0, 1]))
    days = [d for d in days if dt.date(1970, 1, 3) <= d <= dt.date(2199, 12, 30)]
    for day in rng.sample(days, min(len(days), 7)):
        r = box.ok(["e", "-n", "-f", "j.sfox"], today=day)
        cmp_envelopes(ctx, r.out, j.items, day, due=False, available=False, targets=False)
        ctx.sig(j.data, str(day))
    if rng.random() < 0.5:
        day = today
        for _ in range(rng.randint(2, 8)):
            r = box.ok(["e", "-f", "j.sfox"], today=day)
            j.tail()
            cmp_envelopes(ctx, r.out, j.items, day, due=False, available=False, targets=False)
            day += DAY * rng.choice([1, 1, 3, 10])


# ---------------------------------------------------------------- C14
@check("C14", (22500, 270000), "one case = transactions of every shape around linked accounts (several linked accounts, several envelopes sharing one, refunds, splits, omitted and "
       "priced amounts) and manual envelope postings; every envelope's change compared with the model; distinct = distinct journal")
def c14(ctx, rng, box):
    opt = Opt(envelopes=(1, 7), entries=(2, 10), accounts=(3, 7), syms=rng.choice([(0, 0), (0, 1), (1, 2)]), funded=0.1,
              kinds=(("linked", 8), ("manual", 3), ("simple", 3), ("multi", 3), ("blank", 4), ("mixedblank", 2), ("exchange", 1), ("pureenv", 1)))
    w, j, today = start(ctx, rng, box, opt)
    r = box.ok(["e", "-n", "-f", "j.sfox"], today=today)
    cmp_envelopes(ctx, r.out, j.items, today, due=False, split_=False, available=False, targets=False)
    # one transaction more: the report may change only where the model says
    base = outp.parse_envelopes(r.out)
    for _ in range(3):
        n0 = len(w.entries)
        e = w.add_entry(date=today - DAY * rng.randint(0, 200))
        if e is None:
            continue
        text, _ = render([e], Style.pick(rng), j.fmt)
        j.append("\n" + text, [e])
        ctx.sig(j.data)
        ctx.n["single_steps"] += 1
        rep = outp.parse_envelopes(box.ok(["e", "-n", "-f", "j.sfox"], today=today).out)
        for a, env in w.envs():
            x, y = base[a]["envs"][env.name], rep[a]["envs"][env.name]
            ch = model.envelope_change(a, env, e)
            st = sum((abs(p.amount.f) + abs(model.native_value(p) or 0) for q in w.entries for p in q.posts if p.amount is not None), Fraction(0))
            got = (y["now"] + y["next"]) - (x["now"] + x["next"])
            if not outp.close(got, sum(ch, Fraction(0)), 2 * st):
                raise Violation("a transaction changed an envelope by the wrong amount", account=a, envelope=env.name, linked=env.fors,
                                changed=float(got), expected=float(sum(ch, Fraction(0))), transaction=text)
            if ch:
                ctx.n["changes_observed"] += 1
        base = rep
    # money in a currency that the envelope cannot have anything to do with is not guessed at
    a, env = rng.choice(list(w.envs()))
    s, n = env.amount.sym, rng.choice([1, 2])
    other = rng.choice([x for x in (None, "ZZ", "QQQ", "$", "XAU", "BTC") if x != s])
    x = Amt(abs(w.env_mag(env)), other)
    date = today - DAY * rng.randint(0, 200)
    if env.fors and rng.random() < 0.6:
        posts = [Post(a, x.neg()), Post(rng.choice(env.fors), x)]
        if rng.random() < 0.3:
            posts[rng.randint(0, 1)].amount = None
    else:
        posts = [Post(a, x, envelope=env.name)]
        if rng.random() < 0.5:
            y = w.amount()
            posts += [Post(rng.choice(w.names), y), Post(rng.choice(w.names), y.neg())]
    rng.shuffle(posts)
    e = Entry(date, rng.choice("?~*"), "wrong currency", None, posts)
    try:
        model.envelope_change(a, env, e)
    except model.Reject:
        text, _ = render([e], Style.pick(rng), j.fmt)
        j.append("\n" + text, [e])
        cmd = [rng.choice("ber")] + rng.choice([[], ["-n"]])
        r = box.run(cmd + ["-f", j.rel], today=today)
        ctx.n["unconvertible"] += 1
        if r.panicked or r.out or not r.err.strip() or box.read(j.rel) != j.data:
            raise Violation("money that cannot be converted to the currency of the envelope concerned was not answered with an error alone", run=r.brief(), transaction=text,
                            journal_changed=box.read(j.rel) != j.data)
    except model.Ambiguous:
        pass


# ---------------------------------------------------------------- C15
@check("C15", (15000, 180000), "one case = a history of runs and edits; after each step the envelopes report is added up and compared with the balance report, account by account "
       "and currency by currency (no model involved); distinct = distinct journal and day")
def c15(ctx, rng, box):
    opt = replace(Opt(), envelopes=(1, 8), entries=(1, 14), funded=0.7, syms=rng.choice([(0, 1), (1, 4)]))
    w, j, today = start(ctx, rng, box, opt)
    day = today
    prev = None
    for i in range(rng.randint(1, 4)):
        scale = sum((abs(p.amount.f) for e in split(j.items)[1] for p in e.posts if p.amount is not None), Fraction(0))
        scale += sum((model.post_scale(e, p, v) for e in split(j.items)[1] for p, v, _ in model.resolved(e)), Fraction(0))
        flag = rng.choice([["-n"], []])
        out = box.ok(["e"] + flag + ["-f", "j.sfox"], today=day).out
        es = j.tail()
        rep = outp.parse_envelopes(out)
        bal = outp.parse_balance(box.ok(["b", "-n", "-f", "j.sfox"], today=day).out)
        scale += sum((abs(p.amount.f) for e in es for p in e.posts), Fraction(0))
        ctx.sig(j.data, str(day))
        for a, x in rep.items():
            tot = dict(x["available"])
            for g in x["envs"].values():
                model.add(tot, g["sym"], g["now"] + g["next"])
            real = bal.get(a, {})
            for s in set(tot) | set(real):
                ctx.n["sums_checked"] += 1
                if abs(tot.get(s, 0) - real.get(s, 0)) > outp.tol(scale) * (2 + 2 * len(x["envs"])):
                    raise Violation("available money plus envelopes is not the account's balance", account=a, currency=s, available_plus_envelopes=float(tot.get(s, 0)),
                                    balance=float(real.get(s, 0)), today=str(day), envelopes=out[-2500:])
        # a movement inside one account never shows in another
        ev = w.envs()
        if ev:
            a, env = rng.choice(ev)
            x = w.env_mag(env)
            e = Entry(day - DAY * rng.randint(0, 90), "*", "move", None, [Post(a, Amt(x, env.amount.sym), envelope=env.name)])
            text, _ = render([e], Style.pick(rng), j.fmt)
            before = outp.parse_envelopes(box.ok(["e", "-n", "-f", "j.sfox"], today=day).out)
            j.append("\n" + text, [e])
            after = outp.parse_envelopes(box.ok(["e", "-n", "-f", "j.sfox"], today=day).out)
            for o in before:
                if o != a and before[o] != after[o]:
                    raise Violation("money moved into one account's envelope shows in another account", moved_in=a, changed=o, transaction=text)
            d = {s: after[a]["available"].get(s, Fraction(0)) - before[a]["available"].get(s, Fraction(0)) for s in set(after[a]["available"]) | set(before[a]["available"])}
            for s, v in d.items():
                # (a difference of two amounts that are each shown rounded)
                if abs(v + (Fraction(x) if s == env.amount.sym else 0)) > 2 * outp.tol(2 * scale + abs(Fraction(x))):
                    raise Violation("an envelope movement changed the available amount wrongly", account=a, currency=s, change=float(v), moved=str(x))
            ctx.n["cross_account_checks"] += 1
        day += DAY * rng.choice([0, 1, 1, 9])
