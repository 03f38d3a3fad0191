"""Generators of journals (abstract values first, text second)."""
from __future__ import annotations
import calendar
from copy import deepcopy
import datetime as dt
import random
from dataclasses import dataclass, field
from decimal import Decimal
from fractions import Fraction

from .model import (Account, Amt, Ambiguous, DateFmt, Entry, Envelope, Post, Reject, Sched, WEEKDAYS, blank_amount, dim,
                    envelope_change, native_value, next_due, post_scale, resolved)

D = Decimal
SYMS = ["$", "€", "£", "¥", "₿", "kr", "zł", "A$", "US", "USD", "usd", "EUR", "BTC", "CAD", "AAPL", "円", "points", "#", "US$", "e"]
FMTS = ["%Y/%m/%d", "%Y-%m-%d", "%d.%m.%Y", "%m/%d/%Y", "%d-%b-%Y", "%Y%m%d", "%d/%m/%Y", "%Y.%j"]
LONGSYMS = ["Flugmeilen", "acme_shares_preferred", "ОченьДолгаяВалюта", "SHARESOFTHEACMECORPORATIONOFALASKA"]
LONG = "expenses:" + "a_very_long_account_name_" * 3 + "end"
ACCTS = ["assets:checking", "assets:savings", "assets:checking:joint", "assets:check", "asset", "assetsish:x", "assets:cash",
         "expenses:food", "expenses:food:out", "expenses:rent", "expenses:home:power", "expenses:foo", "expenses:dépenses:café",
         "income:salary", "income:gifts", "liabilities:visa", "equity", "Assets:upper", "my:assets:x", "expenses:unknown",
         "income:unknown", "unknown", "assets:brokerage_account_with_a_really_long_name_2024", LONG, "日本:食費", "a", "x2:y-z.w", "Assets:cash", "expenses:Food", "assets:cash:", "assets", "expenses"]
ENVN = ["food", "foo", "food2", "rent", "boat", "power", "été", "new_boat", "car", "x", "Food", "holiday",
        "a_really_long_envelope_name_that_does_not_fit_into_its_column_at_all", "食費", "taxes", "gifts", "phone", "gym", "misc"]
WORDS = ["Groceries", "rent", "café", "ATM", "-", "paycheck", "ÜBER", "12", "a", "50%", "x]", "R&D", "o'clock", "\"quoted\"", "=", "@home",
         "日本", "really-long-word-" * 3, "#1", "envelope", "account", "->", "*", "~", "!", "(none)", "1,000"]
# words that would make a register row ambiguous to read are used elsewhere only
PLAINWORDS = [w for w in WORDS if w != "->"]


def longtext(rng, most=400):
    """letters of one to four bytes, so that any position may be in the middle of one"""
    return "".join(rng.choice("aé日🦊" if rng.random() < 0.3 else "éж日") for _ in range(rng.randint(1, most)))


def today_pool(rng: random.Random, lo=1975, hi=2150):
    k = rng.random()
    if k < 0.55:
        y = rng.randint(2018, 2032)
    elif k < 0.8:
        y = rng.choice([1996, 1999, 2000, 2001, 2004, 2020, 2023, 2024, 2025, 2028])
    else:
        y = rng.randint(lo, hi)
    k = rng.random()
    if k < 0.3:
        m = rng.randint(1, 12)
        d = dim(y, m) - rng.choice([0, 0, 1, 2])
    elif k < 0.45:
        m, d = rng.randint(1, 12), rng.choice([1, 1, 2, 3])
    elif k < 0.55:
        m, d = 2, rng.randint(24, dim(y, 2))
    elif k < 0.65:
        m, d = rng.choice([(12, 31), (1, 1), (12, 30), (1, 31), (12, 25), (3, 1)])
    else:
        m = rng.randint(1, 12)
        d = rng.randint(1, dim(y, m))
    return dt.date(y, m, d)


def mag(rng, classes, positive=True):
    c = rng.choice(classes)
    if c == "int":
        v = D(rng.randint(1, 2000))
    elif c == "cents":
        v = D(rng.randint(1, 500000)) / 100
    elif c == "dec8":
        v = D(rng.randint(1, 10**11)).scaleb(-rng.randint(5, 8))
    elif c == "tiny":
        v = D(rng.randint(1, 99)).scaleb(-8)
    elif c == "big":
        v = D(rng.randint(10**7, 10**9)) / 100
    elif c == "huge":
        v = D(rng.randint(10**11, 10**14)) / 100
    elif c == "wide":
        k = rng.randint(3, 8)       # (as many digits as the numbers used can hold)
        v = D(rng.randint(10**6 * 10**k, 10**7 * 10**k)).scaleb(-k)
    elif c == "round":
        v = D(rng.choice([1, 10, 100, 1000, 5, 50, 250, 500, "0.1", "0.2", "0.3", "0.7"]))
    else:
        raise ValueError(c)
    return v if positive or rng.random() < 0.5 else -v


# ---------------------------------------------------------------- rendering
@dataclass
class Style:
    rng: random.Random
    notation: bool = False      # vary the notation of amounts
    fancy: float = 0.0          # how much comments / blank lines / layout vary
    crlf: bool = False
    final_newline: bool = True
    tail: str = ""              # what the file ends with

    @staticmethod
    def pick(rng):
        k = rng.random()
        s = Style(random.Random(rng.random()))
        if k < 0.35:
            return s
        s.notation = rng.random() < 0.8
        s.fancy = rng.choice([0, 0, 0.1, 0.4])
        s.crlf = rng.random() < 0.1
        s.final_newline = rng.random() < 0.7
        if rng.random() < 0.4:
            s.tail = rng.choice(TAILS)
        return s


TAILS = ["\n\n\n", "\n\n", "   ", "\n   ", "\t", " \n\t\n", "\n" * 12, "\r\n", "\r\n\r\n\r\n", "\n; the end", "\n// the end\n\n\n\n", "\n;", "\n \n \n", "\n    ; indented\n"]
COMMENTS = ["// hi", "; x", "//", ";", "; account nope", "// 2020/01/01 * no", "//// deep", ";; // both", "// ; [unclosed", "// 日本語 ütf",
            "; include nope.sfox", "// -5 $", "//    ", "; date_format %d", "//expense food due every 5th", "// amount 99999", ";!@="]


def num(v: Decimal, rng=None, pad=False):
    s = format(abs(v), "f")
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    if rng is not None:
        i, _, f = s.partition(".")
        k = rng.random()
        if k < 0.35 and len(f) < 8:
            f = f + "0" * rng.randint(1, min(2 if f else 2, 8 - len(f)))
        if rng.random() < 0.35 and len(i) > 3:
            g = []
            while i:
                g.insert(0, i[-3:])
                i = i[:-3]
            i = ",".join(g)
        s = i + ("." + f if f else "")
    return s


def amt_text(a: Amt, st: Style):
    rng = st.rng if st.notation else None
    n = num(a.mag, rng)
    neg = a.mag < 0
    if rng is None:
        s = ("-" if neg else "") + n
        if a.sym is None:
            return s
        return a.sym + s if len(a.sym) == 1 and not a.sym.isalpha() else s + " " + a.sym
    minus = ("-" if neg else "")
    if rng.random() < 0.12:
        minus = minus + "--" if rng.random() < 0.7 else minus + "----"
    if a.sym is None:
        return minus + n
    sp = rng.choice(["", " "])
    if rng.random() < 0.5:
        return n_after(rng, minus, a.sym, sp, n)
    return minus + n + sp + a.sym


def n_after(rng, minus, sym, sp, n):
    return minus + sym + sp + n if rng.random() < 0.5 else sym + sp + minus + n


class Out:
    """collects lines, decorating them as the style says"""

    def __init__(self, st: Style):
        self.st, self.lines = st, []

    def noise(self):
        st = self.st
        while st.rng.random() < st.fancy:
            k = st.rng.random()
            if k < 0.4:
                self.lines.append(st.rng.choice(["", "", "  ", "\t", "     "]))
            else:
                self.lines.append(st.rng.choice(["", "    ", "\t", " "]) + st.rng.choice(COMMENTS))

    def add(self, line):
        st = self.st
        self.noise()
        if st.rng.random() < st.fancy:
            line += st.rng.choice([" ", "  ", "\t", "     ", ""]) + st.rng.choice(COMMENTS)
        if st.rng.random() < st.fancy:
            line += st.rng.choice([" ", "   ", "\t", " \t "])
        self.lines.append(line)

    def ind(self, base=4):
        st = self.st
        if st.rng.random() < st.fancy:
            return st.rng.choice([" ", "  ", "\t", "      ", "\t\t", " \t", " " * 20])
        return " " * base

    def gap(self, base=" "):
        st = self.st
        if st.rng.random() < st.fancy:
            return st.rng.choice([" ", "  ", "\t", "          ", " \t "])
        return base

    def blank(self):
        if self.st.fancy and self.st.rng.random() < 0.5:
            return
        self.lines.append("")

    def text(self):
        nl = "\r\n" if self.st.crlf else "\n"
        s = nl.join(self.lines)
        return s + (nl if self.st.final_newline else "") + self.st.tail


def ordinal(n):
    return f"{n}" + ("th" if 10 <= n % 100 <= 20 else {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th"))


def weekday_text(rng, w):
    s = WEEKDAYS[w]
    k = rng.random()
    if k < 0.3:
        s = s[:3]
    if k > 0.85:
        s = s.lower()
    return s


def sched_text(env: Envelope, fmt, rng):
    s = env.sched
    kw = rng.choice(["due", "due", "by", "due by"])
    day = lambda: ordinal(s.arg)
    if s.kind == "never":
        return "no date"
    if s.kind == "once":
        t = s.arg.strftime(fmt)
    elif s.kind == "weekly":
        t = "every " + weekday_text(rng, s.arg)
    elif s.kind == "biweekly":
        t = "every other " + weekday_text(rng, s.arg)
    elif s.kind == "monthly":
        t = "every " + day()
    elif s.kind == "bimonthly":
        t = "every other " + day()
    else:
        t = "every year"
    t = kw + " " + t
    if env.starting is not None:
        t += " starting " + env.starting.strftime(fmt)
    return t


def emit_envelope(o: Out, env: Envelope, fmt):
    rng = o.st.rng
    words = [env.etype, env.name] + sched_text(env, fmt, rng).split(" ")
    o.add(o.ind(4) + words[0] + "".join(o.gap() + x for x in words[1:]))
    # (an envelope without an amount has none to be saved up)
    left_out = env.amount == Amt(D(0), None) and rng.random() < 0.5
    props = [] if left_out else ["amount" + o.gap() + amt_text(env.amount, o.st)]
    props += ["for" + (" " * rng.randint(1, 2) if rng.random() < 0.5 else o.gap()) + f for f in env.fors]
    if env.funding:
        props.append("funding" + o.gap() + env.funding)
    if o.st.fancy or rng.random() < 0.2:
        rng.shuffle(props)
    for p in props:
        o.add(o.ind(8) + p)


def emit_account(o: Out, a: Account, fmt):
    o.add("account" + o.gap() + a.name)
    for e in a.envelopes:
        emit_envelope(o, e, fmt)


def header(e: Entry, fmt, o: Out):
    s = e.date.strftime(fmt) + o.gap() + e.status
    if e.desc:
        s += o.gap() + o.gap(" ").join(e.desc.split(" ")) if o.st.fancy else o.gap() + e.desc
    if e.payee is not None:
        s += o.gap() + "[" + e.payee + "]"
    return s


def posting_text(p: Post, o: Out):
    if p.is_env:
        return "envelope" + o.gap() + p.account + o.gap() + p.envelope + o.gap("  ") + amt_text(p.amount, o.st)
    s = p.account
    if p.amount is not None:
        s += o.gap("  ") + amt_text(p.amount, o.st)
    parts = []
    if p.cost:
        parts.append(p.cost[0] + o.gap() + amt_text(p.cost[1], o.st))
    if p.assertion is not None:
        parts.append("!" + o.gap() + amt_text(p.assertion, o.st))
    if o.st.fancy and o.st.rng.random() < 0.3:
        parts.reverse()
    for x in parts:
        s += o.gap() + x
    return s


def emit_entry(o: Out, e: Entry, fmt):
    o.add(header(e, fmt, o))
    for p in e.posts:
        o.add(o.ind(4) + posting_text(p, o))


def render(items, st: Style, fmt="%Y/%m/%d"):
    """text and the date format in force at its end"""
    o = Out(st)
    prev = None
    for it in items:
        if isinstance(it, DateFmt):
            fmt = it.fmt
            o.add("date_format" + o.gap() + it.fmt)
        elif isinstance(it, Account):
            emit_account(o, it, fmt)
        elif isinstance(it, Entry):
            o.blank()
            emit_entry(o, it, fmt)
        else:
            o.add(it)
        prev = it
    o.noise()
    return o.text(), fmt


# ---------------------------------------------------------------- worlds
def same_day(d, years):
    try:
        return d.replace(year=d.year + years)
    except ValueError:
        return d.replace(year=d.year + years, day=28)


@dataclass
class Opt:
    accounts: tuple = (3, 9)
    entries: tuple = (1, 14)
    envelopes: tuple = (0, 5)
    syms: tuple = (0, 3)
    native: float = 0.85
    kinds: tuple = (("simple", 4), ("multi", 3), ("blank", 4), ("mixedblank", 1), ("exchange", 1), ("manual", 2), ("pureenv", 1), ("linked", 3))
    recurring_only: bool = False
    funded: float = 0.5
    mags: tuple = ("int", "cents", "dec8", "round", "big", "tiny", "huge")
    span: tuple = (-500, 40)
    redefine: float = 0.1
    late: float = 0.2
    fmts: float = 0.4
    refmt: float = 0.15         # other date formats further down
    large: float = 0.03         # many accounts and envelopes
    big: float = 0              # thousands of transactions, or a megabyte of comments between them
    crowd: float = 0            # very many accounts, postings in a transaction, currencies, envelopes
    schedkinds: tuple = ("weekly", "biweekly", "monthly", "bimonthly", "yearly", "once", "never")


class World:
    def __init__(self, rng, today, opt: Opt):
        self.rng, self.today, self.opt = rng, today, opt
        k = rng.randint(*opt.syms)
        self.syms = rng.sample(SYMS, k)
        if k and rng.random() < 0.04:
            self.syms[0] = rng.choice(LONGSYMS)
        if not self.syms or rng.random() < opt.native:
            self.syms = [None] + self.syms
        self.far = rng.random() < 0.04
        self.classes = ["int"] if opt.big >= 1 else rng.sample(list(opt.mags), rng.randint(1, min(3, len(opt.mags))))
        n = rng.randint(*opt.accounts)
        large = opt.entries[1] > 1 and rng.random() < opt.large
        if large:
            n = rng.randint(12, len(ACCTS))
        names = rng.sample(ACCTS, min(n, len(ACCTS)))
        if not any(a.startswith("assets:") for a in names):
            names[0] = rng.choice(["assets:checking", "assets:cash"])
        if rng.random() < 0.03:
            names[-1] = rng.choice(["assets:", "expenses:", ""]) + "x" + longtext(rng, 150)
            if not any(a.startswith("assets:") for a in names):
                names[0] = "assets:checking"
        if len(set(names)) < 2:
            names.append("equity")
        self.names = list(dict.fromkeys(names))
        self.accounts = {a: Account(a) for a in self.names}
        self.entries = []
        self.fmt = rng.choice(FMTS) if rng.random() < opt.fmts else "%Y/%m/%d"
        hosts = [a for a in self.names if a.lower().startswith("asset")] or self.names[:1]
        if rng.random() < 0.2:
            hosts = self.names
        if large:
            hosts = self.names
        hosts = rng.sample(hosts, rng.randint(1, len(hosts) if large else min(3, len(hosts))))
        for _ in range(rng.randint(*opt.envelopes) * (rng.randint(1, 5) if large else 1)):
            self.add_envelope(rng.choice(hosts))
        for _ in range(rng.randint(*opt.entries)):
            self.add_entry()
        if self.entries and opt.entries[1] > 1 and rng.random() < 0.3:
            self.repeat_entries()
        if opt.crowd and rng.random() < opt.crowd:
            self.make_crowd(rng.choice(["accounts", "postings", "currencies", "envelopes"]))
        if rng.random() < 0.4:
            self.entries.sort(key=lambda e: e.date)
        self.padding = 0
        if opt.big and rng.random() < opt.big:
            # (whole numbers, whose sums are exact in whatever order)
            whole = [e for e in self.entries if all(a.mag == int(a.mag) for p in e.posts for a in (p.amount, p.cost and p.cost[1]) if a is not None)]
            for _ in range(rng.choice([0, 300, 1100, 2500]) if whole else 0):
                e = deepcopy(rng.choice(whole))
                if rng.random() < 0.7:
                    e.date = self.date()
                self.entries.append(e)
            self.padding = rng.choice([0, 1, 1, 70_000, 1_200_000, 2_500_000])

    def make_crowd(self, what):
        rng = self.rng
        whole = lambda: D(rng.choice([-1, 1]) * rng.randint(1, 9999))
        names, syms = list(self.names), list(self.syms)
        n = rng.choice([17, 40, 70, 140, 300])
        if what == "accounts":
            names = [rng.choice(["expenses:n", "assets:n", "n"]) + str(i) for i in range(n)]
            for a in names:
                self.accounts[a] = Account(a)
            self.names += names
        elif what == "currencies":
            syms = list(dict.fromkeys(syms + [None] + rng.sample(SYMS, rng.randint(9, len(SYMS)))))
            self.syms = syms
        elif what == "envelopes":
            host = rng.choice([a for a in names if self.accounts[a].envelopes] or names)
            for _ in range(rng.randint(12, len(ENVN))):
                self.add_envelope(host)
            self.entries = [e for e in self.entries if self.acceptable(e)]
            n = 5
        for _ in range(rng.choice([1, 2, 4])):
            e = Entry(self.date(), rng.choice("?~*"), self.desc(), None, [])
            if what == "currencies":
                a, b = rng.choice(names), rng.choice(names)
                for s in rng.sample(syms, rng.randint(8, len(syms))):
                    x = whole()
                    e.posts += [Post(a, Amt(x, s)), Post(b, Amt(-x if rng.random() < 0.8 else whole(), s))]
            else:
                s = self.sym()
                xs = [whole() for _ in range(n)]
                e.posts = [Post(a, Amt(x, s)) for a, x in zip(names if what == "accounts" else rng.choices(names, k=n), xs)]
                e.posts.append(Post(rng.choice(names), None if rng.random() < 0.5 else Amt(-sum(xs), s)))
                if rng.random() < 0.5:
                    rng.shuffle(e.posts)
            if self.acceptable(e):
                self.entries.append(e)

    def repeat_entries(self):
        """the same thing bought again: transactions that differ in nothing, or only in one respect"""
        rng = self.rng
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(len(self.entries))
            e = deepcopy(self.entries[i])
            k = rng.random()
            if k < 0.15:
                e.status = rng.choice("?~*")
            elif k < 0.3:
                e.date = self.date()
            elif k < 0.4:
                e.desc = self.desc()
            elif k < 0.5:
                rng.shuffle(e.posts)
            elif k < 0.6:
                e.payee = None if e.payee else "Bob"
            self.entries.insert(i + 1 if rng.random() < 0.6 else rng.randint(0, len(self.entries)), e)

    # -- parts
    def envs(self):
        return [(a.name, e) for a in self.accounts.values() for e in a.envelopes]

    def sym(self):
        return self.rng.choice(self.syms)

    def amount(self, sym="?", positive=False):
        return Amt(mag(self.rng, self.classes, positive), self.sym() if sym == "?" else sym)

    def date(self):
        rng = self.rng
        k = rng.random()
        if self.entries and k < 0.25:
            return rng.choice(self.entries).date
        lo, hi = self.opt.span
        if self.far and k > 0.8:
            # decades away
            d = self.today + dt.timedelta(days=rng.choice([-1, -1, 1 if hi > 0 else -1]) * rng.randint(400, 22000))
            return min(max(d, dt.date(1901, 1, 1)), dt.date(2299, 12, 31))
        if 0.25 < k < 0.28:
            # this day of another week, month or year
            d = rng.choice([self.today - dt.timedelta(days=rng.choice([7, 14, 28, 30, 31])), same_day(self.today, -1), same_day(self.today, -rng.randint(2, 5)), same_day(self.today, 1)])
            if (d - self.today).days <= max(hi, 0) and d.year >= 1901:
                return d
        if k < 0.55:
            return self.today + dt.timedelta(days=rng.randint(max(lo, -40), min(hi, 5)))
        return self.today + dt.timedelta(days=rng.randint(lo, hi))

    def add_envelope(self, acct, **kw):
        a = self.accounts[acct]
        free = [n for n in ENVN if n not in {e.name for e in a.envelopes}]
        if not free:
            return None
        if self.rng.random() < 0.02:
            free = ["x" + longtext(self.rng, 100)]
        env = make_envelope(self.rng, self.today, self.rng.choice(free), self.opt, self.amount(positive=True),
                            [x for x in self.names if x != acct])
        for k, v in kw.items():
            setattr(env, k, v)
        a.envelopes.append(env)
        return env

    def desc(self):
        rng = self.rng
        if rng.random() < 0.03:
            return "x" + longtext(rng)
        return " ".join(rng.choice(PLAINWORDS) for _ in range(rng.choice([1, 1, 2, 3, 4])))

    def acceptable(self, e: Entry):
        """the model knows what it means, and no sum is so close to zero that binary rounding decides about its sign"""
        try:
            vals = resolved(e)
            for acct, env in self.envs():
                envelope_change(acct, env, e)
        except (Reject, Ambiguous):
            return False
        groups = {}
        for p, v, s in vals:
            sc = post_scale(e, p, v)
            groups[id(p)] = [(v, sc)]
            if p.account.startswith("asset"):
                groups.setdefault((0, "all assets", s), []).append((v, sc))
            groups.setdefault((p.account, s), []).append((v, sc))
        for acct, env in self.envs():
            mine = [(native_value(p) if s != env.amount.sym and p.amount is not None else v, post_scale(e, p, v)) for p, v, s in vals if p.account in env.fors]
            groups[acct, env.name, "for"] = [(v or 0, sc) for v, sc in mine]
        if any(sc > 10**14 for g in groups.values() for _, sc in g):
            return False
        for g in groups.values():
            if len(g) == 1 and g[0][0] == 0 and g[0][1] == 0:
                continue
            v, sc = sum(x for x, _ in g), sum(y for _, y in g)
            if v == 0 and sc < 10**6:
                continue
            if abs(v) < max(Fraction(9, 10**9), sc / 10**13) and not (v == 0 and len(g) == 2 and len(vals) == 2):
                return False
        return True

    def add_entry(self, kinds=None, date=None):
        for _ in range(12):
            e = self.make_entry(kinds, date)
            if e is not None and self.acceptable(e):
                self.entries.append(e)
                return e
        return None

    def make_entry(self, kinds=None, date=None):
        rng = self.rng
        ks = kinds or self.opt.kinds
        kind = rng.choices([k for k, _ in ks], [w for _, w in ks])[0]
        e = Entry(date or self.date(), rng.choice("?~*"), self.desc(), rng.choice([None, None, "Bob", "The Shop", "é [x]"]), [])
        pick = lambda: rng.choice(self.names)
        if kind == "simple":
            a, b = rng.sample(self.names, 2) if rng.random() < 0.95 else (pick(),) * 2
            x = self.amount()
            e.posts = [Post(a, x), Post(b, x.neg())]
        elif kind == "multi":
            self._balanced(e, self.size(), self.sym())
        elif kind == "blank":
            self._balanced(e, self.size(), self.sym())
            rng.choice(e.posts).amount = None
        elif kind == "onlyblank":
            e.posts = [Post(pick(), None)]
        elif kind == "mixedblank":
            fs = [s for s in self.syms if s is not None]
            if not fs:
                return None
            s = rng.choice(fs)
            for _ in range(rng.randint(1, 3)):
                x = self.amount(s)
                free = rng.random() < 0.06     # a gift: worth nothing, at least at that price
                if rng.random() < 0.5:
                    c = ("@", Amt(D(0) if free else abs(self.amount(None).mag), None))
                else:
                    m = D(0) if free else abs(self.amount(None).mag)
                    c = ("=", Amt(m if x.mag > 0 else -m, None))
                e.posts.append(Post(pick(), x, c))
            for _ in range(rng.randint(1, 3)):
                e.posts.append(Post(pick(), self.amount(None)))
            e.posts.append(Post(pick(), None))
            rng.shuffle(e.posts)
        elif kind == "exchange":
            if len(self.syms) < 2:
                return None
            s, t = rng.sample(self.syms, 2)
            x, y = self.amount(s, True), self.amount(t, True)
            c = None
            k = rng.random()
            if k < 0.3:
                c = ("=", y)
            elif k < 0.6:
                c = ("@", self.amount(t, True))
            e.posts = [Post(pick(), y.neg()), Post(pick(), x, c)]
            if rng.random() < 0.4:
                for _ in range(rng.randint(1, 4)):
                    e.posts.append(Post(pick(), self.amount()))
            rng.shuffle(e.posts)
        elif kind in ("manual", "pureenv"):
            ev = self.envs()
            if not ev:
                return None
            if kind == "manual":
                self._balanced(e, rng.randint(2, 4), self.sym())
                if rng.random() < 0.4:
                    rng.choice(e.posts).amount = None
            syms = {p.amount.sym for p in e.posts if p.amount is not None and p.amount.sym is not None}
            blank = any(p.amount is None for p in e.posts)
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                acct, env = rng.choice(ev)
                if blank and env.amount.sym is not None and not syms <= {env.amount.sym}:
                    continue
                if blank and env.amount.sym is not None:
                    syms.add(env.amount.sym)
                m = self.env_mag(env)
                e.posts.append(Post(acct, Amt(m, env.amount.sym), envelope=env.name))
            if not e.envs():
                return None
            rng.shuffle(e.posts)
        elif kind == "linked":
            ev = [(a, v) for a, v in self.envs() if v.fors]
            if not ev:
                return None
            acct, env = rng.choice(ev)
            s = env.amount.sym
            out = rng.random() < 0.75
            posts = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                x = Amt(abs(self.env_mag(env)), s)
                posts.append(Post(acct, x.neg() if out else x))
            for _ in range(rng.choice([1, 1, 2])):
                x = Amt(abs(self.env_mag(env)), s)
                posts.append(Post(rng.choice(env.fors), x if out else x.neg()))
            if rng.random() < 0.12:
                # nothing moves after all: one side gets its money back
                side = rng.choice(["mine", "linked"])
                x = sum((p.amount.mag for p in posts if (p.account == acct) == (side == "mine")), D(0))
                posts.append(Post(acct if side == "mine" else rng.choice(env.fors), Amt(-x, s)))
            tot = sum((p.amount.mag for p in posts), D(0))
            if tot != 0:
                posts.append(Post(rng.choice([n for n in self.names]), Amt(-tot, s)))
            if rng.random() < 0.4:
                rng.choice(posts).amount = None
            rng.shuffle(posts)
            e.posts = posts
        return e

    def env_mag(self, env):
        rng = self.rng
        k = rng.random()
        if k < 0.5:
            m = abs(env.amount.mag) * D(rng.choice(["0.1", "0.25", "0.5", "1", "0.3", "1.5"]))
            m = m.quantize(D(1).scaleb(-8))
            m = m if m else D(1).scaleb(-8)
        else:
            m = mag(rng, self.classes)
        return m if rng.random() < 0.65 else -m

    def size(self):
        return self.rng.randint(2, 6) if self.rng.random() < 0.97 else self.rng.randint(7, 24)

    def _balanced(self, e, n, s):
        rng = self.rng
        xs = [mag(rng, self.classes, False) for _ in range(n - 1)]
        if rng.random() < 0.05:
            xs[0] = D(0)
        if n > 2 and rng.random() < 0.2:
            xs[1] = xs[0]   # two equal postings
        xs.append(-sum(xs, D(0)))
        e.posts = [Post(rng.choice(self.names), Amt(x, s)) for x in xs]
        rng.shuffle(e.posts)

    # -- as a journal
    def items(self):
        """date format, account definitions (some late, some split in two), transactions"""
        rng = self.rng
        accts = list(self.accounts.values())
        rng.shuffle(accts)
        res = [DateFmt(self.fmt)] if self.fmt != "%Y/%m/%d" or rng.random() < 0.1 else []
        body = list(self.entries)
        first = {}
        for i, e in enumerate(body):
            for p in e.posts:
                first.setdefault(p.account, i)
        slots = {}
        for a in accts:
            if rng.random() < self.opt.late and not a.envelopes:
                slots.setdefault(rng.randint(0, first.get(a.name, len(body))), []).append(a)
                continue
            if a.envelopes and rng.random() < self.opt.redefine:
                k = rng.randint(0, len(a.envelopes))
                res += [Account(a.name, a.envelopes[:k]), Account(a.name, a.envelopes[k:])]
            else:
                res.append(a)
        for i in range(len(body) + 1):
            res += slots.get(i, [])
            if i < len(body):
                res.append(body[i])
        if rng.random() < self.opt.refmt:
            for _ in range(rng.randint(1, 3)):
                res.insert(rng.randint(0, len(res)), DateFmt(rng.choice(FMTS)))
        n = rng.choice([1, 20, 200])
        if self.padding == 1:
            # tens of thousands of lines, one of the pieces being long enough by itself
            for k in (rng.choice([300, 70_000]), rng.choice([300, 33_000, 70_000])):
                res.insert(rng.randint(0, max(0, len(res) - 1)), "\n".join([rng.choice([";", "", "; z", "\t;"])] * k))
            return res
        for _ in range(n if self.padding else 0):
            line = "; " + "x" * (self.padding // n)
            res.insert(rng.randint(0, len(res)), line if n < 200 else "\n".join(["; " + "y" * 60] * (len(line) // 63)))
        return res


def make_sched(rng, today, kinds):
    kind = rng.choice(kinds)
    if kind == "never":
        return Sched("never"), None
    near = lambda lo, hi: today + dt.timedelta(days=rng.randint(lo, hi))
    if kind == "once":
        k = rng.random()
        d = today if k < 0.1 else today + dt.timedelta(days=rng.choice([-1, 1, 2])) if k < 0.3 else near(-400, 500) if k < 0.95 else min(dt.date(2299, 12, 31), near(500, 15000))
        return Sched("once", d), None
    arg = None
    if kind in ("weekly", "biweekly"):
        arg = rng.randint(0, 6)
    elif kind in ("monthly", "bimonthly"):
        arg = rng.choice([rng.randint(1, 31), rng.randint(27, 31), today.day, min(31, today.day + 1), 1, 31, 30, 29])
        if rng.random() < 0.03:
            arg = rng.choice([0, 32, 35, 99, 400])
    starting = None
    if kind in ("biweekly", "bimonthly", "yearly") or rng.random() < 0.35:
        k = rng.random()
        if k < 0.2:
            starting = near(-15, 15)
        elif k < 0.3:
            starting = today + dt.timedelta(days=rng.choice([-1, 0, 1]))
        elif k < 0.66:
            starting = near(-1600, 0)
        elif k < 0.7:
            starting = max(dt.date(1901, 1, 1), near(-22000, -1600)) if rng.random() < 0.7 else dt.date(rng.randint(1600, 1900), rng.randint(1, 12), rng.randint(1, 28))
        elif k < 0.85:
            starting = near(0, 420)
        elif k < 0.93:
            y = today.year - rng.choice([0, 1, 2, 3, 4, 5, 6, 8])
            m = rng.randint(1, 12)
            starting = dt.date(y, m, dim(y, m))
        else:
            y = today.year - today.year % 4 - rng.choice([0, 4, 8])
            starting = dt.date(y, 2, 29 if calendar.isleap(y) else 28)
    return Sched(kind, arg), starting


def make_envelope(rng, today, name, opt, amount, others):
    kinds = [k for k in opt.schedkinds if not (opt.recurring_only and k in ("once", "never"))]
    sched, starting = make_sched(rng, today, kinds)
    fors = rng.sample(others, min(len(others), rng.choice([0, 1, 1, 1, 2, 3] if rng.random() < 0.96 else [4, 6, 9])))
    if fors and rng.random() < 0.06:
        fors.append(rng.choice(fors))   # named twice
    funding = rng.choice(["aggressive", "conservative"]) if rng.random() < opt.funded else rng.choice([None, "manual"])
    if rng.random() < 0.025:
        amount = Amt(D(0), amount.sym)      # nothing to save up for
    return Envelope(rng.choice(["expense", "goal"]), name, sched, amount, fors, funding, starting)
