"""Independent reference model of what silverfox promises (exact arithmetic, own calendar).

Nothing here is derived from silverfox's code structure: transactions are abstract values, due dates are found by
scanning the calendar day by day, and sums are exact fractions.
"""
from __future__ import annotations
import calendar
import datetime as dt
from dataclasses import dataclass, field, replace
from decimal import Decimal
from fractions import Fraction
from functools import lru_cache
from typing import Optional

Date = dt.date
DAY = dt.timedelta(days=1)
WEEKDAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]


@dataclass(frozen=True)
class Amt:
    mag: Decimal
    sym: Optional[str] = None

    @property
    def f(self) -> Fraction:
        return Fraction(self.mag)

    def neg(self):
        return Amt(-self.mag, self.sym)


@dataclass
class Post:
    account: str
    amount: Optional[Amt]
    cost: Optional[tuple] = None      # ('@' or '=', Amt)
    assertion: Optional[Amt] = None
    envelope: Optional[str] = None    # name, for an envelope posting

    @property
    def is_env(self):
        return self.envelope is not None


@dataclass
class Entry:
    date: Date
    status: str
    desc: str
    payee: Optional[str]
    posts: list
    comment: Optional[str] = None

    def real(self):
        return [p for p in self.posts if not p.is_env]

    def envs(self):
        return [p for p in self.posts if p.is_env]


@dataclass(frozen=True)
class Sched:
    kind: str            # never once weekly biweekly monthly bimonthly yearly
    arg: object = None   # date / weekday number / day of month


@dataclass
class Envelope:
    etype: str
    name: str
    sched: Sched
    amount: Amt
    fors: list = field(default_factory=list)
    funding: Optional[str] = None
    starting: Optional[Date] = None


@dataclass
class Account:
    name: str
    envelopes: list = field(default_factory=list)


@dataclass
class DateFmt:
    fmt: str


class Reject(Exception):
    """the journal has to be / may be rejected"""


class Ambiguous(Exception):
    """the documentation does not say what this means; generators avoid it"""


# ---------------------------------------------------------------- calendar
def dim(y, m):
    return calendar.monthrange(y, m)[1]


def day_in(n, y, m):
    """the n-th, or the last day of a month that has no n-th"""
    return n if 1 <= n <= dim(y, m) else dim(y, m)


def is_due(s: Sched, starting: Optional[Date], d: Date) -> bool:
    if starting is not None and d < starting:
        return False
    k = s.kind
    if k == "weekly":
        return d.weekday() == s.arg
    if k == "monthly":
        return d.day == day_in(s.arg, d.year, d.month)
    if k == "biweekly":
        first = starting + dt.timedelta(days=(s.arg - starting.weekday()) % 7)
        return d >= first and (d - first).days % 14 == 0
    if k == "bimonthly":
        first = starting
        while first.day != day_in(s.arg, first.year, first.month):
            first += DAY
        months = (d.year - first.year) * 12 + d.month - first.month
        return months >= 0 and months % 2 == 0 and d.day == day_in(s.arg, d.year, d.month)
    if k == "yearly":
        day = starting.day
        if (starting.month, starting.day) == (2, 29) and not calendar.isleap(d.year):
            day = 28
        return d.month == starting.month and d.day == day
    if k == "once":
        return d == s.arg
    return False


@lru_cache(maxsize=200000)
def next_due(s: Sched, starting: Optional[Date], today: Date) -> Optional[Date]:
    """first scheduled date strictly after today, not before starting"""
    if s.kind == "never":
        return None
    if s.kind == "once":
        return s.arg if s.arg > today else None
    d = today + DAY
    if starting is not None and starting > d:
        d = starting
    for _ in range(800):
        if is_due(s, starting, d):
            return d
        d += DAY
    raise AssertionError("no due date within 800 days")


@lru_cache(maxsize=200000)
def last_due(s: Sched, starting: Optional[Date], today: Date) -> Optional[Date]:
    """latest scheduled date that has come (today included), not before starting"""
    if s.kind == "never":
        return None
    if s.kind == "once":
        return s.arg if s.arg <= today else None
    d = today
    for _ in range(800):
        if starting is not None and d < starting:
            return None
        if is_due(s, starting, d):
            return d
        d -= DAY
    raise AssertionError("no due date within 800 days")


# ---------------------------------------------------------------- transactions
def native_value(p: Post) -> Optional[Fraction]:
    if p.amount is None or p.is_env:
        return None
    if p.amount.sym is None:
        return p.amount.f
    if p.cost is None or p.cost[1].sym is not None:
        return None
    kind, c = p.cost
    return c.f if kind == "=" else p.amount.f * c.f


def blank_amount(e: Entry):
    """(Fraction, symbol) of the omitted amount"""
    known = [p for p in e.real() if p.amount is not None]
    syms = {p.amount.sym for p in known}
    if len(syms) <= 1:
        return -sum((p.amount.f for p in known), Fraction(0)), (syms.pop() if syms else None)
    tot = Fraction(0)
    for p in known:
        v = native_value(p)
        if v is None:
            raise Reject("blank amount cannot be inferred")
        tot += v
    return -tot, None


def resolved(e: Entry):
    """[(post, Fraction, sym)] for real postings, omitted amount filled in"""
    out = []
    for p in e.real():
        if p.amount is None:
            v, s = blank_amount(e)
        else:
            v, s = p.amount.f, p.amount.sym
        out.append((p, v, s))
    return out


def post_scale(e: Entry, p: Post, v: Fraction) -> Fraction:
    """sum of the absolute values that go into a posting's value (bounds its rounding error)"""
    if p.amount is not None:
        return abs(v)
    tot = Fraction(0)
    for q in e.real():
        if q.amount is not None:
            tot += abs(q.amount.f) + abs(native_value(q) or 0)
    return tot


def add(pool: dict, sym, v):
    pool[sym] = pool.get(sym, Fraction(0)) + v


def many(n):
    """adding up n binary floating-point numbers loses at most n rounding units of the sum of their absolute values (the tolerance allows for 36)"""
    return Fraction(max(n, 36), 36)


def balances(entries):
    tot, scale, count = {}, {}, {}
    for e in entries:
        for p, v, s in resolved(e):
            add(tot.setdefault(p.account, {}), s, v)
            add(scale.setdefault(p.account, {}), s, post_scale(e, p, v))
            count[p.account, s] = count.get((p.account, s), 0) + 1
    for a in scale:
        for s in scale[a]:
            scale[a][s] *= many(count[a, s])
    return tot, scale


def register(entries):
    """expected rows: (date, status, desc, from, to, {sym: (change, running)}) in order; stable by date"""
    rows = []
    running = {}
    scale = {}
    n = 0
    for e in sorted(entries, key=lambda e: e.date):
        net, pos, neg = {}, set(), set()
        for p, v, s in resolved(e):
            if v > 0:
                pos.add(p.account)
            elif v < 0:
                neg.add(p.account)
            if p.account.startswith("asset"):
                add(net, s, v)
                add(scale, s, post_scale(e, p, v))
                n += 1
        if all(v == 0 for v in net.values()):
            continue
        nm = lambda x: "(none)" if not x else next(iter(x)) if len(x) == 1 else "(multiple)"
        for s, v in net.items():
            add(running, s, v)
        rows.append((e, nm(neg), nm(pos), {s: (v, running[s], scale[s] * many(n)) for s, v in net.items()}))
    return rows


def envelope_change(acct: str, env: Envelope, e: Entry):
    """signed changes of the envelope by the transaction; none if it is untouched"""
    if e.envs():
        tot = []
        for p in e.envs():
            if p.account == acct and p.envelope == env.name:
                if p.amount.sym != env.amount.sym:
                    raise Reject("envelope posting in another currency")
                tot.append(p.amount.f)
        return tot
    posts = e.real()
    mine = [p for p in posts if p.account == acct]
    linked = [p for p in posts if p.account != acct and p.account in env.fors]
    if not mine or not linked:
        return []
    a = b = Fraction(0)
    for p, v, s in resolved(e):
        if s != env.amount.sym:
            if env.amount.sym is not None:
                raise Reject("cannot convert")
            v = native_value(p)
            if v is None:
                raise Reject("cannot convert")
        if p.account == acct:
            a += v
        elif p.account in env.fors:
            b += v
    m = min(abs(a), abs(b))
    if m == 0:
        return []
    if (a > 0) == (b > 0):
        raise Ambiguous("money does not flow between the account and its linked accounts")
    return [-m if a < 0 else m]


@dataclass
class EnvState:
    env: Envelope
    account: str
    now: Fraction = Fraction(0)
    nxt: Fraction = Fraction(0)
    scale: Fraction = Fraction(0)
    last: Optional[Date] = None       # latest date <= today on which it was moved
    due: Optional[Date] = None

    @property
    def total(self):
        return self.now + self.nxt

    @property
    def shown_now(self):
        return max(self.now, Fraction(0))

    @property
    def shown_next(self):
        return self.nxt + min(self.now, Fraction(0))


@dataclass
class State:
    accounts: dict        # name -> Account (merged)
    envs: dict            # (account, envelope) -> EnvState
    real: dict            # account -> {sym: Fraction}
    scale: dict

    def available(self, acct):
        pool = dict(self.real.get(acct, {}))
        for (a, _), st in self.envs.items():
            if a == acct:
                add(pool, st.env.amount.sym, -st.total)
        return pool

    def avail_scale(self, acct, sym):
        x = self.scale.get(acct, {}).get(sym, Fraction(0))
        for (a, _), st in self.envs.items():
            if a == acct and st.env.amount.sym == sym:
                x += st.scale
        return x


def split(items):
    accounts, entries = {}, []
    for it in items:
        if isinstance(it, Account):
            if it.name in accounts:
                accounts[it.name] = Account(it.name, accounts[it.name].envelopes + it.envelopes)
            else:
                accounts[it.name] = Account(it.name, list(it.envelopes))
        elif isinstance(it, Entry):
            entries.append(it)
    return accounts, entries


def state(items, today: Date) -> State:
    accounts, entries = split(items)
    envs = {}
    for a in accounts.values():
        for env in a.envelopes:
            st = EnvState(env, a.name)
            st.due = next_due(env.sched, env.starting, today)
            ld = last_due(env.sched, env.starting, today)
            n = 0
            for e in entries:
                for c in envelope_change(a.name, env, e):
                    n += 1
                    st.scale += abs(c) + sum((post_scale(e, p, v) for p, v, _ in resolved(e)), Fraction(0))
                    if c < 0:
                        st.now += c
                    elif c > 0:
                        if ld is not None and e.date < ld:
                            st.now += c
                        else:
                            st.nxt += c
                    if e.date <= today and (st.last is None or e.date > st.last):
                        st.last = e.date
            st.scale *= many(n)
            envs[a.name, env.name] = st
    real, scale = balances(entries)
    return State(accounts, envs, real, scale)


def wanted(st: EnvState, today: Date) -> Fraction:
    """what automatic funding moves into the envelope today if there is enough money"""
    env = st.env
    if env.funding not in ("aggressive", "conservative") or st.due is None or st.last == today:
        return Fraction(0)
    missing = max(env.amount.f - st.nxt, Fraction(0))
    if env.funding == "conservative":
        missing = missing / (st.due - today).days
    return max(missing, -st.total)    # what was overspent is made up for
