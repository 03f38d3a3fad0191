"""Comparisons of observed reports with the reference model."""
from __future__ import annotations
import datetime as dt
import re
from fractions import Fraction

from . import model, outp
from .core import Violation
from .model import Entry, split
from .outp import close, parse_balance, parse_envelopes, parse_register, tol


def F(x):
    return float(x)


def show(d):
    return {str(k): float(v) for k, v in d.items()}


def cmp_pools(what, shown, exp, scale, **detail):
    for s in set(shown) | set(exp):
        a, b = shown.get(s, Fraction(0)), exp.get(s, Fraction(0))
        if not close(a, b, scale.get(s, 0)):
            raise Violation(what, currency=s, shown=float(a), expected=float(b), all_shown=show(shown), all_expected=show(exp), **detail)


def cmp_balance(ctx, out, items, what="balance report"):
    _, entries = split(items)
    exp, scale = model.balances(entries)
    shown = parse_balance(out)
    if set(shown) != set(exp):
        raise Violation(f"{what}: the accounts listed are not the accounts with postings",
                        missing=sorted(set(exp) - set(shown)), extra=sorted(set(shown) - set(exp)), stdout=out[-2000:])
    for a in exp:
        cmp_pools(f"{what}: wrong amount", shown[a], exp[a], scale[a], account=a)
        for s, v in exp[a].items():
            if v != 0 and abs(v) > tol(scale[a].get(s, 0)) and s not in shown[a]:
                raise Violation(f"{what}: a currency is missing", account=a, currency=s)
        ctx.n["balances_compared"] += len(exp[a])
    return shown


def cmp_register(ctx, out, items, fmt):
    _, entries = split(items)
    exp = model.register(entries)
    rows = parse_register(out)
    if len(rows) != len(exp):
        raise Violation("register: wrong number of transactions listed", shown=len(rows), expected=len(exp), stdout=out[-3000:],
                        expected_rows=[f"{e.date} {e.desc}" for e, *_ in exp])
    for (head, to, amts), (e, frm, eto, ch) in zip(rows, exp):
        want = [e.date.strftime(fmt), e.status] + e.desc.split() + [frm]
        got = head.split()
        if got != want or to != eto:
            raise Violation("register: a row is not the expected transaction", row=head + " -> " + to,
                            expected=" ".join(want) + " -> " + eto, stdout=out[-3000:])
        seen = set()
        for c, r, s in amts:
            if s in seen:
                raise Violation("register: a currency twice in a row", row=head)
            seen.add(s)
            if s not in ch:
                raise Violation("register: a currency that the transaction does not have", row=head, currency=s)
            v, run, sc = ch[s]
            if not close(c, v, sc):
                raise Violation("register: wrong net change", row=head, currency=s, shown=F(c), expected=F(v))
            if not close(r, run, sc):
                raise Violation("register: wrong running total", row=head, currency=s, shown=F(r), expected=F(run))
        for s, (v, _, sc) in ch.items():
            if s not in seen and abs(v) > tol(sc):
                raise Violation("register: a currency is missing from a row", row=head, currency=s)
        ctx.n["register_rows_compared"] += 1
    return rows


def cmp_envelopes(ctx, out, items, today, due=True, split_=True, totals=True, available=True, targets=True):
    st = model.state(items, today)
    shown = parse_envelopes(out)
    want = {a.name for a in st.accounts.values() if a.envelopes}
    if set(shown) != want:
        raise Violation("envelopes report: the accounts listed are not the accounts with envelopes",
                        missing=sorted(want - set(shown)), extra=sorted(set(shown) - want))
    for a in want:
        names = {e.name for e in st.accounts[a].envelopes}
        if set(shown[a]["envs"]) != names:
            raise Violation("envelopes report: wrong set of envelopes", account=a, shown=sorted(shown[a]["envs"]), expected=sorted(names))
        for n in names:
            s = st.envs[a, n]
            g = shown[a]["envs"][n]
            who = dict(account=a, envelope=n, today=str(today), schedule=str(s.env.sched), starting=str(s.env.starting))
            if targets and (not close(g["target"], s.env.amount.f, s.env.amount.f) or g["tsym"] != s.env.amount.sym or g["sym"] != s.env.amount.sym):
                raise Violation("envelopes report: wrong target or currency", shown=F(g["target"]), shown_symbol=[g["sym"], g["tsym"]],
                                expected=F(s.env.amount.f), **who)
            if g["type"] != s.env.etype + "s":
                raise Violation("envelopes report: expense and goal mixed up", **who)
            if due:
                ctx.n["due_dates_compared"] += 1
                if g["due"] != s.due:
                    raise Violation("envelopes report: wrong next due date", shown=str(g["due"]), expected=str(s.due), **who)
            if split_:
                ctx.n["splits_compared"] += 1
                if not close(g["now"], s.shown_now, s.scale) or not close(g["next"], s.shown_next, s.scale):
                    raise Violation("envelopes report: wrong amounts now/next", now=F(g["now"]), next=F(g["next"]),
                                    expected_now=F(s.shown_now), expected_next=F(s.shown_next), **who)
            if totals:
                if not close(g["now"] + g["next"], s.total, s.scale + 1):
                    raise Violation("envelopes report: money in an envelope is not what was put in minus what was taken out",
                                    shown=F(g["now"] + g["next"]), expected=F(s.total), **who)
        if available:
            ctx.n["available_compared"] += 1
            exp = st.available(a)
            cmp_pools("envelopes report: wrong available amount", shown[a]["available"], exp, {x: st.avail_scale(a, x) for x in exp}, account=a)
    return shown, st


class Journal:
    """a journal file together with the items the model knows it to contain"""

    def __init__(self, box, rel, items, text, fmt):
        self.box, self.rel, self.items, self.fmt = box, rel, list(items), fmt
        box.write(rel, text)
        self.data = box.read(rel)

    def tail(self):
        """what the last run appended (entries); the prefix has to be intact"""
        data = self.box.read(self.rel)
        if not data.startswith(self.data):
            raise Violation("the journal's previous content was changed", before=self.data[-500:].decode("utf-8", "replace"),
                            after=data[-800:].decode("utf-8", "replace"))
        new = data[len(self.data):]
        self.data = data
        try:
            txt = new.decode("utf-8")
        except UnicodeDecodeError:
            raise Violation("bytes that are not UTF-8 were added to the journal")
        es = outp.parse_written(txt, self.fmt)
        self.items += es
        return es

    def append(self, text, entries):
        """the user adds transactions"""
        with open(self.box.path(self.rel), "ab") as f:
            f.write(text.encode())
        self.data = self.box.read(self.rel)
        self.items += entries


def auto_entries(ctx, es, day, allow_import=False):
    """appended entries have to be at most one automatic movement of the given day"""
    if len(es) > 1:
        raise Violation("more than one transaction was added by one run", added=[str(e) for e in es])
    for e in es:
        if e.date != day:
            raise Violation("an automatic movement is not dated today", date=str(e.date), today=str(day))
        if not e.posts or any(not p.is_env for p in e.posts):
            raise Violation("an automatic movement has postings that are not envelope postings", entry=str(e))
        ctx.n["automatic_postings_observed"] += len(e.posts)
    return [p for e in es for p in e.posts]


def check_moves(ctx, pre_items, day, posts, amounts=True):
    """automatic movements against the model's state before the run (C09, C10, C11)"""
    st = model.state(pre_items, day)
    seen, tot = set(), {}
    for p in posts:
        k = (p.account, p.envelope)
        who = dict(account=p.account, envelope=p.envelope, amount=str(p.amount), today=str(day))
        if k in seen:
            raise Violation("an envelope is moved twice in one run", **who)
        seen.add(k)
        s = st.envs.get(k)
        if s is None:
            raise Violation("an automatic movement for an envelope that does not exist", **who)
        if p.amount.sym != s.env.amount.sym:
            raise Violation("an automatic movement in another currency than the envelope's", **who)
        if p.amount.mag <= 0:
            raise Violation("an automatic movement that is not positive", **who)
        if s.env.funding not in ("aggressive", "conservative"):
            raise Violation("an envelope without automatic funding was moved", funding=s.env.funding, **who)
        if s.due is None:
            raise Violation("an envelope without a coming due date was moved", **who)
        if s.last == day:
            raise Violation("an envelope was moved although a transaction of today already moved it", **who)
        if s.shown_next + p.amount.f > s.env.amount.f + tol(s.scale + s.env.amount.f):
            raise Violation("an envelope was overfilled", next_before=F(s.shown_next), target=F(s.env.amount.f), **who)
        tot.setdefault((p.account, p.amount.sym), []).append((s, p.amount.f))
    for (a, sym), xs in tot.items():
        av = max(st.available(a).get(sym, Fraction(0)), Fraction(0))
        if sum(x for _, x in xs) > av + tol(st.avail_scale(a, sym)) * (1 + len(xs)):
            raise Violation("automatic movements took more than was available", account=a, currency=sym, available=F(av),
                            moved=F(sum(x for _, x in xs)), today=str(day))
    if not amounts:
        return st
    groups = {}
    for (a, n), s in st.envs.items():
        groups.setdefault((a, s.env.amount.sym), []).append(s)
    moved = {(p.account, p.envelope): p.amount.f for p in posts}
    for (a, sym), ss in groups.items():
        w = {s.env.name: model.wanted(s, day) for s in ss}
        t = tol(st.avail_scale(a, sym) + sum(w.values()))
        av = max(st.available(a).get(sym, Fraction(0)), Fraction(0))
        got = {n: moved.get((a, n), Fraction(0)) for n in w}
        who = dict(account=a, currency=sym, today=str(day), available=F(av), wanted=show(w), moved=show(got))
        need = sum(w.values())
        ctx.n["fundings_compared"] += sum(1 for x in w.values() if x > 0)
        for n in w:
            if got[n] > w[n] + t:
                raise Violation("an automatic movement is larger than the funding method asks for", envelope=n, **who)
            if av >= need and got[n] < w[n] - t:
                raise Violation("there is enough money, but an envelope did not get what its funding method asks for", envelope=n, **who)
        if av < need and abs(sum(got.values()) - av) > t * (1 + len(w)):
            raise Violation("money is short of all needs, but was not used up", **who)
    return st
