"""Parsers of what silverfox prints and writes. Anything that cannot be understood is a violation of the report's shape."""
from __future__ import annotations
import datetime as dt
import re
from decimal import Decimal
from fractions import Fraction

from .core import Violation
from .model import Amt, Entry, Post

SYMCH = r"[^\d\s.,\-|/]"
AMT = re.compile(rf"^(?P<pre>{SYMCH}*)\s*(?P<num>-?\d+(?:\.\d+)?)\s*(?P<post>{SYMCH}*)$")


def parse_shown(s, ctx=""):
    m = AMT.match(s.strip())
    if not m or (m["pre"] and m["post"]):
        raise Violation("a report shows something that is not an amount", text=s, line=ctx)
    return Fraction(Decimal(m["num"])), (m["pre"] or m["post"] or None)


def tol(scale):
    """half of the eighth decimal plus what summing binary floating-point numbers can lose"""
    return Fraction(6, 10**9) + Fraction(4, 10**15) * Fraction(scale)


def close(a, b, scale=0):
    return abs(a - b) <= tol(scale)


def put(d, sym, v, line):
    if sym in d:
        raise Violation("the same currency is shown twice", line=line)
    d[sym] = v


def parse_balance(out):
    res, cur = {}, None
    for line in out.split("\n"):
        if not line.strip():
            continue
        if line.startswith("\t"):
            if cur is None:
                raise Violation("balance report: an amount without an account", line=line)
            v, s = parse_shown(line, line)
            put(res[cur], s, v, line)
        else:
            parts = line.split(None, 1)
            cur = parts[0]
            if line[0].isspace():
                raise Violation("balance report: a line that belongs to no account", line=line)
            if cur in res:
                raise Violation("balance report: an account is listed twice", account=cur, stdout=out[-2000:])
            res[cur] = {}
            if len(parts) > 1 and parts[1].strip():
                v, s = parse_shown(parts[1], line)
                put(res[cur], s, v, line)
    return res


NOW = re.compile(r"^      now\s+(?P<a>.+?)\s+/\s+(?P<t>.+?)\s+\|[^|]*\|\s*$")
NEXT = re.compile(r"^      next(?:\s+\(on (?P<d>[^)]*)\))?\s+(?P<a>.+?)\s+/\s+(?P<t>.+?)\s+\|[^|]*\|\s*$")


def parse_envelopes(out):
    """{account: {"available": {sym: v}, "envs": {name: {...}}}}"""
    res, acct, sect, env = {}, None, None, None
    for line in out.split("\n"):
        if not line.strip():
            continue
        if not line[0].isspace():
            acct = line.strip()
            if acct in res:
                raise Violation("envelopes report: an account is listed twice", account=acct)
            res[acct] = {"available": {}, "envs": {}}
            sect = env = None
            continue
        if acct is None:
            raise Violation("envelopes report: text before the first account", line=line)
        ind = len(line) - len(line.lstrip(" "))
        word = line.strip()
        if ind == 2 and word in ("available", "expenses", "goals"):
            sect, env = word, None
        elif ind >= 4 and sect == "available":
            v, s = parse_shown(line, line)
            put(res[acct]["available"], s, v, line)
        elif ind == 4 and sect in ("expenses", "goals"):
            if word in res[acct]["envs"]:
                raise Violation("envelopes report: an envelope is listed twice", account=acct, envelope=word)
            env = res[acct]["envs"][word] = {"type": sect}
        elif ind == 6 and env is not None and NOW.match(line) and "now" not in env:
            m = NOW.match(line)
            env["now"], env["sym"] = parse_shown(m["a"], line)
            env["target"], env["tsym"] = parse_shown(m["t"], line)
        elif ind == 6 and env is not None and NEXT.match(line) and "now" in env and "next" not in env:
            m = NEXT.match(line)
            env["next"], s2 = parse_shown(m["a"], line)
            t2, ts2 = parse_shown(m["t"], line)
            if s2 != env["sym"] or t2 != env["target"] or ts2 != env["tsym"]:
                raise Violation("envelopes report: now and next disagree about currency or target", line=line)
            env["due"] = None
            if m["d"] is not None:
                try:
                    env["due"] = dt.date.fromisoformat(m["d"])
                except ValueError:
                    raise Violation("envelopes report: the due date is not a date", line=line)
        else:
            raise Violation("envelopes report: a line that cannot be understood", line=line)
    for a, x in res.items():
        for n, e in x["envs"].items():
            if "next" not in e:
                raise Violation("envelopes report: an envelope without amounts", account=a, envelope=n)
    return res


def parse_register(out):
    """list of (prelude text, [(change, running, sym)])"""
    rows = []
    for line in out.split("\n"):
        if not line.strip():
            continue
        if " -> " in line:
            head, tail = line.rsplit(" -> ", 1)
            parts = re.split(r"\s{2,}", tail.strip())
            if len(parts) != 3:
                raise Violation("register: a row that cannot be understood", line=line)
            rows.append((head, parts[0], [_reg(parts[1:], line)]))
        else:
            parts = re.split(r"\s{2,}", line.strip())
            if len(parts) != 2 or not rows:
                raise Violation("register: a row that cannot be understood", line=line)
            rows[-1][2].append(_reg(parts, line))
    return rows


def _reg(parts, line):
    c, s = parse_shown(parts[0], line)
    r, s2 = parse_shown(parts[1], line)
    if s != s2:
        raise Violation("register: change and running total in different currencies", line=line)
    return (c, r, s)


# ---------------------------------------------------------------- reading what was written to the journal
def parse_amt_text(s):
    """an amount as written in a journal (one number, an optional symbol on either side of it)"""
    s = s.replace("--", "")
    sym = "".join(c for c in s if not (c.isdigit() and c.isascii()) and c not in "-.," and not c.isspace())
    num = "".join(c for c in s if (c.isdigit() and c.isascii()) or c in "-.")
    return Amt(Decimal(num), sym or None)


def strip_comment(line):
    i = min([k for k in (line.find("//"), line.find(";")) if k >= 0], default=None)
    return (line, None) if i is None else (line[:i], line[i:].lstrip("/;").strip())


def parse_written(text, fmt):
    """entries appended by silverfox, read independently of it"""
    res = []
    for line in text.split("\n"):
        if not line.strip():
            continue
        try:
            if not line[0].isspace():
                body, comment = strip_comment(line)
                toks = body.split()
                d = dt.datetime.strptime(toks[0], fmt).date()
                if toks[1] not in ("?", "~", "*"):
                    raise ValueError("status")
                rest = " ".join(toks[2:])
                payee = None
                if "[" in rest:
                    payee = rest[rest.index("[") + 1:rest.rindex("]")].strip()
                    rest = rest[:rest.index("[")].strip()
                res.append(Entry(d, toks[1], rest, payee, [], comment))
            else:
                body, _ = strip_comment(line)
                toks = body.split()
                if toks[0] == "envelope":
                    res[-1].posts.append(Post(toks[1], parse_amt_text(" ".join(toks[3:])), envelope=toks[2]))
                    continue
                acct, ops, cur = toks[0], {"": []}, ""
                for t in toks[1:]:
                    if t in ("@", "=", "!"):
                        cur = t
                        ops[cur] = []
                    else:
                        ops[cur].append(t)
                get = lambda k: parse_amt_text(" ".join(ops[k])) if ops.get(k) else None
                cost = None
                for k in ("@", "="):
                    if get(k) is not None:
                        cost = (k, get(k))
                res[-1].posts.append(Post(acct, get(""), cost, get("!")))
        except Violation:
            raise
        except Exception as e:
            raise Violation("the text added to the journal is not a sequence of transactions", line=line, added=text[-2000:], error=str(e))
    return res
