"""Import rules: an independent model of what a rules file makes of a CSV record, and generators for both."""
from __future__ import annotations
import csv
import datetime as dt
import io
from copy import deepcopy
from dataclasses import dataclass, field
from decimal import Decimal as D, InvalidOperation

from . import gen
from .model import Amt, Entry, Post


class RecordError(Exception):
    """this record (or rule) has to make the import fail"""


DEFAULTS = dict(comment="", date_format="%Y/%m/%d", date="%date%", decimal=".", description="%description%", fields=[], payee="", skip=1, status="~",
                accounts={}, amounts={})
ALIAS = {"note": "comment", "decimal_symbol": "decimal"}


def apply(st, name, value):
    key = ALIAS.get(name, name)
    if name.startswith("account") or name.startswith("amount"):
        pool, idx = ("accounts", name[7:]) if name.startswith("account") else ("amounts", name[6:])
        if value == "-":
            st[pool].pop(idx, None)
        else:
            st[pool][idx] = value
    elif key == "fields":
        st["fields"] = st["fields"] + [f.strip() for f in value.split(",")]
    elif key == "skip":
        st["skip"] = 1 if value == "-" else int(value)
    else:
        st[key] = DEFAULTS[key] if value == "-" else value


def evaluate(stmts, st=None, blocks=None):
    """(general rules, [(patterns, rules)]) of a list of statements"""
    st = deepcopy(DEFAULTS) if st is None else st
    blocks = [] if blocks is None else blocks
    for s in stmts:
        if s[0] == "set":
            apply(st, s[1], s[2])
        elif s[0] == "include":
            evaluate(s[2], st, blocks)
        else:
            b = deepcopy(st)
            evaluate(s[2], b, [])
            blocks.append((s[1], b))
    return st, blocks


def text_of(stmts, files, rng=None):
    """the rules file; included files go to `files`"""
    out = []
    gap = lambda: rng.choice([" ", " ", " ", " ", " ", " ", "  ", "\t", "      "]) if rng else " "
    for s in stmts:
        if s[0] == "set":
            out.append(s[1] + gap() + s[2])
        elif s[0] == "include":
            files[s[1]] = text_of(s[2], files, rng)
            out.append(f"{rng.choice(['include', 'use']) if rng else 'include'}{gap()}{s[1]}")
        else:
            pats = list(s[1])
            if rng is not None and rng.random() < 0.2:
                out.append("if")
            else:
                out.append("if" + gap() + pats.pop(0))
            out += pats
            ind = rng.choice(["    ", "  ", "\t", " "]) if rng else "    "
            out += [ind + x for x in text_of(s[2], files, rng).split("\n") if x]
        if rng is not None and rng.random() < 0.2:
            out.append("")
    return "\n".join(out) + "\n"


def inject(s, env):
    """%name% -> value, in one pass; anything else is literal"""
    out, i = "", 0
    while i < len(s):
        if s[i] == "%":
            j = s.find("%", i + 1)
            if j > 0 and s[i + 1:j] in env:
                out += env[s[i + 1:j]]
                i = j + 1
                continue
        out += s[i]
        i += 1
    return out


def norm(s):
    return " ".join(s.split())


def parse_amt(s, dec):
    s = s.replace("--", "")
    if not s.strip():
        return None
    num = "".join(c for c in s if c in "0123456789-" or c == dec).replace(dec, ".")
    sym = "".join(c for c in s if not (c in "0123456789-.," or c == dec or c.isspace()))
    try:
        return Amt(D(num), sym or None)
    except InvalidOperation:
        raise RecordError(f"amount {s!r}")


def parse_posting(s, dec, declared):
    toks = s.split()
    ops, cur = {"": []}, ""
    for t in toks[1:]:
        if t in ("@", "=", "!"):
            cur = t
            ops[cur] = []
        else:
            ops[cur].append(t)
    get = lambda k: parse_amt(" ".join(ops[k]), dec) if k in ops else None
    for k in ops:
        if k and get(k) is None:
            raise RecordError("an assertion without amount")
    if toks[0] not in declared:
        raise RecordError("undeclared account " + toks[0])
    cost = next(((k, get(k)) for k in ("@", "=") if k in ops), None)
    return Post(toks[0], get(""), cost, get("!"))


def block_for(rec, blocks):
    for pats, b in blocks:
        for p in pats:
            if any(p.lower() in f.lower() for f in rec):
                return b
    return None


def unclear(rec, blocks):
    """a pattern that occurs only across the border of two fields"""
    joined = "".join(rec).lower()
    return any((p.lower() in joined) != any(p.lower() in f.lower() for f in rec) for pats, _ in blocks for p in pats)


def entry_of(rec, st, declared):
    accounts = st["accounts"] or {"": "%account%"}
    amounts = st["amounts"] or {"": "%amount%"}
    env = {}
    for n, v in zip(st["fields"], rec):
        if n in env:
            raise RecordError("duplicate field " + n)
        env[n] = norm(v)
    raw = inject(st["date"], env)
    try:
        date = dt.datetime.strptime(raw, st["date_format"]).date()
    except ValueError:
        raise RecordError(f"date {raw!r}")
    status = inject(st["status"], env)
    if status not in ("?", "~", "*"):
        raise RecordError("status")
    desc = norm(inject(st["description"], env))
    payee = norm(inject(st["payee"], env)) if st["payee"].strip() else None
    comment = inject(st["comment"], env) if st["comment"].strip() else None
    posts = []
    for idx, a in accounts.items():
        posts.append(parse_posting(inject(a + (" " + amounts[idx] if idx in amounts else ""), env), st["decimal"], declared))
    if len(posts) == 1:
        a = posts[0].amount
        if a is None:
            raise RecordError("no amount")
        name = "expenses:unknown" if a.mag < 0 else "income:unknown" if a.mag > 0 else "unknown"
        if name not in declared:
            raise RecordError("undeclared counterpart")
        posts.append(Post(name, None))
    return Entry(date, status, desc, payee, posts, comment)


def expected(records, stmts, declared):
    st, blocks = evaluate(stmts)
    res = []
    for r in records[st["skip"]:]:
        res.append(entry_of(r, block_for(r, blocks) or st, declared))
    return res


def csv_text(records, rng):
    out = io.StringIO()
    mode = rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL])
    csv.writer(out, quoting=mode, lineterminator=rng.choice(["\n", "\n", "\r\n"])).writerows(records)
    s = out.getvalue()
    if rng.random() < 0.2:
        s = s.rstrip("\r\n")
    return s


# ---------------------------------------------------------------- generators
WORDS = ["Groceries", "ACME", "Café", "ÜBER", "rent", "coffee SHOP", "50% off", "100%", "%amount%", "a, b", 'say "hi"', "two  spaces", "line\nbreak", "Müller & Söhne",
         "日本", "x]", "o'clock", "#42", "transfer", "ATM 24h", "REF 0012345", "@home", "=", "!", "~", "* star", "%description%", "é", "SALARY", "12.50", "1,5", "-",
         "include", "if", "ЯNDEX", "tab\there", "envelope", "%", "% %", "->", "account x"]
NOTES = WORDS + ["see // http://x.example", "a; b", "[brackets]", "; semi", "// slash"]
CSYMS = ["$", "€", "BTC", "USD", "kr", "points"]


@dataclass
class Setup:
    stmts: list
    records: list
    cols: list
    assertion: bool = False
    blocks: int = 0
    raw: dict = field(default_factory=dict)


def fmt_num(v, dec, rng):
    neg = v < 0
    i, _, f = gen.num(v).partition(".")
    if rng.random() < 0.3 and len(i) > 3:
        g, k = [], i
        while k:
            g.insert(0, k[-3:])
            k = k[:-3]
        i = ("." if dec == "," else ",").join(g)
    if len(f) < 2 and rng.random() < 0.5:
        f += "0" * (2 - len(f))
    s = i + (dec + f if f else "")
    return ("-" if neg else "") + s


def dfmt(rng):
    return rng.choice(["%Y/%m/%d", "%Y/%m/%d", "%Y-%m-%d", "%d.%m.%Y", "%m/%d/%Y", "%Y%m%d", "%d %b %Y", "%B %d, %Y"])


def setup(rng, accounts, today, native_assert=None, rich_blocks=False, mags=("int", "cents", "round", "dec8", "big")):
    """rules (as statements) and records that fit them"""
    n_rec = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 12, 30])
    fmt = dfmt(rng)
    dec = rng.choice([".", ".", ","])
    classes = rng.sample(list(mags), rng.randint(1, 3))
    money = [a for a in accounts if a.startswith("asset")] or accounts
    acct = rng.choice(money)
    other = rng.choice([a for a in accounts if a != acct])
    third = rng.choice([a for a in accounts if a not in (acct, other)] or [other])
    has = lambda p: rng.random() < p
    cols = ["date", "description", "amount"]
    opt = [c for c in ("payee", "status", "note", "acct", "currency", "price", "other", "extra col", "_") if has(0.35)]
    cols = cols + opt
    if has(0.05):
        cols += [f"column {i}" for i in range(rng.randint(5, 70))]
    rng.shuffle(cols)
    names = {c: c for c in cols}
    if has(0.3):
        names["date"] = "booked on"
    if has(0.3):
        names["description"] = "text"
    if has(0.3):
        names["amount"] = "Betrag"
    if has(0.15):
        names["acct"] = "account"
    V = lambda c: "%" + names[c] + "%"
    S = lambda n, v: ("set", n, v)
    rules = []
    shape = rng.choice(["single", "single", "single", "twoblank", "twofull", "threeblank"])
    cur = "currency" in cols
    base = rng.choice([V("amount"), V("amount"), "-" + V("amount")])
    if cur:
        base = rng.choice([base + " " + V("currency"), V("currency") + base, V("currency") + " " + base])
    elif has(0.2):
        base = rng.choice(["$" + base, base + " USD", "€ " + base])
    price = ""
    if shape == "single" and "price" in cols and (cur or base != V("amount")) and has(0.8):
        price = rng.choice([" @ ", " = "]) + V("price")
    acct_rule = V("acct") if "acct" in cols and has(0.7) else acct
    idx = rng.choice(["", "1", "7", "12"])
    default_amount = names["amount"] == "amount" and base == "%amount%" and not price and has(0.7)
    default_account = acct_rule == "%account%" and has(0.7)
    if shape == "single":
        if default_amount or default_account:
            idx = ""
        if not default_account:
            rules.append(S("account" + idx, acct_rule))
        if not default_amount:
            rules.append(S("amount" + idx, base + price))
        elif idx:
            rules.append(S("amount" + idx, base))
    else:
        i1, i2, i3 = rng.sample(rng.choice([["", "1", "2", "3", "x"], ["1", "10", "11", "12"], ["", "2", "10", "20", "xy", "x"]]), 3)
        rules += [S("account" + i1, acct_rule), S("amount" + i1, base)]
        rules.append(S("account" + i2, other))
        if shape == "twofull":
            rules.append(S("amount" + i2, base.replace("%" + names["amount"] + "%", "-%" + names["amount"] + "%")))
        elif shape == "threeblank":
            rules.append(S("account" + i3, third))
            rules.append(S("amount" + i3, base.replace("%" + names["amount"] + "%", rng.choice(["-", ""]) + "%" + names["amount"] + "%") if has(0.5) else
                           base.replace("%" + names["amount"] + "%", "1" if dec == "." else "1,0")))
    if fmt != "%Y/%m/%d" or has(0.2):
        rules.append(S("date_format", fmt))
    if names["date"] != "date":
        rules.append(S("date", V("date")))
    elif has(0.1):
        rules.append(S("date", "%date%"))
    if names["description"] != "description" or has(0.25):
        rules.append(S("description", rng.choice([V("description"), V("description") + " (imported)", "100% " + V("description"), "fixed text",
                                                  V("description") + " " + V(rng.choice([c for c in cols if c not in ("acct", "note")]))])))
    if dec != "." or has(0.15):
        rules.append(S(rng.choice(["decimal_symbol", "decimal"]), dec))
    if "status" in cols and has(0.8):
        rules.append(S("status", V("status")))
    elif has(0.3):
        rules.append(S("status", rng.choice("?~*")))
    if "payee" in cols and has(0.8):
        rules.append(S("payee", V("payee")))
    elif has(0.2):
        rules.append(S("payee", rng.choice(["Ferris the Crab", "Bob " + V("amount")])))
    if "note" in cols and has(0.8):
        rules.append(S(rng.choice(["comment", "note"]), rng.choice([V("note"), "note: " + V("note") + " %nosuchfield%"])))
    elif has(0.2):
        rules.append(S("comment", "imported"))
    skip = rng.choice([1, 1, 1, 0, 2, 3])
    if skip != 1 or has(0.2):
        rules.append(S("skip", str(skip)))
    # values that are taken back again
    if has(0.35):
        for n in rng.sample(["comment", "payee", "status", "description", "date", "date_format", "decimal", "skip"], rng.randint(1, 3)):
            key = ALIAS.get(n, n)
            if not any(ALIAS.get(r[1], r[1]) == key for r in rules):
                rules += [("pair", n, rng.choice({"status": ["*", "!!"], "skip": ["5", "0"], "decimal": [",", "x"], "date_format": ["%d", "nonsense"]}.get(n, ["wrong", "%nope% x"])))]
    if has(0.1) and shape == "single" and (default_amount or rules[0][1].startswith("account")):
        rules.append(("pair", "account9", other))
    if has(0.1):
        # (taking back one amount or account is about that one)
        used = {x[len(k):] for k in ("account", "amount") for x in (r[1] for r in rules) if x.startswith(k)}
        free = [x for x in ("1", "2", "x") if x not in used and any(u.startswith(x) for u in used)]
        if free:
            rules.append(("pair", rng.choice(["amount", "account"]) + free[0], "wrong 1"))
    rng.shuffle(rules)
    flat = []
    for r in rules:
        if r[0] == "pair":
            flat += [S(r[1], r[2]), S(r[1], "-")]
        else:
            if has(0.06):
                # said twice: the last one counts
                flat.insert(rng.randint(0, len(flat)), S(r[1], {"status": "?", "skip": "7", "decimal": "x", "decimal_symbol": "x"}.get(r[1], "%d" if r[1] == "date_format" else "wrong 1")))
            flat.append(r)
    # more columns than names, or more names than columns
    surplus = rng.choice([0, 0, 0, 1, 2])
    unused = ["absent"] if not surplus and has(0.1) else []
    flat.insert(rng.randint(0, len(flat)), S("fields", rng.choice([", ", ","]).join([names[c] for c in cols] + unused)))
    # records
    recs = []
    head = [names[c] for c in cols]
    for _ in range(skip):
        recs.append([rng.choice([h, h, h.upper(), ""]) for h in head] + ["more"] * surplus)
    day = today - dt.timedelta(days=rng.randint(0, 300))
    csym = rng.sample(CSYMS, rng.randint(1, 2))
    repeats = has(0.3)
    for _ in range(n_rec):
        if repeats and len(recs) > skip and has(0.4):
            recs.append(list(recs[-1] if has(0.6) else rng.choice(recs[skip:])))
            continue
        row = {}
        day += dt.timedelta(days=rng.choice([0, 0, 1, 3, 30, -2]))
        row["date"] = day.strftime(fmt)
        row["description"] = " ".join(rng.choice(WORDS) for _ in range(rng.choice([1, 1, 2, 3]) if not has(0.02) else rng.randint(20, 400)))
        m = D(0) if has(0.06) else gen.mag(rng, classes, False)
        row["amount"] = fmt_num(m, dec, rng)
        row["currency"] = rng.choice(csym)
        row["price"] = fmt_num(gen.mag(rng, ["int", "cents", "round"]) * (1 if " @ " in price else (-1 if m < 0 else 1) * (-1 if "-%" in base else 1)), dec, rng)
        row["payee"] = rng.choice(["Bob", "The Shop", "", "Zoë & Co", "50%", "%amount%"])
        row["status"] = rng.choice("?~*")
        row["note"] = rng.choice(["", *NOTES])
        row["acct"] = rng.choice(money)
        row["other"] = rng.choice(WORDS)
        row["extra col"] = rng.choice(["", "X1", "zz top"])
        row["_"] = rng.choice(["", "ignore me"])
        row.update((c, rng.choice(WORDS)) for c in cols if c.startswith("column "))
        recs.append([row[c] for c in cols] + [rng.choice(["", "kind A", "kind B", *WORDS]) for _ in range(surplus)])
    su = Setup(flat, recs, cols)
    su.raw = dict(acct=acct, other=other, third=third, names=names, dec=dec, shape=shape, fmt=fmt, skip=skip, base=base)
    add_blocks(rng, su, accounts, rich_blocks)
    structure(rng, su)
    return su


def some_pattern(rng, su):
    data = su.records[su.raw["skip"]:]
    if not data or rng.random() < 0.2:
        return rng.choice(["nothing like this", "zzz", "acme", "CAFÉ", "über", "salary"])
    f = rng.choice(data)
    f = rng.choice(f[len(su.cols):] if len(f) > len(su.cols) and rng.random() < 0.3 else f)
    f = f.strip()
    if len(f) > 3 and rng.random() < 0.7:
        i = rng.randint(0, len(f) - 3)
        f = f[i:i + rng.randint(3, len(f) - i)]
    f = f.strip()
    return rng.choice([f, f.upper(), f.lower(), f.swapcase(), f.title()])


def add_blocks(rng, su, accounts, rich):
    k = (rng.randint(25, 45) if rng.random() < 0.03 else rng.choice([1, 2, 3, 4])) if rich else rng.choice([0, 0, 1, 2])
    data = su.records[su.raw["skip"]:]
    nm, has = su.raw["names"], lambda p: rng.random() < p
    for _ in range(k):
        pats = [f"no such thing {i}" for i in range(rng.randint(5, 60))] if has(0.04) else []
        for _ in range(rng.choice([1, 1, 2, 3])):
            for _ in range(10):
                p = some_pattern(rng, su)
                ok = p and p == p.strip() and "\n" not in p and "\t" not in p and ";" not in p and "//" not in p and not any(unclear(r, [([p], None)]) for r in data)
                # case folding that changes the length is left alone
                if ok and p.lower() == p.lower().lower() and len(p.lower()) == len(p):
                    pats.append(p)
                    break
        if not pats:
            continue
        body = []
        for n in rng.sample(["comment", "payee", "status", "description", "account", "amountneg", "decimal", "date_format", "reset"], rng.choice([1, 1, 2, 3])):
            if n == "reset":
                idx = [r[1] for r in su.stmts if r[0] == "set" and r[1].startswith(("account", "amount")) and r[2] != "-"]
                if idx:
                    body += [("set", x, "-") for x in rng.sample(idx, rng.choice([1, 1, min(2, len(idx))]))]
            elif n == "comment":
                body.append(("set", "comment", rng.choice(["matched", "block %" + nm["description"] + "%" if "note" not in su.cols else "%note%", "-"])))
            elif n == "payee":
                body.append(("set", "payee", rng.choice(["Somebody", "-"])))
            elif n == "status":
                body.append(("set", "status", rng.choice(["*", "?", "-", "~"])))
            elif n == "description":
                body.append(("set", "description", rng.choice(["from block", "%" + nm["description"] + "%", "-", "b %" + nm["amount"] + "%"])))
            elif n == "account":
                acc = [r for r in su.stmts if r[0] == "set" and r[1].startswith("account") and r[1] != "account9"]
                if acc:
                    body.append(("set", rng.choice(acc)[1], rng.choice(accounts)))
                if has(0.3) and su.raw["shape"] == "single" and not any(r[0] == "set" and r[1] == "account4" for r in su.stmts):
                    # a counterpart of its own
                    body.append(("set", "account4", rng.choice(accounts)))
            elif n == "amountneg":
                am = [r for r in su.stmts if r[0] == "set" and r[1].startswith("amount")]
                if len(am) == 1 and su.raw["shape"] != "twofull":
                    v = am[0][2]
                    if " @ " not in v and " = " not in v:
                        body.append(("set", am[0][1], "-" + v if not v.startswith("-") else v[1:]))
            elif n == "decimal" and has(0.3):
                body.append(("set", "decimal", su.raw["dec"]))
            elif n == "date_format" and has(0.3):
                body.append(("set", "date_format", su.raw["fmt"]))
        if body:
            su.stmts.insert(rng.choice([len(su.stmts), len(su.stmts), rng.randint(0, len(su.stmts))]), ("if", pats, body))
            su.blocks += 1


def structure(rng, su):
    """move runs of statements into included files"""
    for i in range(rng.choice([0, 0, 1, 2])):
        if len(su.stmts) < 2:
            break
        a = rng.randint(0, len(su.stmts) - 1)
        b = rng.randint(a + 1, min(len(su.stmts), a + 4))
        su.stmts[a:b] = [("include", rng.choice([f"inc{i}.rules", f"rules/inc{i}.rules", f"./inc{i}.txt"]), su.stmts[a:b])]
    if rng.random() < 0.04:
        su.stmts[rng.randint(0, len(su.stmts)):0] = [("include", "none.rules", [])] * rng.choice([130, 257, 300, 600])
    for i, s in enumerate(su.stmts):
        if s[0] == "if" and rng.random() < 0.15 and all(x[0] == "set" for x in s[2]):
            su.stmts[i] = ("if", s[1], [("include", f"blk{i}.rules", s[2])])


def usable(su, declared, acceptable):
    """the expected transactions; records whose meaning is not settled are taken out first"""
    st, blocks = evaluate(su.stmts)
    keep, exp = su.records[:st["skip"]], []
    for r in su.records[st["skip"]:]:
        if unclear(r, blocks):
            continue
        try:
            e = entry_of(r, block_for(r, blocks) or st, declared)
        except RecordError:
            continue
        if any(x in (e.desc + (e.payee or "")) for x in (";", "//", "[")) or "]" in (e.payee or "") or (e.payee is None and e.desc == "]"):
            continue
        if not acceptable(e) or not plausible(e):
            continue
        keep.append(r)
        exp.append(e)
    su.records = keep
    return exp


def plausible(e):
    """single-currency transactions without prices have to be balanced; omitted amounts need one currency"""
    known = [p.amount for p in e.posts if p.amount is not None]
    blanks = len(e.posts) - len(known)
    syms = {a.sym for a in known}
    if blanks > 1 or (blanks and len(syms) > 1):
        return False
    if not blanks and len(syms) <= 1 and not any(p.cost for p in e.posts) and sum((a.mag for a in known), D(0)) != 0:
        return False
    if any(a is not None and -a.mag.as_tuple().exponent > 8 for p in e.posts for a in (p.amount, p.cost and p.cost[1], p.assertion)):
        return False
    if any(p.cost and p.cost[1].mag == 0 for p in e.posts):
        return False
    # a total cost of the other sign means nothing
    return not any(p.cost and p.cost[0] == "=" and (p.cost[1].mag < 0) != (p.amount.mag < 0) for p in e.posts)
