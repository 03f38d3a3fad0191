"""Files: append-only under faults, read back what was written, includes and paths, choice of the journal."""
from __future__ import annotations
import datetime as dt
import errno
import os
import random
from dataclasses import replace
from decimal import Decimal as D
from fractions import Fraction

from . import gen, model, outp, rules
from .checks_envelopes import FUND, fund_world, income
from .checks_import import (UNKNOWN, args_for, check_import, good_import, is_auto, same_entry, take_auto, with_assertions, write_setup, flatten)
from .checks_reports import compare_obs, journal_scale
from .common import Journal, auto_entries, check_moves, cmp_balance, cmp_envelopes, cmp_register
from .core import VERIF, Violation
from .gen import Opt, Style, World, render, today_pool
from .model import Account, Amt, DateFmt, Entry, Post, split
from .props import check

DAY = dt.timedelta(days=1)


def mutating(events):
    return [e for e in events if not e.startswith(("open-r", "read-r", "getenv"))]


def pending(items, today):
    """money is going to be moved"""
    st = model.state(items, today)
    return any(model.wanted(s, today) > 0 and st.available(s.account).get(s.env.amount.sym, 0) > 0 for s in st.envs.values())


def pending_world(rng, today, opt, extra=(), tries=12):
    """a world in which, usually, money is going to be moved"""
    for _ in range(tries):
        w = World(rng, today, opt)
        for _ in range(2):
            e = income(w, rng, rich=True)
            if e:
                w.entries.append(e)
        for n in extra:
            if n not in w.accounts:
                w.accounts[n] = Account(n)
                w.names.append(n)
        if pending(list(w.accounts.values()) + w.entries, today) or rng.random() < 0.1:
            break
    return w


def lines_of(b):
    return sorted(x.strip() for x in b.decode("utf-8", "replace").split("\n") if x.strip())


# ---------------------------------------------------------------- C05
def others_written(events, box, real):
    """names other than the journal's that a run opened for writing, made or removed, inside its directory"""
    names = set()
    for e in mutating(events):
        k, _, rest = e.partition(" ")
        if k == "open-w":
            names.add(rest.split(" flags=")[0].split(" errno ")[0])
        elif k in ("truncate", "unlink", "unlinkat", "rename", "renameat", "renameat2", "link", "symlink"):
            names.update(rest.split(" ")[:2])
    full = {os.path.normpath(os.path.join(box.top, n)) for n in names}
    return {f for f in full if f.startswith(box.top + "/") and os.path.isdir(os.path.dirname(f)) and os.path.realpath(f) != os.path.realpath(box.path(real))}


# ---------------------------------------------------------------- C05
def faults(events, rng, every):
    """every fault point of a recorded run: each mutating event with each kind of fault, each read with the reading faults"""
    out = []
    mut = mutating(events)
    nopen = sum(1 for e in mut if e.startswith("open-w"))
    for n, e in enumerate(mut, 1):
        out += [f"kill:{n}", f"killaft:{n}"]
        if e.startswith("write"):
            size = int(e.split()[2])
            for k in sorted({0, 1, size // 2, size - 1, rng.randint(0, size)}):
                out.append(f"part:{n}:{k}")
            for k in sorted({0, 1, size // 2, size - 1}):
                out.append(f"enospc:{n}:{k}")
            for k in sorted({1, size // 2, size - 1} - {0}):
                out.append(f"short:{n}:{k}")
        out += [f"eintr:{n}"] + [f"fail:{n}:{c}" for c in (errno.EIO, errno.EDQUOT, errno.EAGAIN)]
    for n in range(1, nopen + 1):
        out += [f"failopen:{n}:{c}" for c in (errno.EACCES, errno.EROFS, errno.EMFILE, errno.EINTR)]
    nr = sum(1 for e in events if e.startswith("open-r") and not e.startswith(("open-r /usr", "open-r /etc", "open-r /proc", "open-r /sys", "open-r /lib")))
    reads = sum(1 for e in events if e.startswith("read-r"))
    rd = [f"failopenr:{n}:{errno.EMFILE}" for n in range(1, nr + 1)]
    for n in range(1, reads + 1):
        rd += [f"failread:{n}:{errno.EIO}", f"failread:{n}:{errno.EINTR}", f"shortread:{n}:1"]
    if not every and len(rd) > 6:
        rd = rng.sample(rd, 6)
    return out + rd


def big_import(rng, su, exp, n):
    """many records, so that what is written does not fit into one buffer"""
    st, _ = rules.evaluate(su.stmts)
    k = st["skip"]
    data = su.records[k:]
    if not data:
        return exp
    su.records = su.records[:k] + [r for _ in range(n) for r in data]
    return [e for _ in range(n) for e in exp]


@check("C05", (1250, 15000), "one case = one command on one set of files, run once for the list of its file operations and then once more for every operation and every kind of fault "
       "(killed before, in and after it, disk full, I/O error, short and interrupted writes and reads); distinct = distinct (files, command, fault)",
       level="fault_enumeration", exhaustive="all mutating file operations of each recorded run, each with every fault kind of the list")
def c05(ctx, rng, box):
    kind = rng.choice(["fill", "fill", "fill", "import", "import", "importfill", "bigimport", "errors", "nomove"])
    su = exp = None
    if kind == "fill" or kind == "nomove":
        for _ in range(6):
            w, j, today = fund_world(ctx, rng, box, rich=rng.choice([True, None]))
            if pending(j.items, today):
                break
        args = [rng.choice(["b", "e", "r", "s", "n"]), "-f", j.rel] + (["-n"] if kind == "nomove" else [])
    else:
        w, j, today, su, exp = good_import(ctx, rng, box, rng.random() < 0.3)
        if kind == "bigimport":
            exp = big_import(rng, su, exp, max(1, rng.choice([100, 250]) // max(1, len(exp))))
        write_setup(box, su, rng)
        args = args_for(rng, box, j, [] if kind != "import" else ["-n"])
        if kind == "errors":
            k = rng.randint(0, 3)
            if k == 0:
                box.write("bank.csv", box.read("bank.csv") + b"\xff\xfe,\xff\n")
            elif k == 1:
                j = Journal(box, j.rel, j.items, box.text(j.rel) + "\n2020/01/01 nonsense\n    nowhere 5\n", j.fmt)
            elif k == 2:
                args = [args[0], "-f", j.rel]
            else:
                args = [args[0], "-f", j.rel, "--csv", "missing.csv"]
    if rng.random() < 0.25:
        # the journal in another directory, reached through a symbolic link; or with another spelling
        box.write("real/main.sfox", box.read(j.rel))
        os.unlink(box.path(j.rel))
        os.symlink("real/main.sfox", box.path(j.rel))
        real = "real/main.sfox"
    else:
        real = j.rel
    if rng.random() < 0.2:
        inc = f"inc{rng.randint(1, 9)}.sfox"
        box.write("real/" + inc if real != j.rel else inc, "; nothing\n")
        box.write(inc, "; nothing\n")
        box.write(real, f"include {inc}\n".encode() + box.read(real))
    box.write("unrelated.txt", "keep\n")
    snap = box.snapshot()
    old = snap[real]
    dry = box.run(args, today=today, log=True)
    if kind != "errors" and dry.panicked:
        raise Violation("the program crashed on a valid journal", run=dry.brief())
    ctx.sample(dict(args=args, events=dry.events[-6:]))

    def judge(fault, r):
        after = box.snapshot()
        for f, d in snap.items():
            if f == real:
                continue
            if after.get(f) != d:
                raise Violation("another file was changed or removed", file=f, fault=fault, args=args)
        new = after.get(real)
        if new is None or not new.startswith(old):
            raise Violation("bytes that were in the journal before are gone or changed", fault=fault, args=args, before=len(old), after=None if new is None else len(new),
                            tail=(new or b"")[-400:].decode("utf-8", "replace"), events=r.events[-8:])
        return new[len(old):]
    tail = judge(None, dry)
    if "-n" in args and kind == "nomove" and tail:
        raise Violation("a report with --no-move wrote to the journal", args=args)
    box.restore(snap)
    # whatever else it would write may exist already
    for f in sorted(others_written(dry.events, box, real)):
        if os.path.exists(f):
            continue
        open(f, "w").write("somebody else's\n")
        r = box.run(args, today=today)
        ctx.n["other_names_written"] += 1
        if not os.path.exists(f) or open(f, "rb").read() != b"somebody else's\n":
            raise Violation("another file was changed or removed", file=f, args=args)
        judge(None, r)
        os.unlink(f)
        box.restore(snap)
    fl = faults(dry.events, rng, ctx.tier == "thorough")
    ctx.n["mutating_events_in_dry_runs"] += len(mutating(dry.events))
    for f in fl:
        r = box.run(args, today=today, fault=f)
        got = judge(f, r)
        ctx.n["faults_injected"] += 1
        ctx.n["fault_" + f.split(":")[0]] += 1
        ctx.sig(old, args, f)
        if r.sig == 9 and f.startswith(("kill", "part")):
            ctx.n["killed"] += 1
        elif not r.panicked and not r.err:
            if lines_of(got) != lines_of(tail):
                raise Violation("no error was reported, but not everything was recorded", fault=f, args=args, recorded=got[-500:].decode("utf-8", "replace"),
                                complete=tail[-500:].decode("utf-8", "replace"), events=r.events[-8:])
            ctx.n["completed_despite_fault"] += 1
        else:
            ctx.n["reported_an_error"] += 1
        box.restore(snap)


# ---------------------------------------------------------------- C06
def same_reports(ctx, cmd, first, second, items):
    if not compare_obs(cmd[0], first, second, journal_scale(items)):
        raise Violation("a report differs after reading back what was written", command=cmd, before=first[-2500:], after=second[-2500:])
    ctx.n["reports_compared"] += 1


PROBE = """account assets:checking
account expenses:unknown
"""


def known_finding(prop, what):
    with open(os.path.join(VERIF, "KNOWN_FINDINGS")) as f:
        return f"known: property={prop} {what}\n" in f.readlines()


def comment_probe(ctx, box):
    """the known finding: a description with a comment mark in it"""
    for mark, kept in (("ACME; INC", "ACME"), ("see http://x.example", "see http:")):
        box.write("p.sfox", PROBE)
        box.write("p.csv", f"date,what,amount\n2024/01/05,{mark},-5\n")
        box.write("p.csv.rules", "fields date,description,amount\naccount1 assets:checking\namount1 %amount%\n")
        r = box.ok(["i", "-n", "-f", "p.sfox", "--csv", "p.csv"], today=dt.date(2024, 1, 6))
        rows = outp.parse_register(box.ok(["r", "-n", "-f", "p.sfox"], today=dt.date(2024, 1, 6)).out)
        if len(rows) != 1:
            raise Violation("an imported transaction is not read back", description=mark)
        shown = " ".join(rows[0][0].split()[2:-1])
        if shown == mark:
            continue
        if shown == kept:
            finding = f"the imported description `{mark}` is read back as `{kept}`, because a comment mark in a description cannot be written in a journal"
            if known_finding("C06", finding):
                ctx.known.append(finding)
                continue
        raise Violation("an imported description is read back as something else", description=mark, shown=shown)


@check("C06", (17500, 210000), "one case = a command that writes (automatic movement or import, in any date format, currency and amount size, file with or without final newline), its report "
       "compared with that of the next run that moves nothing, and each written transaction compared with what it was made from; distinct = distinct files and date")
def c06(ctx, rng, box):
    if ctx.case == 0:
        comment_probe(ctx, box)
    if rng.random() < 0.6:
        opt = replace(FUND, fmts=0.8, syms=(0, 3), mags=("int", "cents", "dec8", "round", "tiny", "big", "huge"))
        style = Style.pick(rng)
        if rng.random() < 0.5:
            style.final_newline = False
        for _ in range(4):
            w, j, today = fund_world(ctx, rng, box, opt=opt, rich=rng.choice([None, True, True]), style=style)
            if pending(j.items, today):
                break
        day = today
        for _ in range(rng.randint(1, 4)):
            cmd = rng.choice(["b", "e", "e"])
            pre = list(j.items)
            r = box.ok([cmd, "-f", j.rel], today=day)
            es = j.tail()
            posts = auto_entries(ctx, es, day)
            check_moves(ctx, pre, day, posts, amounts=False)
            r2 = box.ok([cmd, "-n", "-f", j.rel], today=day)
            same_reports(ctx, cmd, r.out, r2.out, j.items)
            e = box.ok(["e", "-n", "-f", j.rel], today=day).out
            cmp_envelopes(ctx, e, j.items, day)
            if es:
                ctx.n["written_and_read_back"] += len(posts)
            ctx.sig(j.data, str(day))
            day += DAY * rng.choice([1, 1, 2, 10])
        # written transactions appear once and as themselves in the register only if they change assets (they never do)
        cmp_register(ctx, box.ok(["r", "-n", "-f", j.rel], today=day).out, j.items, j.fmt)
        return
    w, j, today, su, exp = good_import(ctx, rng, box, rng.random() < 0.3)
    exp = with_assertions(rng, w, j, su, exp)
    if rng.random() < 0.4:
        box.write(j.rel, box.read(j.rel).rstrip(b"\r\n"))
        j.data = box.read(j.rel)
    rt, _ = write_setup(box, su, rng)
    ctx.sig(rt, box.text("bank.csv"), j.data)
    moving = rng.random() < 0.3
    args = args_for(rng, box, j, [] if moving else ["-n"])
    check_import(ctx, box, j, su, exp, args, today, moving, list(j.items))
    ctx.n["imports_read_back"] += 1
    cmp_balance(ctx, box.ok(["b", "-n", "-f", j.rel], today=today).out, j.items, "balance report after an import")
    cmp_register(ctx, box.ok(["r", "-n", "-f", j.rel], today=today).out, j.items, j.fmt)
    cmp_envelopes(ctx, box.ok(["e", "-n", "-f", j.rel], today=today).out, j.items, today)


# ---------------------------------------------------------------- C18
DIRS = ["", "", "sub", "sub/deep", "été", "a", "a/b", "b", "x.y"]
DECOY = ["2020/01/01 ! broken\n", "account decoy:one\naccount decoy:two\n2020/01/01 * decoy\n    decoy:one 5\n    decoy:two -5\n"]


class Tree:
    """a journal split over files"""

    def __init__(self, rng, box, items, main, depth=3):
        self.rng, self.box, self.files, self.n, self.dirs = rng, box, {}, 0, {}
        self.twice = []
        self.links = 0
        self.flat = []
        self.main = main
        self.fmt = "%Y/%m/%d"
        self.depth = depth
        self.emit(items, main, depth)

    def emit(self, items, rel, depth):
        rng = self.rng
        out = []
        i = 0
        while i < len(items):
            k = rng.choice([1, 1, 2, 3, 6])
            seg = items[i:i + k]
            i += k
            if depth > 0 and rng.random() < 0.45:
                name = self.fresh()
                out.append(self.line(rel, name))
                first = len(self.flat)
                self.emit(seg, name, depth - 1)
                if rng.random() < 0.15 and all(isinstance(x, Entry) for x in seg):
                    # the same file once more: its text counts again (dates have to be readable with the format of then)
                    out.append(self.line(rel, name))
                    self.flat += self.flat[first:]
                    self.twice.append(name)
            else:
                st = Style.pick(rng)
                text, self.fmt = render(seg, st, self.fmt)
                self.flat += seg
                out.append(text)
        if depth > 0 and rng.random() < 0.2:
            name = self.fresh()
            self.files[name] = rng.choice(["", "\n", "; only a comment", "   \n"])
            out.append(self.line(rel, name))
        self.files[rel] = self.join(out)

    def join(self, parts):
        s = ""
        for p in parts:
            if s and not s.endswith("\n"):
                s += "\n"
            s += p
        return s

    def fresh(self):
        self.n += 1
        d = self.rng.choice(DIRS)
        name = self.rng.choice(["inc", "2024", "café", "accounts", "j"]) + f"{self.n}" + self.rng.choice([".sfox", ".txt", ""])
        return os.path.join(d, name)

    def line(self, rel, name):
        rng = self.rng
        here = os.path.dirname(rel)
        p = os.path.relpath(name, here or ".")
        k = rng.random()
        if k < 0.12:
            p = os.path.join(self.box.top, name)
        elif k < 0.3:
            p = "./" + p
        elif k < 0.4 and here:
            p = os.path.join("..", os.path.basename(here), p)
        elif k < 0.5:
            p = p.replace("/", "/./")
        elif k < 0.55 and "/" in p and not p.startswith(".."):
            p = os.path.join(os.path.dirname(p), "..", os.path.basename(os.path.dirname(p)), os.path.basename(p))
        elif k < 0.62:
            # down a symbolic link and up again (to where the link leads, not where it lies)
            d, self.links = os.path.dirname(name), self.links + 1
            ln = f"ln{self.links}"
            os.makedirs(self.box.path(os.path.join(d, "zz")), exist_ok=True)
            os.makedirs(self.box.path(here), exist_ok=True)
            os.symlink(self.box.path(os.path.join(d, "zz")), self.box.path(os.path.join(here, ln)))
            p = os.path.join(ln, "..", os.path.basename(name))
        self.dirs[os.path.dirname(name)] = True
        return "include" + rng.choice([" ", "  ", "\t"]) + p + rng.choice(["", "", " ", " ; comment", " // x"]) + "\n"

    def write(self):
        for d in DIRS:
            os.makedirs(self.box.path(d), exist_ok=True)
        for f, t in self.files.items():
            self.box.write(f, t)
        # files of the same names elsewhere, which must not be read
        rng = self.rng
        for f in list(self.files):
            if f == self.main:
                continue
            for d in set(DIRS) | {"elsewhere"}:
                g = os.path.join(d, os.path.basename(f))
                if g not in self.files and rng.random() < 0.35:
                    self.box.write(g, rng.choice(DECOY))


def spelled(rng, box, main):
    """(cwd, path) to reach the main journal"""
    cwds = [box.top, box.path("elsewhere"), box.path("sub"), os.path.dirname(box.path(main)), "/", box.root]
    cwd = rng.choice(cwds)
    os.makedirs(cwd, exist_ok=True)
    k = rng.random()
    full = box.path(main)
    if k < 0.2:
        p = full
    elif k < 0.3:
        p = os.path.join(box.root, "lnk", main)
    elif k < 0.4:
        p = os.path.join(os.path.relpath(box.root, cwd), "lnk", main)
    else:
        p = os.path.relpath(full, cwd)
        if k < 0.55:
            p = "./" + p
        elif k < 0.65:
            p = p.replace("/", "/./")
    return cwd, p


def cmp_all(ctx, rng, run, items, fmt, today, what=("b", "r", "e")):
    if "b" in what:
        cmp_balance(ctx, run("b").out, items)
    if "r" in what:
        cmp_register(ctx, run("r").out, items, fmt)
    if "e" in what:
        cmp_envelopes(ctx, run("e").out, items, today)


def no_effect(box, snap, r, what, **kw):
    if r.panicked:
        raise Violation(f"crash: {what}", run=r.brief(), **kw)
    if not r.err.strip():
        raise Violation(f"no error: {what}", run=r.brief(), **kw)
    if r.out.strip():
        raise Violation(f"a report in spite of the error: {what}", run=r.brief(), **kw)
    after = box.snapshot()
    if after != snap:
        ch = sorted(set(after) ^ set(snap)) + [f for f in snap if f in after and after[f] != snap[f]]
        raise Violation(f"files were changed: {what}", files=ch, run=r.brief(), **kw)


@check("C18", (15000, 180000), "one case = a journal split over a tree of included files in various directories (with misleading files of the same names around), reported on, filled and "
       "imported into from various working directories and with various spellings of the path, compared with the model of the same items in one file; or with an include cycle or a missing "
       "file; distinct = distinct tree and spelling")
def c18(ctx, rng, box):
    os.symlink(box.top, os.path.join(box.root, "lnk"))
    os.makedirs(box.path("elsewhere"))
    today = today_pool(rng)
    opt = replace(FUND, fmts=0.5, late=0.3, entries=(1, 9))
    w = pending_world(rng, today, opt, UNKNOWN + ("assets:checking", "expenses:food", "assets:savings"))
    items = w.items()
    for _ in range(rng.choice([0, 0, 1, 2])):
        items.insert(rng.randint(0, len(items)), DateFmt(rng.choice(gen.FMTS)))
    main = rng.choice(["main.sfox", "sub/main.sfox", "a/b/j", "été/m.sfox"])
    depth = rng.choice([1, 2, 3, 5])
    t = Tree(rng, box, items, main, depth)
    if t.twice and any(isinstance(x, DateFmt) for x in items[1:]):
        # the second reading of a file could happen under another date format
        t.twice = []
        return
    deep = rng.random() < 0.03
    if deep:
        body = t.files[main]
        n = rng.choice([50, 120, 240, 255])
        for i in range(n):
            t.files[f"chain/c{i}.sfox"] = f"include c{i + 1}.sfox\n"
        t.files[f"chain/c{n}.sfox"] = "; end\n"
        t.files[main] = f"include {box.path('chain/c0.sfox')}\n" + body
        ctx.n["deep_chains"] += 1
    elif rng.random() < 0.03:
        t.files["many/none.sfox"] = rng.choice(["", "; nothing\n"])
        body = t.files[main]
        t.files[main] = (f"include {box.path('many/none.sfox')}\n" * rng.choice([130, 258, 300, 600])) + body
        ctx.n["many_includes"] += 1
    t.write()
    items, fmt = t.flat, t.fmt
    ctx.n["files_in_trees"] += len(t.files)
    ctx.n["files_included_twice"] += len(t.twice)
    ctx.sample({k: v[:300] for k, v in list(t.files.items())[:4]})

    kind = rng.choice(["plain", "plain", "plain", "plain", "cycle", "missing", "import"])
    cwd, path = spelled(rng, box, main)
    ctx.sig(sorted(t.files.items()), cwd[len(box.root):], path.replace(box.root, ""), kind)

    def run(cmd, *a):
        nonlocal cwd, path
        cwd, path = spelled(rng, box, main)
        ctx.n["spellings"] += 1
        if rng.random() < 0.3:
            return box.ok([cmd, "-n", *a], today=today, cwd=cwd, env={rng.choice(["SILVERFOX_FILE", "LEDGER_FILE"]): path})
        return box.ok([cmd, "-n", "-f", path, *a], today=today, cwd=cwd)

    if kind in ("cycle", "missing"):
        f = rng.choice(sorted(t.files))
        if deep:
            f = main
        if kind == "missing" and rng.random() < 0.6:
            # a file of that name lies somewhere else
            line = "include " + rng.choice(["lost.sfox", "lostdir/lost.sfox", "./lost.sfox"]) + "\n"
            here = os.path.normpath(os.path.join(os.path.dirname(f), line.split()[1]))
            for d in {os.path.dirname(g) for g in t.files} | {"", "elsewhere"}:
                decoy = os.path.normpath(os.path.join(d, line.split()[1]))
                if decoy != here:
                    box.write(decoy, rng.choice(["", "; nothing\n", DECOY[1]]))
            os.makedirs(box.path(os.path.dirname(here)), exist_ok=True)
        elif kind == "missing":
            line = "include " + rng.choice(["nowhere.sfox", "../nowhere/x.sfox", "sub", "/nonexistent/file", "elsewhere"]) + "\n"
            if any(os.path.exists(os.path.join(box.path(os.path.dirname(f)), line.split()[1])) and os.path.isfile(os.path.join(box.path(os.path.dirname(f)), line.split()[1])) for _ in (1,)):
                return
        else:
            # an ancestor of f (f itself included), by any spelling; or a longer way round
            g = rng.choice([f, main])
            if rng.random() < 0.3:
                box.write("cyc1", t.line("cyc1", g))
                line = t.line(f, "cyc1")
            elif rng.random() < 0.2:
                os.symlink(box.path(g), box.path("alias"))
                line = t.line(f, "alias")
            else:
                line = t.line(f, g)
        parts = t.files[f]
        box.write(f, parts + ("" if parts.endswith("\n") or not parts else "\n") + line if rng.random() < 0.5 else line + parts)
        box.write("b.csv", "d,x,a\n2020/01/01,x,5\n")
        box.write("b.csv.rules", "fields date,description,amount\naccount1 assets:checking\namount1 %amount%\n")
        snap = box.snapshot()
        for cmd in rng.sample([["b"], ["e"], ["r"], ["i", "--csv", box.path("b.csv")], ["b", "-n"]], 2):
            cwd, path = spelled(rng, box, main)
            r = box.run(cmd + ["-f", path], today=today, cwd=cwd)
            no_effect(box, snap, r, "a journal that includes " + ("itself" if kind == "cycle" else "a missing file"), line=line, file=f)
        ctx.n["cycles" if kind == "cycle" else "missing_includes"] += 1
        return
    snap = box.snapshot()
    cmp_all(ctx, rng, run, items, fmt, today)
    if box.snapshot() != snap:
        raise Violation("a report with --no-move changed files")
    # movements go to the end of the main journal only
    cwd, path = spelled(rng, box, main)
    st0 = box.snapshot()
    r = box.ok([rng.choice("ber"), "-f", path], today=today, cwd=cwd)
    es = grown(box, st0, main, fmt)
    posts = auto_entries(ctx, es, today)
    check_moves(ctx, items, today, posts)
    items = items + es
    ctx.n["fills"] += bool(es)
    cmp_all(ctx, rng, run, items, fmt, today, rng.choice(["b", "e", "r", "be"]))
    if kind == "import":
        for _ in range(10):
            su = rules.setup(rng, w.names, today)
            exp = rules.usable(su, set(w.names), w.acceptable)
            if exp:
                break
        else:
            return
        su.stmts = flatten(su.stmts)
        cwd, path = spelled(rng, box, main)
        if cwd == "/":
            cwd = box.path("elsewhere")
            path = box.path(main)
        rel = os.path.relpath(cwd, box.top)
        csvrel = rng.choice(["bank.csv", "sub/bank.csv", "../bank.csv"]) if rel != "." and not rel.startswith("..") else rng.choice(["bank.csv", "csvs/bank.csv"])
        full = os.path.normpath(os.path.join(cwd, csvrel))
        os.makedirs(os.path.dirname(full), exist_ok=True)
        open(full, "w", encoding="utf-8", newline="").write(rules.csv_text(su.records, rng))
        rt = rules.text_of(su.stmts, {}, rng)
        a = ["i", "-n", "-f", path, "--csv", csvrel]
        if rng.random() < 0.5:
            a += ["--rules", "my.rules"]
            open(os.path.join(cwd, "my.rules"), "w", encoding="utf-8").write(rt)
        else:
            open(full + ".rules", "w", encoding="utf-8").write(rt)
        # misleading files where the journal is
        for n in ("bank.csv", "bank.csv.rules", "my.rules"):
            p = os.path.join(os.path.dirname(box.path(main)), n)
            if not os.path.exists(p):
                open(p, "w").write("nonsense\n")
        st0 = box.snapshot()
        box.ok(a, today=today, cwd=cwd)
        es = grown(box, st0, main, fmt)
        if len(es) != len(exp):
            raise Violation("an import into a journal with included files did not add one transaction per record to the main journal", records=len(exp), added=len(es))
        for g, x in zip(es, exp):
            d = same_entry(g, x)
            if d:
                raise Violation(f"an imported transaction is not what the rules make of its record ({d})", got=str(g), expected=str(x))
        ctx.n["imports"] += 1
        items = items + exp
        cmp_all(ctx, rng, run, items, fmt, today, "b")


def grown(box, before, main, fmt):
    """the transactions added to the main journal; nothing else may have changed"""
    after = box.snapshot()
    if set(after) != set(before):
        raise Violation("files were created or removed", files=sorted(set(after) ^ set(before)))
    for f in before:
        if f != main and after[f] != before[f]:
            raise Violation("another file than the main journal was changed", file=f, added=after[f][len(before[f]):][:500].decode("utf-8", "replace"))
    if not after[main].startswith(before[main]):
        raise Violation("the journal's previous content was changed")
    return outp.parse_written(after[main][len(before[main]):].decode("utf-8", "replace"), fmt)


# ---------------------------------------------------------------- C22
DECOYJ = "account assets:mark\n    expense rent due every 5th\n        amount 70 MARK\n        funding aggressive\naccount equity:mark\naccount income:unknown\naccount expenses:unknown\n" \
         "2020/01/01 * decoy\n    assets:mark 99 MARK\n    equity:mark\n"


@check("C22", (12500, 150000), "one case = several journals with money waiting to be moved, one of them selected by a combination of flags and environment variables, and every command in several "
       "spellings and flag orders; the reports and the files that grew are compared with the model of the selected journal; distinct = distinct command line, environment and journals")
def c22(ctx, rng, box):
    today = today_pool(rng)
    names = rng.sample(["a.sfox", "b.sfox", "c.sfox", "dir/j", "--file", "-n", "böse.txt", "with space.sfox", ".silverfox"], 3)
    js = {}
    for role, n in zip(("flag", "SILVERFOX_FILE", "LEDGER_FILE"), names):
        w = pending_world(rng, today, replace(FUND, entries=(1, 5)), UNKNOWN + ("assets:mark", "equity:mark"))
        # tell the journals apart
        m = {"flag": 11, "SILVERFOX_FILE": 22, "LEDGER_FILE": 33}[role]
        w.entries.append(Entry(today, "*", "mark " + str(m), None, [Post("assets:mark", Amt(D(m), "MARK")), Post("equity:mark", Amt(D(-m), "MARK"))]))
        items = w.items()
        text, fmt = render(items, Style.pick(rng))
        js[role] = Journal(box, n, items, text, fmt)
    # whatever it might look for besides
    decoys = ["ledger.sfox", "silverfox.sfox", "journal", ".ledger", "main.sfox", "~/.silverfox", "assets:mark", "bank"]
    cdir = rng.choice(["", "", "stmts/"])
    decoys += [cdir + "bank." + e for e in ("sfox", "silverfox", "ledger", "journal", "txt")]
    for decoy in decoys:
        if decoy not in names:
            box.write(decoy, DECOYJ)
    csv = cdir + "bank.csv"
    box.write(csv, "d,x,a\n2020/01/01,x,5\n2020/01/02,y,-5\n")
    box.write(csv + ".rules", "fields date,description,amount\naccount1 assets:mark\namount1 %amount% MARK\n")
    ctx.sample(dict(files=names))
    for _ in range(rng.randint(3, 6)):
        use = {r for r in js if rng.random() < 0.6}
        env = {}
        args = []
        cwd = box.top
        if rng.random() < 0.2:
            os.makedirs(box.path("other/dir"), exist_ok=True)
            cwd = box.path("other/dir")
        where = lambda n: rng.choice([os.path.relpath(box.path(n), cwd), box.path(n)])
        if "flag" in use:
            args.append([rng.choice(["-f", "--file"]), where(js["flag"].rel)])
        for v in ("SILVERFOX_FILE", "LEDGER_FILE"):
            if v in use:
                env[v] = where(js[v].rel)
        nomove = rng.random() < 0.5
        if nomove:
            args.append([rng.choice(["-n", "--no-move"])])
            if rng.random() < 0.1:
                args.append(["-n"])
        cmd = rng.choice(["b", "balance", "bal", "e", "envelopes", "env", "r", "register", "reg", "i", "import", "s", "summary", "new", "n", "bxyz", "rx", "é", "zebra", "f", "-f", "-n", "1"])
        imp = cmd[0] == "i"
        if imp:
            args.append([rng.choice(["--csv", "--csv-file"]), rng.choice([os.path.relpath(box.path(csv), cwd), box.path(csv)])])
            if rng.random() < 0.2:
                args.append([rng.choice(["--rules", "--rules-file"]), os.path.relpath(box.path(csv + ".rules"), cwd)])
        bad = None
        if rng.random() < 0.12:
            bad = rng.choice([["--frobnicate", "x"], ["--frobnicate"], ["-x", "y"], ["positional", "x"], ["-q"], ["LAST"]])
            if bad != ["LAST"]:
                args.append(bad)
        missing = None
        if rng.random() < 0.08 and "flag" in use and cmd[0] in "berisn":
            missing = rng.choice(["nofile.sfox", "nodir/nofile.sfox"])
            args = [[a[0], missing] if a[0] in ("-f", "--file") else a for a in args]
        elif "flag" not in use and use and rng.random() < 0.2:
            # the variable that decides names a file that is not there; others do not help
            missing = rng.choice(["nofile.sfox", "nodir/nofile.sfox", box.path("nofile.sfox"), box.top])
            v = "SILVERFOX_FILE" if "SILVERFOX_FILE" in use else "LEDGER_FILE"
            env[v] = missing
        rng.shuffle(args)
        argv = [cmd] + [x for a in args for x in a]
        if bad == ["LAST"]:
            argv.append(rng.choice(["-f", "--file", "--csv", "--rules"]))
        snap = box.snapshot()
        r = box.run(argv, today=today, env=env, cwd=cwd)
        who = dict(args=argv, env=env)
        ctx.sig(argv, sorted(env.items()), sorted(j.data for j in js.values()))
        ctx.n["command_lines"] += 1
        ctx.n["selected_" + ("flag" if "flag" in use else "SILVERFOX_FILE" if "SILVERFOX_FILE" in use else "LEDGER_FILE" if "LEDGER_FILE" in use else "none")] += 1
        if r.panicked:
            raise Violation("crash", run=r.brief(), **who)
        if bad or missing or cmd[0] not in "berisn" or not use:
            no_effect(box, snap, r, "a command line that cannot be carried out", **who)
            ctx.n["impossible_command_lines"] += 1
            continue
        sel = js["flag"] if "flag" in use else js["SILVERFOX_FILE"] if "SILVERFOX_FILE" in use else js["LEDGER_FILE"]
        after = box.snapshot()
        for f in set(snap) | set(after):
            if f != sel.rel and snap.get(f) != after.get(f):
                raise Violation("another file than the selected journal was changed", file=f, selected=sel.rel, **who)
        pre = list(sel.items)
        es = sel.tail()
        rest = es
        if nomove and es and not imp:
            raise Violation("--no-move, but something was written", added=[str(e) for e in es], **who)
        if es and is_auto(es[0]):
            if nomove:
                raise Violation("--no-move, but money was moved", added=[str(e) for e in es], **who)
            check_moves(ctx, pre, today, auto_entries(ctx, es[:1], today))
            rest = es[1:]
        elif not nomove:
            check_moves(ctx, pre, today, [])
        if cmd[0] in "sn":
            if not r.err or r.out.strip():
                raise Violation("a command that does not exist yet was not answered with an error", run=r.brief(), **who)
        elif r.err:
            raise Violation("a valid command was answered with an error", run=r.brief(), **who)
        if imp:
            if len(rest) != 2 or [float(p.amount.mag) for e in rest for p in e.posts if p.amount] != [5.0, -5.0]:
                raise Violation("the import did not go to the selected journal", added=[str(e) for e in es], **who)
        elif rest:
            raise Violation("something else than automatic movements was written", added=[str(e) for e in rest], **who)
        if cmd[0] == "b":
            cmp_balance(ctx, r.out, sel.items)
        elif cmd[0] == "r":
            cmp_register(ctx, r.out, sel.items, sel.fmt)
        elif cmd[0] == "e":
            cmp_envelopes(ctx, r.out, sel.items, today)
    if rng.random() < 0.2:
        snap = box.snapshot()
        r = box.run([], today=today, env={"SILVERFOX_FILE": box.path(names[1])})
        if r.panicked or box.snapshot() != snap:
            raise Violation("running without arguments crashed or changed files", run=r.brief())
    if rng.random() < 0.1:
        # a path that is not unicode is a path, too
        j = js["flag"]
        p = os.fsencode(box.path("x")) + b"\xff.sfox"
        with open(p, "wb") as f:
            f.write(j.data)
        try:
            for a, e in ((["b", "-n", "-f", p], {}), (["b", "-n"], {"SILVERFOX_FILE": p})):
                r = box.ok(a, today=today, env=e)
                cmp_balance(ctx, r.out, j.items)
                ctx.n["paths_that_are_not_unicode"] += 1
        finally:
            os.unlink(p)
