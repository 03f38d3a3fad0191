import json
EXP="Every execution of the workload was watched and held; executions outside the generated workload are not covered. Trusts the reference model / parser of the report in /verif/sfmon and the LD_PRELOAD monitor (clock, file events)."
T={
"C01":("runtime monitoring: report of the real binary against an exact-arithmetic reference model over generated journals and run histories",EXP),
"C02":("runtime monitoring: all three reports of the real binary against a reference model of omitted amounts, and against the same journal with the amount written out",EXP),
"C03":("runtime monitoring: fault injection into journals; monitor on stdout, stderr and file events, with a sound control journal for each",EXP),
"C04":("runtime monitoring: shown amounts compared exactly over generated notations and currencies",EXP),
"C05":("runtime monitoring with fault injection: every file operation of a recorded run killed, failed, shortened or interrupted; oracle on journal bytes and event log","For each generated scenario all mutating file operations are enumerated from its recorded event log, each with every fault kind; scenarios themselves are sampled. Power-loss reordering below the system-call interface is not modelled."),
"C06":("runtime monitoring: write / read-back histories compared between runs and with the source of each written transaction",EXP+" One known finding is listed in KNOWN_FINDINGS."),
"C07":("runtime monitoring: text appended by imports read independently and compared with a reference model of the rules; planted mistakes must add nothing",EXP),
"C08":("runtime monitoring: imports against a reference model of the rules language, and metamorphic rewritings of the rules",EXP),
"C09":("runtime monitoring: online safety monitor over histories of daily runs (each automatic posting checked against modelled account and envelope state)",EXP),
"C10":("runtime monitoring: movement amounts against a reference model over daily-run histories followed to the due date",EXP),
"C11":("runtime monitoring: trace checker (at most once per envelope and local day) over schedules of runs and edits under a controlled clock and time zones",EXP),
"C12":("runtime monitoring: shown due dates against a brute-force day-by-day calendar scan over many controlled days",EXP),
"C13":("runtime monitoring: now/next split against a reference model on days around due dates; conservation between days",EXP),
"C14":("runtime monitoring: envelope changes against a reference model of linked spending, and per-transaction differences between runs",EXP),
"C15":("runtime monitoring: conservation monitor between envelopes report and balance report after each step of a history (no model)",EXP),
"C16":("runtime monitoring: register rows against a reference model and the balance report",EXP),
"C17":("runtime monitoring: metamorphic relation between runs on differently laid out journals and rules",EXP),
"C18":("runtime monitoring: include trees, working directories and path spellings against the one-file model; file events watched",EXP),
"C19":("sanitizers: structure-aware and blind mutation of journals, rules, CSV and command lines under AddressSanitizer, overflow checks, CPU, memory and stack limits","No panic, abort, sanitizer report or exceeded limit on any execution; inputs are sampled. Hang = more CPU time than any sound input needs (limits in the preload monitor)."),
"C20":("runtime monitoring: repeated and permuted runs compared as values",EXP),
"C21":("runtime monitoring: true and falsified assertions against an exact running-balance model; monitor on reports and file events",EXP),
"C22":("runtime monitoring: file-event and content monitor over flag/environment/spelling combinations against the model of the selected journal",EXP),
"C23":("runtime monitoring: parsed envelopes report (order, sections, targets, bar lengths) against a reference model over generated envelope states",EXP),
"C24":("runtime monitoring: metamorphic relation between runs on one journal rendered in different date formats; impossible dates must be rejected",EXP),
"C25":("runtime monitoring with controlled scheduling: one process is stopped by the preload monitor before each of its file operations while another runs; oracle on journal bytes and read-back","All single stopping points of the first process are enumerated for each scenario, pairs of stopping points and scenarios are sampled. System calls are taken as atomic."),
"C26":("runtime monitoring: differential runs under controlled clock, time zone, locale, terminal and environment",EXP),
"C27":("runtime monitoring with an injected clock: the wall clock jumps to another day before each of the program's looks at it in turn; differential oracle against runs wholly on either day","All moments (looks at the clock, up to 12 per run) are enumerated for each generated journal and command."),
"C28":("runtime monitoring: content monitor over layouts, names and spellings of CSV, rules and journal files among decoys, against the model of the files that were named",EXP),
"C29":("runtime monitoring: metamorphic oracle over journals and their renamings (keywords, names inside one another, case variants)",EXP),
"C30":("runtime monitoring with fault injection: each write to standard output and standard error failed, cut off, shortened, interrupted or killed at; oracle on output, exit status and journal bytes against the undisturbed run","Up to 10 writes per scenario (first and last included), each with several outcomes; scenarios are sampled."),
}
checks=[]
for k,(t,n) in T.items():
    checks.append(dict(property=k,quick_cmd=f"python3 bin/check {k} --tier quick",thorough_cmd=f"python3 bin/check {k} --tier thorough",
        technique=t,level="fault_enumeration" if k=="C05" else "exploration",level_note=n))
m=dict(version=1,setup_cmd="python3 bin/setup",checks=checks,not_applicable=[],
  notes="No hooks in /repo: the monitor is an LD_PRELOAD library and everything the properties speak about is visible at the binary's boundary. Known and fixed findings: KNOWN_FINDINGS.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
