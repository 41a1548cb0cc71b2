"""Runs selint and parses what it prints."""
import os
import re
import resource
import signal
import subprocess

FINDING = re.compile(r"^(?P<file>[^\n]*?): *(?P<line>\d+): \((?P<sev>[CSWEF])\): (?P<msg>.*) \((?P<id>[CSWEF]-\d{3})\)$")


class Result:
    __slots__ = ("argv", "rc", "out", "err", "findings", "summary", "notes", "timeout", "truncated", "other")

    def ids(self, ids):
        return [f for f in self.findings if f[2] in ids]


def parse_output(text):
    findings = []
    summary = None
    notes = []
    other = []
    it = iter(text.split("\n"))
    for l in it:
        m = FINDING.match(l)
        if m and m.group("id")[0] == m.group("sev"):
            findings.append((m.group("file"), int(m.group("line")), m.group("id"), m.group("msg")))
            continue
        if l == "Found the following issue counts:":
            summary = []
            continue
        if summary is not None and l:
            summary.append(l)
            continue
        if l.startswith(("Note", "Warning", "Error")):
            notes.append(l)
        elif l:
            other.append(l)
    return findings, summary, notes, other


ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "MALLOC_PERTURB_": "165",
       "ASAN_OPTIONS": "detect_leaks=0:exitcode=199:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:hard_rss_limit_mb=3000:malloc_fill_byte=165:max_malloc_fill_size=4096",
       "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=199",
       "MSAN_OPTIONS": "exitcode=199"}


def _limits(cpu, stack, nofile, mem):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        if stack:
            resource.setrlimit(resource.RLIMIT_STACK, (stack, stack))
        if nofile:
            resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def run(exe, args, cwd=None, timeout=60, env=None, cpu=0, stack=0, nofile=0, mem=0, stdin=subprocess.DEVNULL, parse=True):
    e = dict(ENV)
    if env:
        e.update(env)
    r = Result()
    r.argv = list(args)
    r.timeout = False
    pre = _limits(cpu, stack, nofile, mem) if (cpu or stack or nofile or mem) else None
    p = subprocess.Popen([exe] + list(args), cwd=cwd, stdin=stdin, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=e, preexec_fn=pre)
    try:
        o, er = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        o, er = p.communicate()
        r.timeout = True
    r.rc = p.returncode
    r.out = o.decode("latin-1")
    r.err = er.decode("latin-1")
    if parse:
        r.findings, r.summary, r.notes, r.other = parse_output(r.out)
    return r


DOCUMENTED = (0, 64, 65, 70, 78)


def sane(r):
    """None if the run ended in a documented way, else a description of what went wrong."""
    if r.timeout:
        return "run did not end in time"
    if r.rc is None or r.rc < 0:
        return "killed by signal %s" % signal.Signals(-r.rc).name if r.rc else "no status"
    if r.rc not in DOCUMENTED:
        first = next((l for l in r.err.split("\n") if "ERROR:" in l or "runtime error" in l or "WARNING: Mem" in l), r.err[:200])
        return "exit status %d: %s" % (r.rc, first)
    return None
