"""Runs the histories of the known findings of C05 and C07; prints the KNOWN-FINDING line of each that still fails."""
import subprocess
from . import build, report

def run(rep, part, opt):
    if "replay" in opt or "only" in opt:
        return
    exe = build.harness("cycles")
    p = subprocess.run([exe], env=dict(build.ENV, ASAN_OPTIONS="detect_leaks=0"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    words = p.stdout.decode().split()
    for line in report.known_findings(rep.pid):
        if line.split()[1] in words:
            print("KNOWN-FINDING: " + line)
        else:
            rep.notes.append("known finding no longer fails: " + line.split()[1])
