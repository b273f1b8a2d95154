"""Writes KNOWN_FINDINGS.md: the fix commits of /repo with the property each one restored (and open findings, by hand)."""
import subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # start of the subject -> property
 ("TimeStamp from boost", "C03"), ("scaling a TimeSpan", "C02"), ("text of a TimeSpan", "C02"), ("order of sequence", "C06"),
 ("split lost", "C08"), ("trim read", "C08"), ("setting or clearing bits", "C10"), ("ZBuffer::reset", "C10"), ("result of a scheme", "C09"),
 ("zipFile reported", "C36"), ("zipped log file", "C31"), ("log rotation deleted", "C31"), ("old log files", "C31"), ("item number of a new", "C37"),
 ("Getopt", "C11"), ("name of a Getopt", "C11"), ("configuration values which", "C13"), ("command line options read", "C13"),
 ("default values of batch", "C13"), ("prefix of a ConfigList", "C13"), ("key of a new configuration", "C14"),
 ("extension of a file", "C17"), ("file paths were", "C17"), ("normalizing a path", "C17"),
 ("reading or loading an attribute tree crashed", "C15"), ("printing an attribute tree", "C16"), ("new sub node", "C15"),
 ("reading an attribute tree lost", "C16"), ("end of a block", "C16"), ("a block of an attribute", "C15"), ("saved attribute trees", "C16"),
 ("a comment saved", "C16"),
]
try:
    from fixes_more import MAP as MORE
    MAP += MORE
except ImportError:
    pass
OPEN = open(root + "/tools/open_findings.txt").read() if os.path.exists(root + "/tools/open_findings.txt") else ""
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = ["# Findings in fzi_icl_core", "",
       "Repaired defects (one commit each in /repo). They suppress nothing: the check named reports the violation again if it returns.", ""]
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    ids = [b for a, b in MAP if s.startswith(a)]
    assert ids, l
    out.append("fixed: property=%s %s %s" % (ids[-1], h, s))
out += ["", "Defects recorded and not repaired (the cases are in known/<property>/):", "", OPEN.strip() or "none", ""]
open(root + "/KNOWN_FINDINGS.md", "w").write("\n".join(out))
