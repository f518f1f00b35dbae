#!/usr/bin/env python3
"""writes /verif/KNOWN_FINDINGS.json: the defects found, and the commit of /repo that repaired each"""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("reflect2 map iteration", "C15"), ("PeekN past", "C13"), ("ConsumeN never", "C13"), ("Consume drops", "C13"), ("unicode ranges", "C13"),
       ("empty string source", "C13"), ("integer of 20 digits", "C13"), ("msgfmt panics", "C11"), ("msgfmt reuses", "C11"), ("last byte of a string", "C12"),
       ("uint32 and int32", "C12"), ("NaN and Inf", "C12"), ("error messages are not escaped", "C12"), ("TypeOf(nil)", "C12"), ("refers to itself", "C12"),
       ("events of same name", "C09"), ("no handler can be created", "C09"), ("not string leaves the window", "C10"), ("exported once instead", "C10"),
       ("which event they are", "C10"), ("json log is not valid", "C18"), ("BackupTimeFormat is set", "C06"), ("local time of backup", "C06"),
       ("overwrites the backup", "C05"), ("CloseAll logs", "C16"), ("Fprintln without", "C17"), ("share the same gls", "C07"), ("dropped messages without", "C04"),
       ("failed call is not logged", "C08"), ("successful calls are logged", "C08"), ("collides with the backup the mill", "C06"), ("unexported fields and misses", "C12"), ("uint64 of 20 digits", "C12"), ("args are not shown", "C11"), ("writes nothing any more once its writer panics", "C09"), ("panic in being formatted", "C09"), ("LogPanic writes to the array", "C08"),
       ("whose key is not an identifier", "C18"), ("taken for a plain EOF", "C13"), ("neither source nor error", "C13"), ("panics when there is nothing left", "C13"),
       ("fields of embedded structs are read", "C15"), ("unsafe.Pointer is taken", "C15"), ("holds a nil pointer is said", "C15"), ("TryGetIndex of the safe", "C15"), ("Grow of the safe", "C15"), ("IsNil panics for types", "C15"), ("are not a StructType", "C15"), ("inside interfaces are encoded", "C12"),
       ("level is not shown in human", "C18"), ("formatted by goTime if", "C11"), ("index never given to backups", "C06")]
out, used = [], set()
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    pid = [p for k, p in MAP if k in s]
    assert len(pid) == 1, s
    what = s[len("fix: "):]
    out.append(dict(id="%s-%s" % (pid[0], h), property=pid[0], status="fixed", commit=h, what=what, line="fixed: property=%s %s %s" % (pid[0], h, what)))
old = os.path.join(here, "KNOWN_FINDINGS.json")
known = [dict(id="C09-cyclic", property="C09", status="known", match=dict(id="cyclic"), event="crash",
              what="logging a value that contains itself (n := &node{}; n.Next = n) ends the process: msgfmt/jsonfmt follows the pointers until the stack overflows")]
json.dump(dict(findings=out + known), open(old, "w"), indent=1)
print(len(out), "fixed", len(known), "known")
