#!/usr/bin/env python3
"""Writes known_findings.txt: the fixed: lines from the fix commits of /repo and the known: lines below."""
import subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# first words of the commit subject => property
MAP = """write null for a field whose arguments|E08
write null for a __typename|E08
match fragment names completely|E04
report fragments that spread themselves|E04
read values by their encoded length|E02
read over the end of list values|E02
read over the NULL byte behind|E02
allow variables for lists|E03
accept null as variable value|E03
reject variable values that don't fit|E03
reject ID values|E02
reject float values|E02
don't allow int values for enum|E02
don't allow object values for time|E02
report file variables when form files|E03
keep optional input objects|E02
copy string inputs|E14
panic in SetContext|E11
panic in SetValue|E11
don't store the mutation fields|G01
list the fields of referenced input types|G01
report enum inputs as enums|G01
keep the hidden fields hidden|E15
copy the description of enum types|E15
don't share the tracer|E16
bind __schema of a copied schema|E15
copy the fragment locations|E13
check the max depth for interfaces|E10
grow the value stack|E01
compare the field name after|E01
convert times to UTC|V02
order of the list and non null markers|T01
start time and duration of fields|T01
apply fragments on an interface|G04
support content types with parameters|H01
parse directives behind the arguments|E05
allow ignored tokens between a list type|P01
allow ignored tokens between $ or @|P01
stop parsing on an error inside|P03
limit the nesting of queries|P02
find enums by their go type|G02
refuse different go structs|G02
handle all commas|P01
a selection set on an enum or time|E01
a method named Resolve|G02
float variables could be off|E03""".split("\n")
extra = os.path.join(HERE, "tools", "findings_map.txt")
if os.path.exists(extra):
    MAP += [l for l in open(extra).read().split("\n") if l.strip()]
out = ["# genuine defects of mjarkk/yarql: 'fixed:' lines are repaired in /repo and suppress nothing,",
       "# 'known:' lines are reported as KNOWN-FINDING by the check of the property (format: known: property=<id> <finding id> <what fails>)"]
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [m.split("|")[1] for m in MAP if s.startswith(m.split("|")[0])]
    assert len(p) == 1, s
    out.append("fixed: property=%s %s %s" % (p[0], h, s))
k = os.path.join(HERE, "tools", "known.txt")
if os.path.exists(k):
    out += open(k).read().strip().split("\n")
open(os.path.join(HERE, "known_findings.txt"), "w").write("\n".join(out) + "\n")
print(len(out))
