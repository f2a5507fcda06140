"""Prints the table of planted bugs of DESIGN.md (by property; * = missed when planted)."""
import collections, glob, json, os
UNCAUGHT = "width-with-leading-zero-is-octal equal-failures-listed-once shift-count-modulo-64 to-array-skips-nil".split()
MISSED = """let-value-of-one-element-binding
definition-shows-first-expression
global-macros-not-listed
time-of-value-kept
equal-frames-of-subset
objects-equal-by-type
length-of-frames-counts-visible
read-file-drops-bom
set-equal-value-ignored
write-string-stops-at-nul
union-compares-strings-folded
bytes-print-hex-over-200
infinite-sign-by-comparison
send-super-shortcut-one-argument
has-slot-shortcut-of-long-name
named-let-inits-inside
protect-existing-binding
star-anywhere-is-parent
mixed-sum-in-integers-first
join-check-then-set
failed-fork-never-joins
time-swallows-the-error
case-looks-in-first-clause-list-once
tap-threads-the-results
sort-forgets-an-error
sort-forgets-the-error
trim-keeps-form-feeds
case-else-anywhere
symbols-of-latin-letters
file-evaluated-outside
dash-name-left-out
named-key-types-left-out
for-each-first-list-decides
named-lambda-assigns-its-name
constants-bound-by-the-host
channel-name-trimmed
backslash-t-is-a-tab
macro-empty-rest-is-not-bound
literal-false-step-is-no-step
nan-is-itself
session-evaluates-in-global
schedule-passes-one-argument
hidden-files-not-listed""".split()
def table():
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
    by = collections.defaultdict(list)
    for m in sorted(glob.glob(os.path.join(here, "*", "meta.json"))):
        i = os.path.basename(os.path.dirname(m))
        if i in UNCAUGHT:
            continue
        by[json.load(open(m))["property"]].append(i + ("*" if i in MISSED else ""))
    rows = ["| check | planted bugs it catches |", "|---|---|"]
    for p in sorted(by):
        rows.append("| %s | %s |" % (p, ", ".join(by[p])))
    rows += ["", "Planted last and not yet caught: " + ", ".join(UNCAUGHT) + "."]
    return "\n".join(rows)
def main():
    f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "DESIGN.md")
    s = open(f).read()
    a, b = "<!-- planted -->\n", "\n<!-- /planted -->"
    i, j = s.index(a) + len(a), s.index(b)
    open(f, "w").write(s[:i] + table() + s[j:])
if __name__ == "__main__":
    main()
