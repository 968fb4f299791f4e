#!/usr/bin/env python3
"""Writes DESIGN.md from the text below, the properties, the harnesses' bounds
and the planted changes."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
oracle = {
 "C01": "Assertions over every pair of users after the step: names and addresses lower-cased, IDs and key prefixes compared byte by byte; a refused addition must report an error and a clashing one must be refused. The ID and key generators are made to repeat by the harness.",
 "C02": "An independent resolution in the harness (case-folded name and address both naming user i) decides whether each operation must succeed; the records of every user are compared before and after.",
 "C03": "Oracle: OR over stored passwords of (same text AND NOT disabled AND NOT expired AND name belongs to user). bcrypt is ideal on the 72-byte effective key.",
 "C04": "Oracle: the old password is accepted by the C03 oracle; afterwards a probe password authenticates iff it is the new one. History length, order and flags are compared with a model list.",
 "C05": "Oracle: the limits of the harness's own table (defaults where unset) compared with the lengths given, as 32-bit terms.",
 "C06": "Oracle: OR over issued keys of (same text AND active); the answer must name the owner.",
 "C07": "A model of the key list (usage, ID, flags) filtered in the harness.",
 "C08": "A model of the key list keyed by (type, fingerprint); payloads from a catalogue of real keys, plus symbolic junk.",
 "C09": "A reference validation of the request (ranges, algorithm set) and the reference code generator of C10 decide acceptance.",
 "C10": "A reference implementation of RFC 4226/6238 truncation in the harness over the same uninterpreted HMAC; the solver decides equality for every text, time and MAC value.",
 "C11": "A genuine assertion is signed by the idealised ECDSA (a signature verifies only for the data and key it was made for) and parts of it are replaced by symbolic values; acceptance must equal the conjunction of the stated conditions.",
 "C12": "Fields of the document are replaced by every JSON type; the token's stored fields are compared with the document's own.",
 "C13": "The live database and a reopened one are compared field by field (structural equality terms) and through every read operation.",
 "C14": "Snapshots of the records, the lookups and the file before a request which fails; equality terms afterwards. File-system faults at any call.",
 "C15": "The file system model keeps completed writes at a crash; after every fault or crash position the file is opened by the real NewDatabase and compared with the states before and after.",
 "C16": "Revision terms before and after; times from a symbolic, monotone clock.",
 "C17": "Each operation is executed symbolically once alone and once after the other, recording every memory access and lock event. For each pair, the order of the events is encoded as integer variables with program order and mutual exclusion; the solver decides whether two conflicting accesses can be adjacent (unsat = race free). Locks held on return and self-deadlock are assertions. Candidates are confirmed with the race detector on the real code.",
 "C18": "Secrets are drawn from a reserved byte set that nothing else contains; the assertion 'no stored or reported text contains the secret' is a disjunction of match terms. Two-run variants (same everything, different secret of the same length) assert equal stored state apart from hashes.",
 "C19": "Known names are excluded by assumption; the neutral record is compared field by field; hashing work is counted in the bcrypt model and compared with that of a wrong password of a known user.",
 "C20": "A reference parser (trim, split at the first slash) in the harness.",
 "C21": "A reference recogniser in the harness, built from the documented character sets only.",
 "C22": "A reference parser, and the parse-render-parse law.",
 "C23": "A reference URI parser in the harness (path unescaping, query splitting) recovers the fields.",
 "C24": "A reference renderer; errors.Is against every standard error.",
 "C25": "Every draw of the generator is a symbolic value; length and alphabet are assertions on the result. Freshness: two successive draws under the code's own seeding differ.",
 "C26": "Fingerprints and stored forms of the same key are compared; SHA-256/MD5 run concretely on real keys, white space and comments are symbolic.",
 "C27": "Claims are compared with the user's record; challenges and flags with the disjunction over enabled tokens.",
 "C28": "Metadata compared with the records, field by field.",
 "C29": "A reference validity predicate over the parts of the document; the file's bytes are compared after a refusal; the opened database serves every operation without a panic.",
 "C30": "Original file bytes and live path compared before and after; the copy is opened by the real code and compared.",
 "C31": "The advertised regular expression is compiled to a byte automaton and applied to a symbolic text; its verdict is compared with the enforced length check.",
 "C32": "Flags and times compared with a symbolic clock; usability probed through the API afterwards.",
 "C33": "A reference lookup in the harness's own table of names.",
 "C35": "Full snapshots of one database (maps and unexported fields included) around operations on another, and around overwriting the request; answers compared with the database's own records.",
 "C36": "Both serial orders of the same two requests, run by the same code on copies of the database; for additions, password changes, deletions and enrolments, closed formulas over the symbolic names, passwords and IDs. A schedule that breaks one is replayed natively under 24 ways of delaying one request at the lock.",
 "C34": "The mode of every path that exists in the file-system model is inspected after every file-system call.",
}
head = open(R + '/tools/design_head.md').read()
tail = open(R + '/tools/design_tail.md').read()
out = [head, "## Properties\n"]
for p in props:
    i = p['id']
    src = "".join(open(f).read() for f in [f'{R}/harness/h/{i.lower()}.go'] + sorted(glob.glob(f'{R}/harness/h/{i.lower()}_*.go')))
    for f in ('many', 'hist'):
        for fn in re.findall(rf'(?ms)^func {i}_\w+\(\) \{{.*?^\}}\n', open(f'{R}/harness/h/{f}.go').read()):
            src += fn
    hs = re.findall(rf'(?m)^func ({i}_\w+)\(\) \{{', src)
    bs = [b.replace('\\"', '"') for b in re.findall(r'v\.Bound\("((?:[^"\\]|\\.)*)"\)', src)]
    sd = sorted(os.path.basename(os.path.dirname(m)) for m in glob.glob(R + '/seeded/*/meta.json') if json.load(open(m))['property'] == i)
    out.append(f"### {i} {p['title']}\n")
    out.append(f"{oracle[i]}\n" if i in oracle else "")
    out.append(f"Beyond tests because: {p['why_tests_cant']}.\n")
    out.append("Harnesses: " + ", ".join(f"`{h}`" for h in hs) + ". Bounds:\n")
    out += [f"- {b}" for b in bs]
    out.append("")
    out.append("Planted changes caught: " + (", ".join(f"`{s}`" for s in sd) if sd else "none planted on original lines (see below)") + ".\n")
out.append(tail)
open(R + '/DESIGN.md', 'w').write("\n".join(out))
