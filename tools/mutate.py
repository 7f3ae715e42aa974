#!/usr/bin/env python3
"""Development aid: all one-place mutants of /repo's sources which compile and pass the stable tests, each
against the quick checks of what it touches, until one reports it.  mutate.py <work dir> <log> [file substrings] [mutants per line]
Works on copies of /repo and /verif only."""
import hashlib, os, re, shutil, subprocess, sys, json

W, LOG = sys.argv[1], sys.argv[2]
ONLY = sys.argv[3] if len(sys.argv) > 3 else ""
PER = int(sys.argv[4]) if len(sys.argv) > 4 else 1
REPO, V = W + "/repo", W + "/verif"
FILES = {
    "src/message.rs": "C03 C02 C05 C06 C04 C19".split(),
    "src/data_dictionary.rs": "C07 C08 C03".split(),
    "src/quickfix_errors.rs": "C03 C08".split(),
    "src/session/session_settings.rs": "C10 C09".split(),
    "src/session/session_schedule.rs": "C11 C12".split(),
    "src/session/session_id.rs": "C06 C10 C18".split(),
    "src/session/session_and_state.rs": "C10 C15 C18 C14 C16".split(),
    "src/io/acceptor.rs": "C13 C15 C16 C17 C18 C14".split(),
    "src/network.rs": "C18 C16 C14 C15 C10".split(),
    "src/application.rs": "C18 C15".split(),
}
SUBS = [
    (r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
    (r" < ", " > "), (r" > ", " < "), (r"&&", "||"), (r"\|\|(?! *\{)", "&&"), (r"(?<![=!<>])!(?=[a-z(])", ""),
    (r" \+ ", " - "), (r" - ", " + "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"),
    (r"is_ok\(\)", "is_err()"), (r"is_err\(\)", "is_ok()"), (r"\.is_empty\(\)", ".is_empty() == false"),
    (r"\.\.=", ".."), (r"\bfind\(", "rfind("), (r"\bsplit_once\(", "rsplit_once("), (r"starts_with\(", "ends_with("),
    (r"starts_with\(", "contains("), (r"\.iter\(\)", ".iter().rev()"), (r"\.children\(\)", ".descendants()"),
    (r"\.children\(\)", ".children().skip(1)"), (r"\bfirst\b", "last"), (r"eq_ignore_ascii_case\(", "eq("),
    (r"\.trim\(\)", ""), (r"\.trim\(\)", ".trim_end()"), (r"\.get_or_insert", ".insert"), (r"usize::MAX", "0"),
    (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"sender", "target"),
    (r"target", "sender"), (r"subid", "locationid"), (r"locationid", "subid"), (r"start", "end"), (r"\bend", "start"),
    (r"header", "trailer"), (r"trailer", "header"), (r"header", "body"), (r"Some\(([a-z_]+)\)$", r"None"),
    (r"push_back", "push_front"), (r"pop_front", "pop_back"), (r"chain\(", "zip("),
    (r"to_string\(\)", "to_lowercase()"), (r"as_str\(\)", "trim()"), (r"Default", "Session"), (r"unwrap_or\(", "xor("),
]

def candidates(path):
    text = open(os.path.join(REPO, path)).read()
    cut = text.find("#[cfg(test)]")
    lines = text.split("\n")
    last = text[: cut if cut >= 0 else len(text)].count("\n")
    out = []
    for i, l in enumerate(lines[:last]):
        s = l.strip()
        if re.match(r"^[A-Za-z]+\([a-z0-9A-Z]+\),$", s):
            continue  # unused enumerations
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or "println!" in s or s.startswith("mod "):
            continue
        for (a, b) in SUBS:
            for m in re.finditer(a, l):
                n = l[: m.start()] + re.sub(a, b, m.group(0)) + l[m.end():]
                if n != l:
                    out.append((i, n))
        # numbers
        for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.\"])", l):
            v = int(m.group(1))
            for w in {v + 1, max(v - 1, 0), 0} - {v}:
                out.append((i, l[: m.start()] + str(w) + l[m.end():]))
        # conditions
        m = re.match(r"^(\s*(?:\} else )?if )(?!let)(.*)( \{)$", l)
        if m:
            out.append((i, m.group(1) + "true || " + m.group(2) + m.group(3)))
            out.append((i, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3)))
        # statements
        if s.endswith(";") and not s.startswith(("let ", "return", "type ", "pub ", "const ", "}", ".", ")")):
            out.append((i, re.match(r"\s*", l).group(0) + "// deleted"))
        # arguments exchanged
        for m in re.finditer(r"\((\&?[a-z_.]+), (\&?[a-z_.]+)\)", l):
            out.append((i, l[: m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + l[m.end():]))
        # lines exchanged
        plain = lambda x: x.strip().endswith(";") and not x.strip().startswith(("let ", "type ", "pub ", "const ", "use "))
        if i + 1 < last and plain(l) and plain(lines[i + 1]):
            out.append((i, lines[i + 1] + "\n" + l + "\0"))
    return lines, out

def run(cmd, t, cwd=REPO, **env):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=dict(os.environ, **env))
    except subprocess.TimeoutExpired as e:
        class R: returncode = 99; stdout = ""; stderr = ""
        return R

def main():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.check_call(["cp", "-r", "/repo", REPO])
    subprocess.check_call(["git", "clone", "-q", "/verif", V])
    p = V + "/harness/Cargo.toml"
    s = open(p).read().replace('"/repo/', '"%s/' % REPO).replace("incremental = false", "incremental = true")
    open(p, "w").write(s)
    p = V + "/harness/root.rs"
    s = open(p).read().replace("/verif/harness", V + "/harness")
    open(p, "w").write(s)
    p = V + "/check.sh"
    s = re.sub(r"\n *cargo clean .*", "", open(p).read())
    open(p, "w").write(s)
    env = dict(FIX_RS_REPO=REPO, FIX_RS_TARGET=W + "/vt", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               CARGO_NET_OFFLINE="true")
    done = set()
    if os.path.exists(LOG):
        done = {tuple(json.loads(l)["key"]) for l in open(LOG)}
    for f, checks in FILES.items():
        if not any(x in f for x in ONLY.split(",")):
            continue
        lines, cand = candidates(f)
        # a few of each line, chosen by their text
        per = {}
        for i, n in sorted(cand, key=lambda c: hashlib.md5(("%s %s" % c).encode()).hexdigest()):
            if "panic!" in n or '_or("' in n or "Err(\"" in n:
                continue
            if len(per.setdefault(i, [])) < PER:
                per[i].append(n)
        cand = [(i, n) for i in sorted(per) for n in per[i]]
        orig = "\n".join(lines)
        for i, n in cand:
            key = (f, i + 1, n.strip())
            if key in done:
                continue
            done.add(key)
            L = list(lines)
            if n.endswith("\0"):
                L[i : i + 2] = n[:-1].split("\n")
            else:
                L[i] = n
            open(os.path.join(REPO, f), "w").write("\n".join(L))
            res = None
            r = run("cargo test --offline --no-fail-fast -- --test-threads 4 --skip session_schedule::schedule_tests::", 60, **dict(env, CARGO_TARGET_DIR=W + "/tt"))
            if r.returncode != 0:
                res = "no build" if "could not compile" in r.stderr else "tests"
            else:
                res = "SURVIVED"
                for c in checks:
                    r = run("nice -n 5 ./check.sh " + c, 600, cwd=V, **env)
                    if r.returncode == 1:
                        res = c
                        break
                    if r.returncode != 0:
                        res = "error %d in %s" % (r.returncode, c)
                        break
            with open(LOG, "a") as o:
                o.write(json.dumps({"key": key, "was": lines[i].strip(), "res": res}) + "\n")
        open(os.path.join(REPO, f), "w").write(orig)

main()
