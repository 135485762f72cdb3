#!/usr/bin/env python3
"""C23: runs the real name generator (/repo/codegen) on the repository's lists and on random ones, compiles what it
writes and monitors the generated tables. run.py TIER SEED VERIF"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time

TIER, SEED, V = sys.argv[1], int(sys.argv[2]), sys.argv[3]
REPO = os.environ.get("C23_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
T0 = time.time()
LISTS = 40 if TIER == "quick" else 400
PER_CRATE = 40
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


def no_verdict(msg):
    sys.stderr.write(msg[-3000:] + "\nNO VERDICT property=C23\n")
    sys.exit(2)


def sh(cmd, cwd, timeout=600, target=None):
    env = dict(ENV)
    if target:
        env["CARGO_TARGET_DIR"] = target
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def ident(name):
    """The identifier of a name: separators dropped and the next letter capitalised, N before a leading digit."""
    parts = re.split("[-_:]+", name[1:])
    first = name[0]
    head = "N" + first if first.isdigit() else first.upper()
    return head + parts[0] + "".join(p[0].upper() + p[1:] for p in parts[1:] if p)


LOWER = "abcdefghijklmnopqrstuvwxyz"
UPPER = LOWER.upper()


def rand_name(r):
    k = r.random()
    n = 1 if k < 0.1 else r.randint(2, 12) if k < 0.9 else r.randint(13, 60)
    first = r.choice(LOWER + (UPPER if r.random() < 0.2 else "") + ("0123456789" if r.random() < 0.3 else "") + ("éж" if r.random() < 0.05 else ""))
    s = first
    for _ in range(n - 1):
        x = r.random()
        s += r.choice("-_:") if x < 0.12 else r.choice(UPPER) if x < 0.25 else r.choice("0123456789") if x < 0.33 else r.choice("éжλ") if x < 0.34 else r.choice(LOWER)
    return s


def rand_list(r, own):
    size = r.choice([1, 2, 3, r.randint(4, 20), r.randint(20, 120), r.randint(120, 300)])
    names, ids = [], set()
    while len(names) < size:
        x = r.random()
        if own and x < 0.3:
            n = r.choice(own)
        elif names and x < 0.5:
            # close to a name that is there already
            b = r.choice(names)
            n = r.choice([b + r.choice(LOWER), b[:-1], b + "-" + r.choice(LOWER), b.lower(), b + "1", b.replace("-", "x"), r.choice(LOWER) + b])
        else:
            n = rand_name(r)
        if not n or not (n[0].isalnum()) or ident(n) in ids or ident(n) == "Self":
            continue
        ids.add(ident(n))
        names.append(n)
    return names


def spelled(r, names):
    """The list as a file: with or without final newline and blank lines."""
    sep = [("\n\n" if r.random() < 0.1 else "\n") for _ in names]
    s = "".join(n + e for n, e in zip(names, sep))
    return s if r.random() < 0.5 else s.rstrip("\n")


def near(r, names, other):
    """Strings that are not in the list."""
    known, out = set(names), {""}
    for n in names:
        for c in (n.upper(), n.lower(), n + " ", " " + n, n + "\0", n[:-1], n + n[-1], n[::-1], "svg:" + n, ident(n), n.replace("-", "_"), n.replace("-", ""), n + r.choice(LOWER)):
            if r.random() < 0.6:
                out.add(c)
        i = r.randrange(len(n))
        out.add(n[:i] + r.choice(LOWER + UPPER + "-_:é") + n[i + 1:])
    out.update(other)
    out.update(rand_name(r) for _ in range(40))
    out.update("".join(chr(r.choice([r.randrange(1, 128), r.randrange(160, 0x2000)])) for _ in range(r.randint(1, 20))) for _ in range(20))
    return sorted(x for x in out if x not in known)


def lit(s):
    return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'


MAIN = '''
#![allow(dead_code, non_camel_case_types, unused_variables, unused_macros)]
use std::panic::catch_unwind;
fn bad(i: usize, s: String) { println!("BAD {} {}", i, s.replace('\\n', " ")); }
macro_rules! table { ($i:expr, $t:ty, $own:expr, $other:expr, [$(($n:expr, $v:ident)),*], [$($x:expr),*]) => {{
    let known: &[(&str, $t)] = &[$(($n, <$t>::$v)),*];
    let misses: &[&str] = &[$($x),*];
    let mut events = 0u64;
    let own: Option<fn(&str) -> Option<(usize, &'static str)>> = $own;
    for (pos, (name, id)) in known.iter().enumerate() {
        let name: &'static str = name;
        let id = *id;
        match catch_unwind(move || (<$t>::from_str(name), id.as_str(), format!("{} {:?}", id, id))) {
            Ok((got, back, shown)) => {
                if got != Some(id) { bad($i, format!("{:?} gives {:?}, expected the identifier {}", name, got.map(|g| g as usize), stringify!($t))); }
                if back != name { bad($i, format!("the identifier of {:?} gives {:?}", name, back)); }
                if shown != format!("{} {}", name, name) { bad($i, format!("{:?} is shown as {:?}", name, shown)); }
            }
            Err(_) => bad($i, format!("{:?}: panic", name)),
        }
        if id as usize != pos { bad($i, format!("{:?} is number {}, expected {}", name, id as usize, pos)); }
        if pos > 0 && !(known[pos - 1].1 < id && known[pos - 1].1 != id) { bad($i, format!("{:?} is not after its predecessor", name)); }
        if let Some(f) = own {
            match f(name) {
                Some((n, s)) if n == pos && s == name => {}
                x => bad($i, format!("{:?} is number {} in the list, the library has {:?}", name, pos, x)),
            }
        }
        events += 4;
    }
    for x in misses {
        let x: &'static str = x;
        match catch_unwind(move || <$t>::from_str(x)) {
            Ok(None) => {}
            Ok(Some(g)) => bad($i, format!("{:?}, which is not in the list, gives {:?}", x, g)),
            Err(_) => bad($i, format!("{:?}: panic", x)),
        }
        if let Some(f) = own { if let Some(g) = f(x) { bad($i, format!("{:?}, which is not in the list, is known to the library as {:?}", x, g)); } }
        events += 1;
    }
    println!("EVENTS {} {}", known.len(), events);
}}}
'''
TOML = '''[package]
name = "tables"
version = "0.0.0"
edition = "2018"
[dependencies]
siphasher = "0.2"
svgdom = { path = "%s" }
[workspace]
[profile.dev]
debug = false
incremental = false
''' % REPO


def main():
    W = tempfile.mkdtemp(prefix="c23.")
    try:
        run(W)
    finally:
        shutil.rmtree(W, ignore_errors=True)


def write(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", newline="") as f:
        f.write(s)


def run(W):
    # The generator, from the working tree.
    g = os.path.join(W, "generator", "codegen")
    shutil.copytree(os.path.join(REPO, "codegen"), g, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    os.makedirs(os.path.join(W, "generator", "src"))
    shutil.copy(os.path.join(HERE, "codegen.lock"), os.path.join(g, "Cargo.lock"))
    gt = os.path.join(W, "gt")
    b = sh(["cargo", "build", "-q", "--offline"], g, target=gt)
    exe = os.path.join(gt, "debug", "codegen")
    if b.returncode or not os.path.exists(exe):
        no_verdict(b.stdout)

    # The crate that watches the tables must build without any.
    crate, ct = os.path.join(W, "tables"), os.path.join(W, "ct")
    write(crate + "/Cargo.toml", TOML)
    write(crate + "/src/main.rs", MAIN + "fn main() {}\n")
    shutil.copy(os.path.join(HERE, "tables.lock"), crate + "/Cargo.lock")
    b = sh(["cargo", "build", "-q", "--offline"], crate, target=ct)
    if b.returncode:
        no_verdict(b.stdout)

    own = [[l for l in open(os.path.join(REPO, "codegen", f)).read().split("\n") if l] for f in ("elements.txt", "attributes.txt")]
    r = random.Random(SEED * 1000003 + 23)
    lists = [(own[0], own[1])]
    # Small and lopsided lists first, then random ones.
    lists += [(["a"], ["a"]), (["1"], ["n1x", "10"]), (["a-b-c", "a-b"], ["aBcD", "x--y", "z-"])]
    while len(lists) < LISTS:
        lists.append((rand_list(r, own[0]), rand_list(r, own[1])))

    bad, events, names, samples, seen = [], 0, 0, [], set()

    def fail(i, what):
        bad.append((i, what))

    def generate(i, els, atts, d):
        write(d + "/codegen/elements.txt", els)
        write(d + "/codegen/attributes.txt", atts)
        os.makedirs(d + "/src", exist_ok=True)
        # What is there already must not matter.
        if i % 3 == 1:
            write(d + "/src/names.rs", "// old\n" * (i * 500))
        try:
            p = sh([exe], d + "/codegen", timeout=60)
        except subprocess.TimeoutExpired:
            return None, "the generator did not end within 60 s"
        if p.returncode:
            return None, "the generator failed: " + p.stdout[-300:]
        try:
            return open(d + "/src/names.rs", newline="").read(), None
        except OSError as e:
            return None, "no output: %s" % e

    done = 0
    for start in range(0, len(lists), PER_CRATE):
        body, mods, expect = "", "", 0
        for i in range(start, min(start + PER_CRATE, len(lists))):
            els, atts = lists[i]
            se, sa = spelled(r, els), spelled(r, atts)
            out, err = generate(i, se, sa, "%s/l%d" % (W, i))
            again, err2 = generate(i + 1, se, sa, "%s/m%d" % (W, i))
            shutil.rmtree("%s/l%d" % (W, i), ignore_errors=True)
            shutil.rmtree("%s/m%d" % (W, i), ignore_errors=True)
            if err or err2:
                fail(i, err or err2)
                continue
            if out != again:
                fail(i, "two runs on the same lists gave different files")
            write(crate + "/src/n%d.rs" % i, out)
            mods += "mod n%d;\n" % i
            for typ, ns, other in (("ElementId", els, atts), ("AttributeId", atts, els)):
                o = "Some(|s| svgdom::%s::from_str(s).map(|i| (i as usize, i.as_str())))" % typ if i == 0 else "None"
                miss = near(r, ns, other)
                body += "fn t%d_%s() { table!(%d, n%d::%s, %s, 0, [%s], [%s]); }\n" % (
                    i, typ, i, i, typ, o, ", ".join("(%s, %s)" % (lit(n), ident(n)) for n in ns), ", ".join(lit(m) for m in miss))
                expect += 1
                seen.add((typ, tuple(ns)))
            done += 1
            if len(samples) < 3 and i > 3:
                samples.append("elements %s; attributes %s" % (els[:8], atts[:8]))
        calls = "".join("t%d_%s();" % (i, t) for i in range(start, min(start + PER_CRATE, len(lists))) if "mod n%d;" % i in mods for t in ("ElementId", "AttributeId"))
        write(crate + "/src/main.rs", MAIN + mods + body + "fn main() { std::panic::set_hook(Box::new(|_| {})); %s println!(\"END\"); }\n" % calls)
        b = sh(["cargo", "build", "-q", "--offline"], crate, target=ct)
        if b.returncode:
            m = re.search(r"src/n(\d+)\.rs|n(\d+)::", b.stdout)
            if "error" in b.stdout and m:
                e = [l for l in b.stdout.split("\n") if l.startswith("error")]
                fail(int(m.group(1) or m.group(2)), "the generated file does not compile or lacks an identifier: " + " / ".join(e[:3]))
                continue
            no_verdict(b.stdout)
        p = sh([ct + "/debug/tables"], crate, timeout=120)
        for l in p.stdout.split("\n"):
            if l.startswith("BAD "):
                _, i, what = l.split(" ", 2)
                fail(int(i), what)
            elif l.startswith("EVENTS "):
                _, k, n = l.split()
                names += int(k)
                events += int(n)
                expect -= 1
        if not bad and ("END" not in p.stdout or expect != 0):
            fail(start, "the program with the generated tables ended early (%s): %s" % (p.returncode, p.stdout[-300:]))
        if bad:
            break

    cov = {
        "evaluations": done * 2,
        "distinct_nontrivial": len(seen),
        "rule": "a pair of name lists (the repository's own, fixed small ones, random ones of 1 to 300 names with near duplicates, separators, digits, blank lines and "
                "missing final newlines) is given to the generator twice; the output is compiled and every listed name and near misses are converted; each table "
                "counts once per distinct list",
        "samples": samples or ["elements %s; attributes %s" % (a[:8], b[:8]) for a, b in lists[:3]],
        "observed": {"lists": done * 2, "listed names converted": names, "conversions and comparisons": events},
    }
    ev = {"property": "C23", "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - T0, 2)}
    os.makedirs(V + "/evidence/replays", exist_ok=True)
    replay = None
    if bad:
        i, what = bad[0]
        replay = "evidence/replays/C23-%s-%d.json" % (TIER, SEED)
        write(os.path.join(V, replay), json.dumps({"elements": lists[i][0], "attributes": lists[i][1], "violation": what, "list": i}, indent=1, ensure_ascii=False) + "\n")
        cov["violations"] = len(bad)
    write(V + "/evidence/C23.json", json.dumps(ev, indent=1, ensure_ascii=False) + "\n")
    if bad:
        print("list %d: %s" % bad[0])
        print("VIOLATION property=C23 replay=%s" % os.path.join(V, replay))
        sys.exit(1)
    if done * 2 < 2 * LISTS or names < 800:
        no_verdict("too little observed: %s" % cov["observed"])
    print("C23 %s: held on %d lists, %d names, %d events, %.1f s" % (TIER, done * 2, names, events, time.time() - T0))


main()
