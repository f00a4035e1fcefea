import argparse, os, resource, struct, subprocess, sys, tempfile, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

# properties decided by the Rust harness alone
NATIVE = {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17"}
# those that also run the program
PROGRAM = {"P13", "P15", "P16"}
# those about the parts with unsafe code, whose thorough tier first checks every access to memory
SANITIZED = {"P01", "P08"}
CASE_CPU = 60


def limit_cpu():
    resource.setrlimit(resource.RLIMIT_CPU, (CASE_CPU, CASE_CPU + 5))


def run_native(a):
    if a.tier == "thorough" and a.id in SANITIZED and not a.case:
        os.environ["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0"
        code = run_with(a, vlib.build_harness(sanitized=True), "quick")
        if code:
            return code
    return run_with(a, vlib.build_harness(), a.tier)


def run_with(a, exe, tier):
    if a.id in PROGRAM:
        os.environ["VMON_OXVG"] = vlib.build_program()
    base = [exe, a.id, "--tier", tier, "--seed", str(a.seed), "--root", vlib.ROOT]
    if a.case:
        return subprocess.run(base + ["--case", a.case], env=vlib.env()).returncode
    with tempfile.TemporaryDirectory() as tmp:
        journal = os.path.join(tmp, "journal")
        wall = 600 if tier == "quick" else 4 * 3600
        try:
            r = subprocess.run(base + ["--journal", journal], env=vlib.env(), timeout=wall)
            code = r.returncode
        except subprocess.TimeoutExpired:
            code = None
        if code in (0, 1, 2):
            return code
        # The process died or never came back. Whether that is the code under test is
        # settled by running each unfinished case alone.
        print(f"the run ended abnormally ({code}); re-running its unfinished cases alone", flush=True)
        data = open(journal, "rb").read() if os.path.exists(journal) else b""
        for k in range(0, len(data) - 15, 16):
            group, case = struct.unpack("<QQ", data[k:k + 16])
            if case == 2**64 - 1 or group == 0:
                continue
            spec = f"{group:016x}:{case}"
            one = subprocess.run(base + ["--case", spec], env=vlib.env(), preexec_fn=limit_cpu,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if one.returncode in (0, 2):
                continue
            if one.returncode == 1:
                print(one.stdout)
                return 1
            sig = -one.returncode
            what = {24: f"did not finish within {CASE_CPU} s of processor time", 9: "was killed"}.get(sig, f"died of signal {sig}")
            if sig == 9:
                continue
            again = subprocess.run(base + ["--case", spec], env=vlib.env(), preexec_fn=limit_cpu,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if again.returncode != one.returncode:
                continue
            path = f"{vlib.ROOT}/evidence/replay/{a.id}-abnormal-{case}.json"
            os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump({"property": a.id, "case": spec, "seed": a.seed, "detail": f"the case {what}", "output": one.stdout[-2000:],
                       "replay": f"bash /verif/check {a.id} --seed {a.seed} --case {spec}"}, open(path, "w"), indent=1)
            print(f"  case {spec} {what}\n{one.stdout[-600:]}")
            print(f"VIOLATION property={a.id} replay={path}")
            return 1
        vlib.inconclusive("the run ended abnormally and no single case explains it")


def main():
    p = argparse.ArgumentParser()
    p.add_argument("id")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--case")
    a = p.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    os.makedirs(f"{vlib.ROOT}/evidence/replay", exist_ok=True)
    if a.id == "setup":
        vlib.build_harness()
        vlib.build_program()
        sys.exit(0)
    if a.id in NATIVE:
        sys.exit(run_native(a))
    vlib.inconclusive(f"unknown property {a.id}")


main()
