import sys, json, subprocess, os, tempfile, collections
sys.path.insert(0, os.path.dirname(__file__)); import build
def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("--own", default="ALL"); ap.add_argument("--setup", default="import:8 zero:1 identity:1 set_element:2 transpose_new:1"); ap.add_argument("--n", type=int, default=8000); ap.add_argument("--mmode", type=int, default=0)
    ap.add_argument("--types", type=int, default=15); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--nmax", type=int, default=16); ap.add_argument("--max", type=int, default=6); ap.add_argument("--ex", type=int, default=1); ap.add_argument("--flags", type=int, default=0); ap.add_argument("--oom", type=int, default=0); ap.add_argument("--maxthr", type=int, default=3); ap.add_argument("--exclude", default=""); ap.add_argument("--kind", default="asan"); ap.add_argument("--precs", type=int, default=15); ap.add_argument("--mp", type=int, default=0); ap.add_argument("--nmin", type=int, default=0)
    a = ap.parse_args(); exe = getattr(build, a.kind)()
    ALL = "import export zero identity banded random noinit clear drop introspect set_element set_element_new set_row set_diagonal getters copy_new copy convert domain add add_norm add_identity scale_add_identity multiply multiply_x2 multiply_AB multiply_adjust element_multiply scale_new scale scale_inplace threshold threshold_new transpose transpose_new transpose_triangle adjungate_triangle reorder trace trace_mult sum_squares sum_squares2 sum_AB sum_squares_submatrix fnorm fnorm2 gershgorin gershgorin_partial normalize accumulate_offdiag diagonalize inverse inverse_singular extract_submatrix submatrix_index adjacency adjacency_group group_matrix file"
    own = ALL if a.own == "ALL" else a.own
    own = " ".join(o for o in own.split() if o not in a.exclude.split())
    tmp = tempfile.mkdtemp(); ps = []
    for w in range(8):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=203:detect_stack_use_after_return=0:handle_abort=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=1", OMP_WAIT_POLICY="passive", OPENBLAS_NUM_THREADS="1")
        ps.append(subprocess.Popen([exe, "--own", own, "--setup", a.setup, "--from", str(w), "--to", str(a.n), "--step", "8", "--out", f"{tmp}/o{w}", "--tmp", tmp, "--types", str(a.types), "--precs", str(a.precs), "--seed", str(a.seed), "--mmode", str(a.mmode), "--nmax", str(a.nmax), "--nmin", str(a.nmin), "--max", str(a.max), "--flags", str(a.flags), "--oom", str(a.oom), "--maxthr", str(a.maxthr)] + (["--mp", str(a.mp)] if a.mp else []), env=env))
    for p in ps: p.wait()
    g = collections.defaultdict(list); tot = collections.Counter(); oc = collections.Counter()
    for w in range(8):
        for l in open(f"{tmp}/o{w}"):
            d = json.loads(l)
            if d["t"] == "fail":
                ty = d["hist"].split("\n")[0].split(" ")[2].split("/")[0] if d["hist"] else "?"
                g[(d["op"], ty, d["cls"])].append(d)
            else:
                for k in ("cases","refused","fails","ops","checks","elems","owned","nontriv","overflow_calls","oomruns","oomrefused"): tot[k] += d[k]
                oc.update(d["opcount"])
    print(dict(tot)); print(dict(oc))
    for k, v in sorted(g.items(), key=lambda x: -len(x[1])):
        print(f"{len(v):5d} {k}")
        for d in v[:a.ex]: print("        case", d["case"], d["hist"].split("\n")[0], "|", d["text"][:420].replace("\n", " "))
main()
