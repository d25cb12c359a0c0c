"""Run one contract in its own process: python3-vt runcontract.py <module> <contract name>  -> JSON on stdout."""
import sys, os, json, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    from prover import run_contract
    m = importlib.import_module("contracts." + sys.argv[1])
    out = []
    for c in m.CONTRACTS:
        if c.name == sys.argv[2]: out.append(run_contract(c))
    sys.stdout.write("\n@@RESULT@@" + json.dumps(out))


if __name__ == "__main__": main()
