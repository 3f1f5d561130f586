import gen
from harness import *


class Mixed(Check):
    prop = "MIX"
    quick = int(os.environ.get("N","2000"))

    def gen(self, rng, i):
        p = gen.program(rng, errors=rng.choice([0, 0.01, 0.05]))
        return batch(p.text, p.stdin(), max_ops=20000)


if __name__ == "__main__":
    sys.exit(main(Mixed("quick", int(os.environ.get("VERIF_SEED", "1"))), sys.argv))
