"""Another process that goes on with a serialized object: reads {blob, steps}
from the given file, restores, does the steps, writes what each gave."""
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main(path):
    from sim import env
    env.setup()
    from sim import life
    with open(path, 'rb') as f:
        d = pickle.load(f)
    m = pickle.loads(d['blob'])
    out = [life.observe(d['job'], m)]
    for op in d['ops']:
        out.append(life.apply(d['job'], m, op))
    with open(path + '.out', 'wb') as f:
        pickle.dump(out, f)


if __name__ == '__main__':
    main(sys.argv[1])
