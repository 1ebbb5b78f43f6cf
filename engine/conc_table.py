"""Replay of C14: read the entry from the program that gcc builds, or run the generator again."""
from . import tables


def replay(cfg, args, d):
    bad = []
    if cfg.startswith('table-generator'):
        bad = [g[0] + ': ' + g[2] for g in tables.generators(d) if not g[1] and g[3] == cfg[6:] + ' ' + args]
    else:
        n, i = args.split()
        v = tables.run_tables(cfg[6:], d)[n]
        s = tables.spec(n)
        if i != 'size' and v[int(i)] != s[int(i)]:
            bad = ['entry %s of %s is %s, must be %s' % (i, n, v[int(i)].hex(), s[int(i)].hex())]
    for b in bad:
        print(b)
    print('reproduced' if bad else 'not reproduced')
    return 1 if bad else 0
