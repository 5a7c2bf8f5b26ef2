"""Shared shard layout of the processor checks."""
import importlib
import itertools
from mc import branches, forms, labelops, spellings


def table_shard(ctx, name, table, gen, part, parts):
    table.check(ctx, name, itertools.islice(gen(), part, None, parts))


def shards(name, fs, table=None, gens=(), k=16, parts=8):
    """gens: list of (label, function giving the statements)"""
    out = forms.shard_forms(name, fs, k)
    for label, gen in gens:
        for p in range(parts):
            out.append(('closed %s %s %d' % (name, label, p), table_shard, (name, table, gen, p, parts)))
    return out


def labels(tier, name):
    """label operands, branches to labels and the spellings of numbers belong to the encoding as well"""
    m = importlib.import_module('mc.ref.' + branches.CPUS[name][0])
    fs = m.forms({'x86': 64, 'x86-16': 16, 'x86-32': 32}[name], False) if name.startswith('x86') else m.forms()
    return [('labels ' + n, f, a) for n, f, a in labelops.shards(tier, [name])] + [('branches ' + n, f, a) for n, f, a in branches.shards(tier, [name])] + \
        spellings.shards(name, [f for f in fs if f.tag != 'alt'])
