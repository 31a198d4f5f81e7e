"""Transactions produced by Elements Core (copies of the JSON files that come
with the repository), used to bind the reference models to the real network."""
import json
import os

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')


def _load(name):
    with open(os.path.join(DATA, name)) as f:
        return json.load(f)


def txs():
    out = [t for t in _load('elements_txs.json') if isinstance(t, dict)]
    for b in blinding():
        out += [b['blinded'], b['unblinded']]
    for b in split().values():
        out += [b['blinded'], b['unblinded']]
    return out


def blinding():
    return _load('elements_txs_blinding.json')


def split():
    return _load('elements_txs_split_blinding.json')
