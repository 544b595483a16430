"""Deterministic uuid4 (re-execution of a path must see the same ids)."""
import itertools
import uuid

_seq = itertools.count(1)


def _uuid4():
    n = next(_seq)
    return uuid.UUID(int=(0xC0DE << 64) | n, version=4)


def install():
    uuid.uuid4 = _uuid4


def reset():
    global _seq
    _seq = itertools.count(1)
