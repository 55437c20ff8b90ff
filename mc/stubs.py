"""
Stand-ins for modules that are not installed here.
"""
import sys
import types


def distance(one, other):
    """Levenshtein, by definition (what editdistance.eval does)."""
    row = list(range(len(other) + 1))
    for i, a in enumerate(one):
        new = [i + 1]
        for j, b in enumerate(other):
            new.append(min(row[j + 1] + 1, new[j] + 1, row[j] + (a != b)))
        row = new
    return row[-1]


def install_editdistance():
    if 'editdistance' not in sys.modules:
        try:
            import editdistance  # noqa: F401
        except ImportError:
            module = types.ModuleType('editdistance')
            module.eval = distance
            sys.modules['editdistance'] = module
