"""Findings on the unchanged tree that are not repaired, see known-findings.txt."""


def match(prop, v):
    """The description of the known finding that explains this violation, or None."""
    return None
