"""Linear-form domain (placeholder hooks; filled in by the C09 analysis)."""


def _none(*a, **k):
    return None


ew2 = reduce = contract = getitem = setitem = conj = scale = reshape = permute = expand = stack = cat = eye = opaque_view = _none
