"""All rule modules."""
from . import cli  # noqa
from . import hir, sol, chk, syn, prs, sem, msg  # noqa
from . import fixr, det, nopanic  # noqa
