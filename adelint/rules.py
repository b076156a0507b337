"""Registers all checks."""

from . import rules_challenge  # noqa: F401
from . import rules_vectors  # noqa: F401
from . import rules_bounds  # noqa: F401
from . import rules_run  # noqa: F401
from . import rules_weight  # noqa: F401
from . import rules_abort  # noqa: F401
from . import rules_results  # noqa: F401
from . import rules_setup  # noqa: F401
from . import rules_ranking  # noqa: F401
from . import rules_history, rules_analysis  # noqa: F401
from . import rules_report  # noqa: F401
from . import rules_keyboard  # noqa: F401
from . import rules_constraints  # noqa: F401
from . import rules_log  # noqa: F401
from . import rules_timer  # noqa: F401
from . import rules_examples  # noqa: F401
from . import rules_options  # noqa: F401
from . import rules_specs  # noqa: F401
from . import rules_saved  # noqa: F401
from . import rules_identity  # noqa: F401
