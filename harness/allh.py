"""All harnesses."""
from . import comp, compdec, leaf  # noqa: F401
from . import regh  # noqa: F401
from .base import REG  # noqa: F401
from . import typeh  # noqa
from . import gramh, codech  # noqa
from . import strath  # noqa
from . import predh  # noqa
