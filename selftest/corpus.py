"""Every edit of the corpus."""

import bugs  # noqa: F401
import bugs2  # noqa: F401
import bugs3  # noqa: F401
import bugs4  # noqa: F401
import refactorings  # noqa: F401
import refactorings2  # noqa: F401
import refactorings3  # noqa: F401
import refactorings4  # noqa: F401
import refactorings5  # noqa: F401
import refactorings6  # noqa: F401
import refactorings7  # noqa: F401
import refactorings8  # noqa: F401
from cases import CASES  # noqa: F401
