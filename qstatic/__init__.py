"""Repo-specific static analysis for QAMpy (pure stdlib: ast based abstract interpretation)."""
