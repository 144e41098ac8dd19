"""Repository-specific static analyses for mt_metadata (pure AST; nothing in /repo is run)."""
