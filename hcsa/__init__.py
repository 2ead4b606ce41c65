"""hcsa: repository-specific static analyses for hera_cal (stdlib ast only; never imports or runs /repo)."""
