#!/usr/bin/env python3
"""Builds the symbolic executor (the checks would do it themselves if this had not been run)."""
import check
print(check.engine(None))
